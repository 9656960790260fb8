from checks import mutate, printing
from checks.common import *
from pbt import faults, gens, sut, world
from pbt.engine import Hang, RandomTest

RULE = (
    HEADLINE
    + "; valid and refused calls of encode, decode and pp are made with standard streams, logging, warnings and audit events recorded and the global "
    "state of the interpreter compared before and after. Non-trivial: the message or dict holds a field or is refused; counted per distinct call"
)
ASSUMPTIONS = ("a codec used for the first time may be imported", "the state compared is the list in pbt/world.py")


def quiet(src, what, fn):
    """fn makes the call, on arguments of its own each time."""
    seen, res = world.watch(fn, first=True)
    if not seen:
        seen, res = world.watch(fn)
    if seen:
        fail(f"{what} {seen[0]}" + (f" (and {len(seen) - 1} more: {seen[1]})" if len(seen) > 1 else ""))
    if isinstance(res[1], Hang):
        raise res[1]
    if res[0] == "raised" and not isinstance(res[1], (sut.EncodeError, sut.DecodeError)):
        raise Reject("another exception")
    src.label(f"{what} {res[0]}")
    return res


def valid(src):
    spec, doc = gens.spec_and_doc(src, most=6, budget=200)
    res = model.encode(doc, spec, gens.announce(src), gens.recaser(src))
    note_case(src, spec, doc, res.wire)
    if src.chance(1, 2):
        given = gens.litter(src, doc, spec)
        quiet(src, "encode", lambda: sut.iso8583.encode(dict(given), spec))
    else:
        data = as_input(src, res.wire)
        quiet(src, "decode", lambda: sut.iso8583.decode(data, spec))
    if len(res.parts) > 2:
        src.nontrivial(res.wire)


def refused_dict(src):
    spec, doc, names = faults.broken_doc(src, most=4, budget=100)
    note_case(src, spec, doc)
    quiet(src, "encode", lambda: sut.iso8583.encode(dict(doc), spec))
    src.nontrivial(repr(doc), repr(spec))


def refused_message(src):
    if src.chance(1, 2):
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
    else:
        spec, doc, res = gens.wire(src, most=4, dense=False, budget=100)
        wire = mutate.message(src, spec, res)
    note_case(src, spec, doc, wire)
    data = as_input(src, wire)
    quiet(src, "decode", lambda: sut.iso8583.decode(data, spec))
    src.nontrivial(wire, repr(spec))


def printed(src):
    doc, spec, kind = printing.make_doc(src)
    widths = gens.widths(src)
    src.note(doc=doc, widths=widths)
    sink = sut.Sink()
    quiet(src, "pp", lambda: sut.iso8583.pp(doc, spec, widths[0], sink, widths[1]))
    src.nontrivial(repr(doc))


def errors(src):
    """Showing, comparing and dropping errors and results."""
    spec, doc, names = faults.broken_doc(src, most=4, budget=60)
    note_case(src, spec, doc)

    def use():
        try:
            sut.iso8583.encode(dict(doc), spec)
        except sut.EncodeError as e:
            str(e), repr(e), e.__reduce__()
            del e

    quiet(src, "showing an error", use)
    src.nontrivial(repr(doc), repr(spec))


TESTS = [
    RandomTest("valid", valid, 9000),
    RandomTest("refused-dicts", refused_dict, 6000),
    RandomTest("refused-messages", refused_message, 6000),
    RandomTest("printed", printed, 3000),
    RandomTest("errors", errors, 1500),
]
