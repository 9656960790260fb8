import copy

from checks import history, mutate, printing
from checks.common import *
from pbt import around, faults, modes, sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; the same call, valid or with injected defects, is made in this process and in processes with other interpreter options (-OO, -O, -bb, -W error, "
    "-X dev), hash seeds and locales, and everything it returns or raises compared. Non-trivial: the message or dict holds a field or is refused; "
    "counted per distinct call"
)
ASSUMPTIONS = ("codec names exist (Python itself looks them up for empty data in development mode only)",)


def everywhere(src, op, args):
    want, _ = history.run(sut.iso8583, op, history.clone(op, args))
    src.label(f"{op}: {want[0]}")
    for i, (name, _, _) in enumerate(modes.MODES):
        try:
            got = modes.call(i, op, args)
        except modes.Died:
            fail(f"{op} ends the process ({name})")
        if not same(got, want):
            fail(f"{op} gives {short(got)} in a process with {name}, and {short(want)} in this one")
    return want


def valid(src):
    spec, doc = gens.spec_and_doc(src, most=5, budget=200)
    describe(spec)
    res = model.encode(doc, spec, gens.announce(src), gens.recaser(src))
    note_case(src, spec, doc, res.wire)
    everywhere(src, "encode", (doc, spec))
    everywhere(src, "decode", (as_input(src, res.wire), spec))
    if len(res.parts) > 2:
        src.nontrivial(res.wire)


def describe(spec):
    for k in spec:
        if "desc" not in spec[k]:
            spec[k]["desc"] = f"Part {k}"


def broken_doc(src):
    spec, doc, names = faults.broken_doc(src, most=4, budget=100)
    if _huge(doc) or not _known_codecs(spec):
        raise Reject("outside of the assumptions")
    if src.chance(1, 4):
        several_odd_keys(src, doc)
    note_case(src, spec, doc)
    try:
        history.clone("encode", (doc, spec))
        everywhere(src, "encode", (doc, spec))
    except TypeError:
        raise Reject("cannot be copied")
    src.nontrivial(repr(doc), repr(spec))


def several_odd_keys(src, doc):
    """Keys whose order in a set depends on the hash seed."""
    kind = src.draw(7)
    for _ in range(2 + src.draw(5 if kind == 0 else 30)):
        n = src.draw(300)
        doc[(b"key %d" % n, (str(n), n), f"0{n}", f"{n}x", frozenset((str(n),)), str(n + 193))[src.draw(6) if kind == 0 else kind - 1]] = ""


def _huge(doc):
    return any(isinstance(k, str) and len(k) > 600 or isinstance(k, int) and abs(k) > 10**600 for k in doc)


def _known_codecs(spec):
    return not any(fs[n] not in ("b", "bcd") and not gens.codec_exists(fs[n]) for fs in spec.values() for n in ("data_enc", "len_enc"))


def broken_wire(src):
    if src.chance(1, 2):
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
    else:
        spec, doc, res = gens.wire(src, most=4, dense=False, budget=100)
        wire = mutate.message(src, spec, res)
    if not _known_codecs(spec):
        raise Reject("outside of the assumptions")
    note_case(src, spec, doc, wire)
    everywhere(src, "decode", (as_input(src, wire), spec))
    src.nontrivial(wire, repr(spec))


def printed(src):
    doc, spec, kind = printing.make_doc(src)
    src.note(doc=doc)
    everywhere(src, "pp", (doc, spec, *gens.widths(src)))
    src.nontrivial(repr(doc))


def surroundings(src):
    """The same call from other places of an application."""
    k = src.draw(4)
    if k == 0:
        spec, doc = gens.spec_and_doc(src, most=6, budget=200)
        op, args = "encode", (doc, spec)
    elif k == 1:
        spec, doc, names = faults.broken_doc(src, most=4, budget=100)
        if _huge(doc):
            raise Reject("outside of the assumptions")
        op, args = "encode", (doc, spec)
    elif k == 2:
        if src.chance(1, 2):
            spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=100)
        else:
            spec, doc, res = gens.wire(src, most=6, budget=200)
            wire = mutate.message(src, spec, res) if src.chance(1, 3) else res.wire
        op, args = "decode", (as_input(src, wire), spec)
    else:
        doc, spec, kind = printing.make_doc(src)
        op, args = "pp", (doc, spec, *gens.widths(src))
    note_case(src, spec, doc)
    try:
        history.clone(op, args)
    except TypeError:
        raise Reject("cannot be copied")
    want, _ = history.run(sut.iso8583, op, history.clone(op, args))
    src.label(f"{op}: {want[0]}")
    how = src.pick(around.AROUND)
    then = src.pick(around.WITHIN) if src.chance(1, 4) and how is not around.deep else None
    then = None if then is how else then
    given = history.clone(op, args)
    caller = src.pick(around.CALLERS) if src.chance(1, 3) else None
    if caller is around._from_c and op == "pp":
        caller = None
    pkg = around.Caller(sut.iso8583, caller) if caller else sut.iso8583
    out = how(lambda: _guarded(lambda: history.run(pkg, op, given)[0], then))
    place = how.__name__ + (" and " + then.__name__ if then else "") + (", from " + caller.__name__.strip("_") if caller else "")
    if caller:
        src.label("from: " + caller.__name__)
    src.label("around: " + how.__name__)
    if out[0] == "raised":
        if isinstance(out[1], MemoryError):
            raise Reject("memory")
        fail(f"{op} called in {place} raises {out[1]!r}; elsewhere it gives {short(want)}")
    if not same(out[1], want):
        fail(f"{op} called in {place} gives {short(out[1])}; elsewhere it gives {short(want)}")
    src.nontrivial(repr(args), place)


def _guarded(fn, then):
    try:
        return ("got", then(fn) if then else fn())
    except Exception as e:
        return ("raised", e)


TESTS = [
    RandomTest("valid", valid, 7000),
    RandomTest("refused-dicts", broken_doc, 5000),
    RandomTest("refused-messages", broken_wire, 5000),
    RandomTest("printed", printed, 3000),
    RandomTest("surroundings", surroundings, 10000, guided=False),
]
