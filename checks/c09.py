from checks.common import *
from checks import mutate
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; malformed messages (one injected defect, or random changes) are decoded and the DecodeError is compared with where the reference "
    "decoder stops. Non-trivial: the message is malformed; counted per distinct (field, position, message)"
)
ASSUMPTIONS = (
    "the reference decoder in pbt/model.py states where parsing fails",
    "the entry of the failing part in the partial dictionaries is not prescribed",
)


def check_error(src, data, spec, want, what):
    dec, enc, err = decode(data, spec)
    if err is None:
        fail(f"{what}: decode accepted the message and returned {short(dec)}")
    if err.field != want.field or type(err.field) is not str:
        fail(f"{what}: error names field {err.field!r}, parsing failed in {want.field!r} ({want.kind}); {err}")
    if err.pos != want.pos or type(err.pos) is not int:
        fail(f"{what}: error position {err.pos!r}, parsing failed at {want.pos} ({want.kind}); {err}")
    if err.s is not data:
        fail(f"{what}: error.s is not the input object but {short(err.s)}")
    if type(err.msg) is not str or not err.msg:
        fail(f"{what}: error.msg is {err.msg!r}")
    text = f"{err.msg}: field {err.field} pos {err.pos}"
    if str(err) != text:
        fail(f"{what}: the text is {str(err)!r} instead of {text!r}")
    if err.args != (text,):
        fail(f"{what}: args are {err.args!r}")
    if want.sizes is not None:
        size_complaint(err.msg, want.sizes, what)
    for name, got, expected in (("doc_dec", err.doc_dec, model.doc_dec(want.parts)), ("doc_enc", err.doc_enc, model.doc_enc(want.parts))):
        if type(got) is not dict:
            fail(f"{what}: error.{name} is {short(got)}")
        got = {k: v for k, v in got.items() if k != want.field or k in expected and want.kind == "extra"}
        if want.field == "1" and want.kind != "extra":
            expected = {k: v for k, v in expected.items() if k != "1"}
        if not same(got, expected):
            fail(f"{what}: error.{name} holds {short(got)} of the parts before {want.field!r}, expected {short(expected)}")


def single_defect(src):
    spec, doc, res, name, spec2, bad = faults.broken_wire(src, budget=200)
    note_case(src, spec2, doc, bad, original=res.wire.hex())
    want = model.decode(bad, spec2)
    if want.ok or want.unspecified:
        raise Reject(name)
    src.label("fault:" + name)
    src.label("kind:" + want.kind)
    src.label("in:" + (want.field if want.field in ("h", "t", "p", "1") else "a field"))
    check_error(src, as_input(src, bad), spec2, want, name)
    src.nontrivial(want.field, want.pos, bad)


def every_prefix(src):
    spec, doc, res = gens.wire(src, most=3, dense=False, budget=40)
    note_case(src, spec, doc, res.wire)
    n = len(res.wire)
    if n > 200:
        raise Reject("long")
    for cut in range(n):
        want = model.decode(res.wire[:cut], spec)
        check_error(src, as_input(src, res.wire[:cut]), spec, want, f"cut to {cut} of {n} bytes")
    src.nontrivial(res.wire)


def random_changes(src):
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
    wire = mutate.message(src, spec, res)
    note_case(src, spec, doc, wire)
    want = model.decode(wire, spec)
    if want.ok or want.unspecified:
        return
    src.label("kind:" + want.kind)
    check_error(src, as_input(src, wire), spec, want, "random change")
    src.nontrivial(want.field, want.pos, wire)


TESTS = [
    RandomTest("single-defect", single_defect, 45000),
    RandomTest("random-changes", random_changes, 18000),
    RandomTest("every-prefix", every_prefix, 3000),
]
