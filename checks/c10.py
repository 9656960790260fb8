from checks.common import *
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; one or several defects are put into the dict or its specification and the EncodeError is compared with where the reference encoder "
    "stops. Non-trivial: the dict cannot be encoded; counted per distinct (dict, specification)"
)
ASSUMPTIONS = (
    "the reference encoder in pbt/model.py states which part is the first that cannot be encoded",
    "the entry of the failing part in the partial encoded dictionary is not prescribed",
)


def check_error(spec, doc, want, what):
    s, enc, err = encode(doc, spec)
    if err is None:
        fail(f"{what}: encode accepted the dict and produced {short(bytes(s))}")
    if err.field != want.field or type(err.field) is not str:
        fail(f"{what}: error names field {err.field!r}, the first part that cannot be encoded is {want.field!r} ({want.kind}); {err}")
    if err.doc_dec is not doc:
        fail(f"{what}: error.doc_dec is not the dict being encoded but {short(err.doc_dec)}")
    if type(err.msg) is not str or not err.msg:
        fail(f"{what}: error.msg is {err.msg!r}")
    text = f"{err.msg}: field {err.field}"
    if str(err) != text or err.args != (text,):
        fail(f"{what}: the text is {str(err)!r} instead of {text!r}")
    if want.sizes is not None:
        size_complaint(err.msg, want.sizes, what)
    expected = model.doc_enc(want.parts)
    got = err.doc_enc
    if type(got) is not dict:
        fail(f"{what}: error.doc_enc is {short(got)}")
    got = {k: v for k, v in got.items() if k != want.field}
    if not same(got, expected):
        fail(f"{what}: error.doc_enc holds {short(got)} of the parts before {want.field!r}, expected {short(expected)}")


def run(src, count):
    spec, doc, names = faults.broken_doc(src, count=count, most=5, budget=300)
    if set(map(type, doc)) == {str}:
        doc = gens.litter(src, doc, spec)
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    if want.ok:
        raise Reject("no effect")
    if want.kind == "nonhex" or want.kind == "odd":
        src.label("kind:hex")
    for n in names:
        src.label("fault:" + n)
    src.label("kind:" + want.kind)
    src.label("in:" + (want.field if want.field in ("h", "t", "p", "1") else "a field"))
    check_error(spec, doc, want, "+".join(names))
    src.nontrivial(repr(doc), repr(spec))


def single_defect(src):
    run(src, 1)


def several_defects(src):
    run(src, 2 + src.draw(2))


TESTS = [RandomTest("single-defect", single_defect, 40000), RandomTest("several-defects", several_defects, 16000)]
