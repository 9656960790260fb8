from checks.common import *
from checks import mutate
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; one defect is injected into the message (or every proper prefix is taken) and decode has to raise DecodeError. "
    "Non-trivial: the injected defect applies to the message; counted per distinct malformed message"
)
ASSUMPTIONS = ("the reference decoder in pbt/model.py confirms that each injected defect makes the message malformed",)


def reject(src, wire, spec, what):
    dec, enc, err = decode(as_input(src, wire), spec)
    if err is None:
        fail(f"{what}: decode accepted the message and returned {short(dec)}")


def single_defect(src):
    spec, doc, res, name, spec2, bad = faults.broken_wire(src, budget=200)
    src.label("fault:" + name)
    note_case(src, spec2, doc, bad, original=res.wire.hex())
    want = model.decode(bad, spec2)
    if want.ok or want.unspecified:
        src.label("fault without effect")
        raise Reject(name)
    reject(src, bad, spec2, name)
    src.nontrivial(name, bad)


def every_prefix(src):
    spec, doc, res = gens.wire(src, most=3, dense=False, budget=40)
    note_case(src, spec, doc, res.wire)
    n = len(res.wire)
    if n > 260:
        raise Reject("long")
    for cut in range(n):
        reject(src, res.wire[:cut], spec, f"cut to {cut} of {n} bytes")
    src.nontrivial(res.wire)


def reference_rejects(src):
    """Messages changed at random that the reference decoder finds malformed."""
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
    wire = mutate.message(src, spec, res)
    note_case(src, spec, doc, wire)
    want = model.decode(wire, spec)
    if want.ok or want.unspecified:
        src.label("well formed")
        return
    src.label("malformed: " + want.kind)
    reject(src, wire, spec, f"malformed ({want.kind} in {want.field} at {want.pos})")
    src.nontrivial(wire)


TESTS = [
    RandomTest("single-defect", single_defect, 45000),
    RandomTest("reference-rejects", reference_rejects, 20000),
    RandomTest("every-prefix", every_prefix, 4000),
]
