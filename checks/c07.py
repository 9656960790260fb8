from checks.common import *
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; one defect is put into the dict or its specification and encode has to raise EncodeError. "
    "Non-trivial: the defect applies to the dict; counted per distinct (dict, specification)"
)
ASSUMPTIONS = ("the reference encoder in pbt/model.py confirms that each defect makes the dict unencodable",)


def reject(src, spec, doc, names):
    s, enc, err = encode(doc, spec)
    if err is None:
        fail(f"{'+'.join(names)}: encode accepted the dict and produced {short(bytes(s))}")


def single_defect(src):
    spec, doc, names = faults.broken_doc(src, most=4, dense=False, budget=300)
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    if want.ok:
        src.label("fault without effect")
        raise Reject("no effect")
    for n in names:
        src.label("fault:" + n)
    reject(src, spec, doc, names)
    src.nontrivial(repr(doc), repr(spec))


def reference_rejects(src):
    """Values changed at random: encode accepts exactly what the reference encoder accepts, and never anything else."""
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=80)
    spec = faults.own(spec)
    for _ in range(1 + src.draw(2)):
        k = src.pick(list(doc))
        fs = spec[k]
        kind = src.draw(6)
        v = doc[k]
        if kind == 0:
            doc[k] = v[: src.draw(len(v) + 1)]
        elif kind == 1:
            doc[k] = v + v[: src.draw(len(v) + 1)] + src.pick(("", "0", "1", " "))
        elif kind == 2:
            fs["max_len"] = src.draw(40)
        elif kind == 3 and v:
            i = src.draw(len(v))
            doc[k] = v[:i] + src.pick("0Fg é\x00²-+") + v[i + 1 :]
        elif kind == 4:
            fs["len_count"] = src.pick(("bytes", "nibbles"))
        else:
            fs["len_type"] = src.draw(4)
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    s, enc, err = encode(dict(doc), spec)
    if want.ok:
        src.label("valid")
        if err is not None:
            fail(f"encode rejected a valid dict: {err}")
        if bytes(s) != want.wire:
            fail(f"encode produced {short(bytes(s))}, expected {short(want.wire)}")
        return
    src.label("invalid: " + want.kind)
    if err is None:
        fail(f"encode accepted an invalid dict ({want.kind} in {want.field}) and produced {short(bytes(s))}")
    src.nontrivial(repr(doc), repr(spec))


def unpadded(src):
    """Values of every width around the limits of one field."""
    fs = gens.field(src, big=60, multi=False)
    spec = dict(gens.PLAIN_HEAD, **{"2": fs})
    binary = model.is_bin(fs)
    n = fs["max_len"] * (1 if model.unit(fs) == "nibbles" else 2) if binary else fs["max_len"]
    if n > 5000:
        raise Reject("wide")
    ch = src.pick("0 1F")
    for k in range(max(0, n - 3), n + 4):
        v = ("0" if ch == " " and binary else ch) * k
        doc = {"t": "0200", "2": v}
        note_case(src, spec, doc)
        want = model.encode(doc, spec)
        s, enc, err = encode(doc, spec)
        if (err is None) != want.ok:
            fail(f"{k} characters: encode {'accepted' if err is None else 'rejected: ' + str(err)}, the reference {'accepts' if want.ok else 'rejects: ' + want.kind}")
        if want.ok and bytes(s) != want.wire:
            fail(f"encode produced {short(bytes(s))}, expected {short(want.wire)}")
    src.nontrivial(repr(fs), ch)


TESTS = [
    RandomTest("single-defect", single_defect, 40000),
    RandomTest("reference-rejects", reference_rejects, 20000),
    RandomTest("unpadded", unpadded, 8000),
]
