import copy

from checks.common import *
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; the dict is compared before and after encode (success and failure), and encoded again, copied, permuted, with stale bitmaps and with "
    "unrelated entries. Non-trivial: the dict holds at least one field; counted per distinct dict"
)
ASSUMPTIONS = ()
EXTRA = ("", "name", "T", "H", "bitmap", " 2", "2 ", "-3", "+3", "1.5", "0x10", "desc", "p1", "b", "2a", "é", "len", "data", "_", "t ", "h1")


def snapshot(doc):
    return {k: (v, copy.deepcopy(v)) for k, v in doc.items()}


def compare(before, doc, what):
    for k, (obj, deep) in before.items():
        if k in ("p", "1", "65"):
            continue
        if k not in doc:
            fail(f"{what}: encode removed {k!r} from the caller's dict")
        if not same(doc[k], deep) and deep == deep:
            fail(f"{what}: encode changed {k!r} from {short(deep)} to {short(doc[k])}")
    for k in doc:
        if k not in before and k not in ("p", "1"):
            fail(f"{what}: encode added {k!r} to the caller's dict")


def success(src):
    spec, doc = gens.spec_and_doc(src)
    note_case(src, spec, doc)
    mark(src, spec, doc)
    first = dict(doc)
    spec_before = copy.deepcopy(spec)
    s, enc = must_encode(first, spec)
    s, enc = bytes(s), copy.deepcopy(enc)
    compare(snapshot(doc), first, "success")
    after = dict(first)

    def again(d, what):
        given = snapshot(d)
        s2, enc2 = must_encode(d, spec, what)
        if bytes(s2) != s:
            fail(f"{what}: the message is {short(bytes(s2))} instead of {short(s)}")
        expect(enc2, enc, f"{what}: encoded dictionary")
        compare(given, d, what)
        for k in ("p", "1"):
            if d.get(k) != after.get(k):
                fail(f"{what}: {k!r} is {d.get(k)!r} instead of {after.get(k)!r}")

    again(first, "the same dict again")
    again(first, "the same dict a third time")
    again(dict(src.shuffle(list(doc.items()))), "other insertion order")
    stale = dict(doc)
    for k in ("p", "1", "65"):
        if src.chance(2, 3):
            stale[k] = src.pick(("", "FFFFFFFFFFFFFFFF", "0000000000000000", "junk", None, 5, b"x", after["p"]))
    if src.chance(1, 2):
        stale = dict(src.shuffle(list(stale.items())))
    src.note(stale={k: stale.get(k) for k in ("p", "1", "65")})
    again(stale, "stale bitmaps")
    other = dict(doc)
    for _ in range(1 + src.draw(3)):
        other[src.pick(EXTRA)] = src.pick(("", "x", "0200", None, 7, [1], {"len": b"", "data": b""}, b"0"))
    if not model.has_header(spec) and src.chance(1, 2):
        other["h"] = src.pick(("", "header", None, 3))
    src.note(other={k: v for k, v in other.items() if k not in doc})
    again(other, "unrelated entries")
    if not same(spec, spec_before):
        fail("encode changed the specification")
    if len(doc) > 1:
        src.nontrivial(repr(doc))


def failure(src):
    spec, doc, names = faults.broken_doc(src, most=4, budget=200, count=1 + src.draw(2))
    for k in ("p", "1", "65"):
        if src.chance(1, 4):
            doc[k] = src.pick(("", "FFFFFFFFFFFFFFFF", "junk", None))
    note_case(src, spec, doc)
    before = snapshot(doc)
    spec_before = copy.deepcopy(spec)
    s, enc, err = encode(doc, spec)
    if err is None:
        return
    if not same(spec, spec_before):
        fail(f"encode changed the specification when it failed with {err}")
    for n in names:
        src.label("fault:" + n)
    compare(before, doc, "failure")
    # the same failure again
    s2, enc2, err2 = encode(doc, spec)
    if err2 is None or str(err2) != str(err):
        fail(f"encoding the dict again after {err}: {err2 or 'accepted'}")
    # a repaired dict is not affected by the failure before it
    src.nontrivial(repr(doc))


def after_failure(src):
    """Bitmap entries left by a failed call do not matter later."""
    spec, doc = gens.spec_and_doc(src, most=5, budget=100)
    keys = [k for k in doc if k.isdigit()]
    if not keys:
        raise Reject("no field")
    note_case(src, spec, doc)
    want, wenc = must_encode(dict(doc), spec)
    broken = dict(doc)
    bad = src.pick(keys + ["t"])
    if bad != "t" and src.chance(1, 2):
        broken["193"] = "x"
    else:
        broken[bad] = None
    s, enc, err = encode(broken, spec)
    if err is None:
        fail(f"encode accepted None for {bad!r}")
    broken[bad] = doc[bad]
    broken.pop("193", None)
    s, enc = must_encode(broken, spec)
    if bytes(s) != bytes(want):
        fail(f"after a failure the message is {short(bytes(s))} instead of {short(bytes(want))}")
    expect(enc, wenc, "encoded dictionary after a failure")
    src.nontrivial(repr(doc))


TESTS = [RandomTest("success", success, 14000), RandomTest("failure", failure, 20000), RandomTest("after-failure", after_failure, 10000)]
