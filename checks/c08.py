from checks.common import *
from checks import mutate
from pbt import sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; the accounting invariants are checked on every success of encode and of decode. Non-trivial: at least one field or a header, counted per distinct message"
)
ASSUMPTIONS = ()


def after_encode(src):
    spec, doc = gens.spec_and_doc(src)
    note_case(src, spec, doc)
    mark(src, spec, doc)
    given = gens.litter(src, doc, spec)
    for stale in ("p", "1", "65", "h"):
        if src.chance(1, 6) and (stale != "h" or not model.has_header(spec)):
            given[stale] = src.pick(("", "C000000000000000", "FFFFFFFFFFFFFFFF", "x", "8000000000000000" * 2))
    s, enc = must_encode(given, spec)
    if not model.has_header(spec):
        given.pop("h", None)
    given = {k: v for k, v in given.items() if k in ("h", "t", "p") or k.isdigit()}
    check_accounts(s, given, enc, spec, "encode")
    if len(doc) > 1:
        src.nontrivial(bytes(s))


def after_decode(src):
    spec, doc, res = gens.wire(src)
    note_case(src, spec, doc, res.wire)
    data = as_input(src, res.wire)
    dec, enc = must_decode(data, spec)
    check_accounts(data, dec, enc, spec, "decode")
    if len(doc) > 1:
        src.nontrivial(res.wire)


def after_mutation(src):
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=80)
    wire = mutate.message(src, spec, res, 2)
    note_case(src, spec, doc, wire)
    data = as_input(src, wire)
    dec, enc, err = decode(data, spec)
    if err is None:
        src.label("mutation accepted")
        check_accounts(data, dec, enc, spec, "decode")
        src.nontrivial(wire)
    else:
        src.label("mutation rejected")


def shipped(src):
    spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    doc = gens.doc_for(src, spec, 10, 80)
    given = dict(doc)
    src.note(doc=doc)
    s, enc = must_encode(given, spec)
    check_accounts(s, given, enc, spec, "encode")
    dec, enc2 = must_decode(as_input(src, s), spec)
    check_accounts(s, dec, enc2, spec, "decode")
    src.nontrivial(bytes(s))


TESTS = [
    RandomTest("after-encode", after_encode, 20000),
    RandomTest("after-decode", after_decode, 20000),
    RandomTest("after-mutation", after_mutation, 16000),
    RandomTest("shipped-specifications", shipped, 6000),
]
