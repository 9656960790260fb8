from checks.common import *
from checks import mutate
from pbt import faults, sut, usercodecs
from pbt.engine import RandomTest

RULE = (
    "byte strings are drawn at random, by mutating well-formed messages, by decoding a message under another specification, or against "
    "specifications with unknown or unusual codecs; decode has to return or raise DecodeError within the CPU limit. "
    "Non-trivial: at least the message type was parsed (error position beyond it, or success)"
)
ASSUMPTIONS = ("well-formed specifications define h, t, p and 1, and any of the fields",)

ODD_CODECS = (
    "utf-7", "idna", "punycode", "unicode_escape", "raw_unicode_escape", "undefined", "utf-16", "utf-32", "utf-8-sig", "hz", "iso2022_jp",
    "cp65001", "mbcs", "oem", "palmos", "ptcp154", "cp864", "johab", "tis-620", "charmap", "rot13", "hex", "base64", "zlib", "bz2", "uu",
    "quopri", "", "no codec", "x" * 300, "ASCII", "Latin_1", "us-ascii", "mac-arabic", "B", "BCD", *usercodecs.ALL,
)  # fmt: skip


def outcome_ok(src, wire, spec):
    data = as_input(src, wire)
    keep = bytes(data)
    dec, enc, err = decode(data, spec)
    if bytes(data) != keep:
        fail(f"decode changed its input: {short(keep)} became {short(bytes(data))}")
    if err is None:
        src.label("accepted")
        check_accounts(wire, dec, enc, spec, "decode")
        src.nontrivial(bytes(wire))
        return
    src.label("rejected")
    if not isinstance(err, ValueError):
        fail("DecodeError is not a ValueError")
    str(err), repr(err)
    if type(err.pos) is not int or not 0 <= err.pos <= len(wire):
        fail(f"error position {err.pos!r} is outside of the {len(wire)} byte message")
    if not isinstance(err.field, str):
        fail(f"error field is {err.field!r}")
    src.label("failed in " + (err.field if err.field in ("h", "t", "p", "1") else "a field"))
    if err.field not in ("h", "t"):
        src.nontrivial(bytes(wire))


def random_bytes(src):
    spec = gens.spec_for(src, src.draw(16), big=300)
    wire = mutate.noise(src)
    note_case(src, spec, wire=wire)
    outcome_ok(src, wire, spec)


def shipped(src):
    spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    k = src.draw(4)
    if k == 0:
        wire = mutate.noise(src)
    else:
        doc = gens.doc_for(src, spec, 6, 60)
        res = model.encode(doc, spec, gens.announce(src), gens.recaser(src))
        wire = mutate.message(src, spec, res) if k < 3 else res.wire[: src.draw(len(res.wire) + 1)]
    src.note(wire=wire.hex())
    outcome_ok(src, wire, spec)


def mutated(src):
    spec, doc, res = gens.wire(src, most=5, budget=300)
    wire = mutate.message(src, spec, res, 5)
    if src.chance(1, 4):
        # the receiver knows only some of the fields
        keys = [k for k in spec if k.isdigit() and k != "1"]
        spec = {k: v for k, v in spec.items() if k not in keys or src.chance(1, 2)}
    note_case(src, spec, doc, wire)
    outcome_ok(src, wire, spec)


def other_spec(src):
    """A message decoded under a specification it was not made for."""
    _, doc, res = gens.wire(src, most=5, budget=200)
    spec = gens.spec_for(src, src.draw(20), big=100)
    if src.chance(1, 3):
        spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    src.note(wire=res.wire.hex())
    outcome_ok(src, res.wire, spec)


def odd_codecs(src):
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
    spec = faults.own(spec)
    for _ in range(1 + src.draw(2)):
        k = src.pick([p.key for p in res.parts])
        spec[k]["data_enc" if src.chance(2, 3) else "len_enc"] = src.pick(ODD_CODECS)
    wire = mutate.message(src, spec, res._replace(parts=[]), 2) if src.chance(1, 2) else res.wire
    note_case(src, spec, doc, wire)
    data = as_input(src, wire)
    dec, enc, err = decode(data, spec)
    src.nontrivial(wire, repr(spec))


TESTS = [
    RandomTest("mutated", mutated, 24000),
    RandomTest("random-bytes", random_bytes, 16000),
    RandomTest("shipped-specifications", shipped, 16000),
    RandomTest("other-specification", other_spec, 10000),
    RandomTest("odd-codecs", odd_codecs, 10000),
]
