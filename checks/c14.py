from checks.common import *
from checks import mutate
from pbt import sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; messages, canonical or not, or changed at random, are decoded, re-encoded and decoded again. "
    "Non-trivial: the message was accepted and holds at least one field or a header; counted per distinct message"
)
ASSUMPTIONS = (
    "the bytes of each text value are what the codec encodes its text to (bijective on the values of the message)",
    "text data is not counted in an odd number of nibbles (the documentation does not define it)",
)


def normalise(src, wire, spec, canonical):
    dec, enc, err = decode(as_input(src, wire), spec)
    if err is not None:
        if canonical is not None:
            fail(f"decode rejected a well-formed message: {err}")
        src.label("rejected")
        return False
    content = {k: v for k, v in dec.items() if k not in ("p", "1")}
    for k, v in content.items():
        if not model.is_bin(spec[k]):
            if not _bijective(enc[k]["data"], spec[k]["data_enc"]):
                raise Reject("not bijective")
            if model.unit(spec[k]) == "nibbles" and k != "t" and _odd_text(enc[k], spec[k]):
                raise Reject("odd text nibbles")
    given = dict(dec)
    s2, enc2 = must_encode(given, spec, "re-encoding a decoded message")
    s2 = bytes(s2)
    dec2, enc3 = must_decode(as_input(src, s2), spec, "decoding a re-encoded message")
    expect({k: v for k, v in dec2.items() if k not in ("p", "1")}, content, "content after re-encoding")
    expect(enc3, enc2, "encoded dictionary after re-encoding")
    s3, _ = must_encode(dict(dec2), spec, "re-encoding a normalised message")
    if bytes(s3) != s2:
        fail(f"re-encoding twice gives {short(bytes(s3))} instead of {short(s2)}")
    dec3, _ = must_decode(bytes(s3), spec)
    expect(dec3, dec2, "content after re-encoding twice")
    ref = model.encode(content, spec)
    if not ref.ok:
        fail(f"encode accepts decoded content that cannot be encoded: {ref.field} {ref.kind}")
    if s2 != ref.wire:
        fail(f"re-encoding gives {short(s2)}, the canonical message of this content is {short(ref.wire)}")
    if canonical is None:
        canonical = _canonical(dec, enc, enc2, spec)
    if canonical:
        src.label("canonical")
        if s2 != bytes(wire):
            fail(f"re-encoding a canonical message gives {short(s2)} instead of {short(bytes(wire))}")
    else:
        src.label("not canonical")
    if len(content) > 1:
        src.nontrivial(bytes(wire))
    return True


def _bijective(data, codec):
    """Judged by Python's codec, not by what decode returned."""
    try:
        return data.decode(codec).encode(codec) == data
    except UnicodeError:
        return False


def _odd_text(entry, fs):
    if fs["len_type"] == 0:
        return fs["max_len"] % 2 == 1
    try:
        return model.decode_len(entry["len"], fs) % 2 == 1
    except Exception:
        return True


def _canonical(dec, enc, enc2, spec):
    """Canonical by its own parts: bitmap text in upper case, no empty announced bitmap, pads as encode chooses them."""
    nums = [int(k) for k in dec if k not in ("h", "t", "p", "1")]
    if model.layout(nums) != (dec["p"], dec.get("1")):
        return False
    for k, v in dec.items():
        if model.is_bin(spec[k]) and model.unit(spec[k]) == "nibbles" and len(v) % 2 and k not in ("t", "p", "1"):
            left, right = model.pads(spec[k])
            digits = enc[k]["data"].hex()
            if left and digits[0] != left.lower():
                return False
    return True


def built(src):
    spec, doc = gens.spec_and_doc(src)
    ann, rec = gens.announce(src), gens.recaser(src)
    res = model.encode(doc, spec, ann, rec)
    note_case(src, spec, doc, res.wire)
    mark(src, spec, doc)
    canonical = res.wire == model.encode(doc, spec).wire
    normalise(src, res.wire, spec, canonical)


def changed(src):
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=80)
    wire = mutate.message(src, spec, res, 2)
    note_case(src, spec, doc, wire)
    normalise(src, wire, spec, None)


def shipped(src):
    spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    doc = gens.doc_for(src, spec, 8, 60)
    res = model.encode(doc, spec, gens.announce(src) if src.chance(1, 2) else ())
    wire = res.wire
    if src.chance(1, 3):
        wire = mutate.message(src, spec, res, 1)
    src.note(wire=wire.hex())
    normalise(src, wire, spec, None)


TESTS = [RandomTest("built", built, 20000), RandomTest("changed", changed, 16000), RandomTest("shipped-specifications", shipped, 8000)]
