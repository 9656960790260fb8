from checks.common import *
from checks import mutate
from pbt import faults
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; malformed messages and dicts with one or several defects are refused, and the text of the error has to be that of a defect which the failing part has, "
    "worded as everywhere else, with its actual numbers. Non-trivial: the call is refused; counted per distinct call"
)
ASSUMPTIONS = (
    "a part that has several defects may be refused because of any of them",
    "the wording for fields the specification does not define is not prescribed",
)


def size_text(sizes, variable):
    actual, wanted, unit = sizes
    return f"Field data is {actual} {unit}, larger than maximum {wanted}" if variable else f"Field data is {actual} {unit}, expecting {wanted}"


# --------------------------------------------------------------------------------------------------------------- encode


def data_reasons(v, fs, count):
    """Everything that is wrong with the data itself."""
    if not isinstance(v, str):
        return {"Failed to encode field, invalid data"}
    if not model.is_bin(fs):
        if not model.text_codec(fs["data_enc"]):
            return {"Failed to encode field, unknown encoding specified"}
        try:
            v.encode(fs["data_enc"])
        except Exception:
            return {"Failed to encode field, invalid data"}
        return set()
    digits = v
    if count == "nibbles" and len(v) % 2:
        left, right = model.pads(fs)
        digits = left + v if left else v + right
    out = set()
    if any(c not in model.HEX for c in digits):
        out.add("Failed to encode field, non-hex data")
    if len(digits) % 2:
        out.add("Failed to encode field, odd-length nibble data, specify pad" if count == "nibbles" else "Failed to encode field, odd-length hex data")
    return out


def encode_reasons(doc, spec, key):
    fs = spec[key]
    if key in ("p", "1"):
        return {"Failed to encode field, unknown encoding specified"}
    v = doc[key]
    count = "bytes" if key == "t" else model.unit(fs)
    out = data_reasons(v, fs, count)
    if out:
        return out
    data, size = model.data_bytes(v, fs, count)
    if key == "t":
        return {size_text((size, model.type_width(spec), "bytes"), False)}
    if fs["len_type"] == 0:
        return {size_text((size, fs["max_len"], count), False)}
    if size > fs["max_len"]:
        out.add(size_text((size, fs["max_len"], count), True))
    try:
        model.len_bytes(size, fs)
    except model.Bad as e:
        out.add(
            "Failed to encode field length, unknown encoding specified"
            if e.kind == "codec"
            else "Failed to encode field length, field length does not fit into configured field size"
        )
    return out


def keys_text(doc):
    """What the text about keys has to be, if that is prescribed."""
    others = [k for k in doc if not isinstance(k, str)]
    odd = [k for k in doc if isinstance(k, str) and k.isnumeric() and not (k.isascii() and len(k) < 4000 and str(int(k)) == k)]
    if odd:
        return None
    if others:
        try:
            return f"Dictionary contains invalid fields [{', '.join([repr(k) for k in others])}]"
        except Exception:
            return None
    out = sorted(int(k) for k in doc if k.isnumeric() and not model.is_field_key(k))
    return f"Dictionary contains fields outside of 1-192 range {out}"


def refused_dict(src, count):
    spec, doc, names = faults.broken_doc(src, count=count, most=5, budget=300)
    if set(map(type, doc)) == {str}:
        doc = gens.litter(src, doc, spec)
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    if want.ok:
        raise Reject("no effect")
    before = dict(doc)
    for n in names:
        src.label("fault:" + n)
    src.label("kind:" + want.kind)
    s, enc, err = encode(doc, spec)
    if err is None:
        fail(f"encode accepted the dict and produced {short(bytes(s))}")
    if err.field != want.field:
        fail(f"the error names field {err.field!r}, the first part that cannot be encoded is {want.field!r} ({want.kind}); {err}")
    if want.kind == "keys":
        text = keys_text({k: v for k, v in before.items() if k not in ("1", "65")})
        texts = None if text is None else {text}
    elif want.kind == "undefined":
        texts = None
        if err.msg.startswith(("Field data is", "Failed to", "Dictionary")):
            fail(f"the error about a field that is not defined reads {err.msg!r}")
    elif want.kind == "required":
        texts = {"Field data is required according to specifications" if want.field == "h" else "Field data is required"}
    else:
        texts = encode_reasons(before, spec, want.field)
        if isinstance(before.get(want.field), (bytes, bytearray)):
            raise Reject("bytes")
    if texts is not None and err.msg not in texts:
        fail(f"the reason given is {err.msg!r}, it would have to be {' or '.join(map(repr, sorted(texts)))}")
    src.nontrivial(repr(doc), repr(spec))


def one_defect_dict(src):
    refused_dict(src, 1)


def several_defects_dict(src):
    refused_dict(src, 2 + src.draw(2))


# --------------------------------------------------------------------------------------------------------------- decode


def decode_reason(want, spec):
    if want.kind == "extra":
        return "Extra data after last field"
    if want.kind == "undefined":
        return None
    key, fs = want.field, spec[want.field]
    start = max((p.dstart + len(p.data) for p in want.parts), default=0)
    in_length = key not in ("t", "p", "1") and fs["len_type"] > 0 and want.pos == start
    if want.kind == "short-len":
        return f"Field length is {want.sizes[0]} bytes wide, expecting {want.sizes[1]}"
    if want.sizes is not None:
        return size_text(want.sizes, want.kind == "size")
    return ("Failed to decode field length, " if in_length else "Failed to decode field, ") + {
        "bcd": "invalid BCD data",
        "digits": "non-numeric data",
        "nonhex": "non-hex data",
        "codec": "unknown encoding specified",
        "text": "invalid data",
    }[want.kind]


def refused_message(src, spec, wire):
    want = model.decode(wire, spec)
    if want.ok or want.unspecified:
        raise Reject("accepted or not specified")
    src.label("kind:" + want.kind)
    dec, enc, err = decode(as_input(src, wire), spec)
    if err is None:
        fail(f"decode accepted the message and returned {short(dec)}")
    if err.field != want.field or err.pos != want.pos:
        fail(f"the error names field {err.field!r} at {err.pos}, parsing failed in {want.field!r} at {want.pos} ({want.kind}); {err}")
    text = decode_reason(want, spec)
    if text is None:
        if err.msg.startswith(("Field data is", "Failed to", "Extra")):
            fail(f"the error about a field that is not defined reads {err.msg!r}")
    elif err.msg != text:
        fail(f"the reason given is {err.msg!r}, it would have to be {text!r}")
    src.nontrivial(want.field, want.pos, wire)


def one_defect_message(src):
    spec, doc, res, name, spec2, bad = faults.broken_wire(src, budget=200)
    note_case(src, spec2, doc, bad)
    src.label("fault:" + name)
    refused_message(src, spec2, bad)


def changed_message(src):
    spec, doc, res = gens.wire(src, most=4, dense=False, budget=60)
    wire = mutate.message(src, spec, res)
    note_case(src, spec, doc, wire)
    refused_message(src, spec, wire)


TESTS = [
    RandomTest("one-defect-dict", one_defect_dict, 24000),
    RandomTest("several-defects-dict", several_defects_dict, 12000),
    RandomTest("one-defect-message", one_defect_message, 24000),
    RandomTest("changed-message", changed_message, 16000),
]
