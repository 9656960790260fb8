from checks import mutate
from checks.common import *
from pbt.engine import EnumTest, RandomTest

RULE = (
    "one part (field or header) of every kind gets values of every size from 0 to beyond its limit, on its own and in generated messages, through encode "
    "and through decode of hand-made messages; and sizes are re-measured on whatever encode and decode accept of generated and damaged messages. "
    "Non-trivial: the size is within 2 of a limit, or a damaged message was accepted; counted per distinct (part specification, size) or message"
)
ASSUMPTIONS = ()


def size_ok(fs, n):
    """The documented rule, for n units."""
    if fs["len_type"] == 0:
        return n == fs["max_len"]
    return n <= fs["max_len"] and n <= model.capacity(fs)


def sized(src, fs, n):
    """(value, data bytes) of exactly n units, or Reject."""
    nib = fs.get("len_count") == "nibbles"
    if model.is_bin(fs):
        digits = n if nib else 2 * n
        v = gens.hexstr(src, digits)
        full = v
        if digits % 2:
            left, right = model.pads(fs)
            if not left and not right:
                raise Reject("odd without pad")
            full = left + v if left else v + right
        return v, bytes.fromhex(full)
    if nib and n % 2:
        raise Reject("half a character")
    v = gens.text(src, fs["data_enc"], n // 2 if nib else n, True)
    if v is None:
        raise Reject("no text of this size")
    return v, v.encode(fs["data_enc"])


def indicator(fs, n):
    """Indicator bytes for n, or None if it does not fit."""
    if fs["len_type"] == 0:
        return b""
    if n > model.capacity(fs):
        return None
    return model.len_bytes(n, fs)


def surroundings(src, key, fs):
    """(spec, doc without the part, bytes before, bytes after): a message around the part."""
    if key == "h":
        spec, doc = gens.spec_and_doc(src, most=2, dense=False, budget=30)
        spec, doc = dict(spec, h=dict(fs, max_len=0)), dict(doc)
        doc.pop("h", None)
        body = model.encode(doc, spec).wire
        return dict(spec, h=fs), doc, b"", body
    spec, doc = gens.spec_and_doc(src, most=src.pick((0, 1, 2, 4)), dense=False, budget=30)
    spec, doc = dict(spec), dict(doc)
    spec[key] = {"data_enc": "b", "len_enc": "b", "len_type": 0, "max_len": 0}
    doc[key] = ""
    res = model.encode(doc, spec)
    at = next(p.start for p in res.parts if p.key == key)
    del doc[key]
    return dict(spec, **{key: fs}), doc, res.wire[:at], res.wire[at:]


def one(src, fs, key, n):
    v, data = sized(src, fs, n)
    unit = fs.get("len_count", "bytes")
    ok = size_ok(fs, n)
    if key == "h" and fs["max_len"] <= 0:
        raise Reject("header off")
    spec, rest, before, after = surroundings(src, key, fs)
    doc = {key: v, **rest} if src.chance(1, 2) else {**rest, key: v}
    src.note(field=fs, key=key, size=n, others=rest)
    what = f"{n} {unit} in {key!r} with {'fixed length' if not fs['len_type'] else 'maximum'} {fs['max_len']}"
    lenb = indicator(fs, n)
    s, enc, err = encode(gens.litter(src, doc, spec), spec)
    if ok:
        if err is not None:
            fail(f"{what}: encode refused it: {err}")
        if enc[key] != {"len": lenb, "data": data} or bytes(s) != before + lenb + data + after:
            fail(f"{what}: encoded as {short(enc[key])} in {short(bytes(s))}")
    elif err is None:
        fail(f"{what}: encode accepted it and wrote {short(enc[key])}")
    elif err.field != key:
        fail(f"{what}: encode reports field {err.field}: {err}")
    if lenb is not None:
        dec, enc, err = decode(as_input(src, before + lenb + data + after), spec)
        if ok:
            if err is not None:
                fail(f"{what}: decode refused it: {err}")
            if dec[key] != model.norm(v, fs) or enc[key] != {"len": lenb, "data": data}:
                fail(f"{what}: decoded as {short(dec[key])} {short(enc[key])}")
        elif fs["len_type"] or len(data) < bytes_of(fs, fs["max_len"]) and not after or not after and len(data) > bytes_of(fs, fs["max_len"]):
            if err is None:
                fail(f"{what}: decode accepted it as {short(dec[key])} {short(enc[key])}")
            if fs["len_type"] and err.field != key:
                fail(f"{what}: decode reports field {err.field}: {err}")
        elif err is None and key in enc and len(enc[key]["data"]) != bytes_of(fs, fs["max_len"]):
            fail(f"{what}: decode accepted {short(enc[key])}")
    if abs(n - fs["max_len"]) <= 2 or fs["len_type"] and abs(n - model.capacity(fs)) <= 2:
        src.nontrivial(sorted(map(repr, fs.items())), n)
    src.label(("fixed " if not fs["len_type"] else "variable ") + unit + (" accepted" if ok else " refused"))


def bytes_of(fs, n):
    return (n + 1) // 2 if fs.get("len_count") == "nibbles" else n


KINDS = [
    (data, unit, pad, lenc, width)
    for data in ("b", "ascii", "cp500")
    for unit in (None, "bytes", "nibbles")
    for pad in ((None, "left_pad", "right_pad") if data == "b" and unit == "nibbles" else (None,))
    for lenc, width in (("ascii", 0), ("ascii", 1), ("ascii", 2), ("cp500", 3), ("bcd", 1), ("bcd", 2), ("b", 1), ("b", 2))
]
LIMITS = tuple(range(0, 21)) + (31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 150, 254, 255, 256, 257, 300, 999, 1000)
OFFSETS = (-2, -1, 0, 1, 2, "cap-1", "cap", "cap+1", "double", "empty", "one")
GRID = len(KINDS) * len(LIMITS) * len(OFFSETS)


def grid(src):
    """Every kind of field, limit, and size around the limit and the capacity of the indicator."""
    i = src.draw(GRID)
    i, off = divmod(i, len(OFFSETS))
    i, lim = divmod(i, len(LIMITS))
    data, unit, pad, lenc, width = KINDS[i]
    limit, off = LIMITS[lim], OFFSETS[off]
    fs = {"data_enc": data, "len_enc": lenc, "len_type": width, "max_len": limit, "desc": ""}
    if unit:
        fs["len_count"] = unit
    if pad:
        fs[pad] = src.pick(("0", "F", "d"))
    if isinstance(off, int):
        n = limit + off
    elif off == "double":
        n = 2 * limit
    elif off == "empty":
        n = 0
    elif off == "one":
        n = 1
    else:
        n = model.capacity(fs) + {"cap-1": -1, "cap": 0, "cap+1": 1}[off]
        if n > 70000 or not width:
            raise Reject("out of range")
    if n < 0:
        raise Reject("negative")
    key = "h" if src.chance(1, 8) else str(gens.field_number(src))
    one(src, fs, key, n)


def around(src):
    """Generated fields at sizes around their limits."""
    fs = gens.field(src, big=70000 if src.chance(1, 40) else 1200, multi=src.chance(1, 3))
    k = src.draw(8)
    if k <= 3:
        n = fs["max_len"] + src.range(-2, 2)
    elif k == 4 and fs["len_type"]:
        n = model.capacity(fs) + src.range(-1, 1)
    elif k == 5:
        n = 2 * fs["max_len"] + src.draw(2)
    elif k == 6:
        n = fs["max_len"] + 1 + src.draw(300)
    else:
        n = gens.length(src, 0, min(fs["max_len"], 70000))
    if not 0 <= n <= 140000:
        raise Reject("out of range")
    if fs.get("len_count") == "nibbles" and not model.is_bin(fs) and n % 2:
        n += 1
    key = "h" if src.chance(1, 8) else str(gens.field_number(src))
    one(src, fs, key, n)


def announced(src):
    """Indicators that announce more than the limit, or more or less than there is."""
    fs = gens.field(src, big=300, multi=False)
    if fs["len_type"] == 0:
        raise Reject("fixed")
    cap = model.capacity(fs)
    k = src.draw(3)
    n = min(cap, fs["max_len"] + 1 + src.draw(20)) if k == 0 else gens.length(src, 0, min(cap, 3000)) if k == 1 else cap
    have = max(0, min(4000, bytes_of(fs, n) + src.pick((0, 0, 0, -1, 1, -2, 5, -(10**6)))))
    key = "h" if src.chance(1, 8) and fs["max_len"] > 0 else str(gens.field_number(src))
    spec, rest, before, after = surroundings(src, key, fs)
    data = b"1" * have
    lenb = model.len_bytes(n, fs)
    wire = before + lenb + data + after
    src.note(field=fs, key=key, announced=n, present=have, after=after)
    want = model.decode(wire, spec)
    if want.unspecified:
        raise Reject("unspecified")
    dec, enc, err = decode(as_input(src, wire), spec)
    if n > fs["max_len"]:
        if err is None or err.field != key:
            fail(f"{n} units announced with maximum {fs['max_len']}: decode says {err or dec}")
    elif bytes_of(fs, n) > have + len(after):
        if err is None or err.field != key:
            fail(f"{n} units announced, {have + len(after)} bytes left: decode says {err or dec}")
    if (err is None) != want.ok:
        fail(f"{n} units announced, {have} bytes follow: decode says {err or dec}, expected {want.kind or 'success'} in {want.field}")
    if err is None:
        measure(dec, enc, spec, "decode")
    if n > fs["max_len"] or have != bytes_of(fs, n):
        src.nontrivial(wire, sorted(map(repr, fs.items())))


def measure(dec, enc, spec, what):
    """Sizes of everything accepted."""
    for k, part in enc.items():
        if k in ("t", "p", "1"):
            w = {"t": 2, "p": 8, "1": 8}[k] * (2 - model.is_bin(spec[k]))
            if len(part["data"]) not in ((w, 2 * w) if k == "1" else (w,)) or part["len"]:
                fail(f"{what}: part {k!r} is {part}")
            continue
        fs = spec[k]
        if len(part["len"]) != fs["len_type"]:
            fail(f"{what}: the length of {k!r} is {part['len']!r}, expected {fs['len_type']} bytes")
        n = fs["max_len"] if fs["len_type"] == 0 else model.decode_len(part["len"], fs)
        if n > fs["max_len"]:
            fail(f"{what}: {k!r} has size {n} over the limit of {fs['max_len']}")
        if len(part["data"]) != bytes_of(fs, n):
            fail(f"{what}: {k!r} has {len(part['data'])} bytes of data and length {part['len']!r} ({n})")
        if model.is_bin(fs):
            digits = n if fs.get("len_count") == "nibbles" else 2 * n
            if len(dec[k]) != digits:
                fail(f"{what}: {k!r} has {len(dec[k])} digits, expected {digits}")
        elif part["data"] and len(dec[k]) > len(part["data"]):
            fail(f"{what}: {k!r} has {len(dec[k])} characters in {len(part['data'])} bytes")


def accepted(src):
    """Damaged messages and oversized dicts: whatever is accepted has the right sizes."""
    spec, doc, res = gens.wire(src, budget=150, multi=False)
    if src.chance(1, 2):
        wire = mutate.message(src, spec, res, 3)
        note_case(src, spec, doc, wire)
        dec, enc, err = decode(as_input(src, wire), spec)
        if err is None:
            measure(dec, enc, spec, "decode")
            src.label("damaged message accepted")
            src.nontrivial(wire)
        return
    doc = dict(doc)
    keys = [k for k in doc if k.isdigit() or k == "h"]
    if not keys:
        raise Reject("no field")
    for _ in range(1 + src.draw(3)):
        k = src.pick(keys)
        v = doc[k]
        i = src.draw(len(v) + 1)
        j = src.draw(4)
        doc[k] = v[:i] + v[i + j :] if src.chance(1, 2) else v[:i] + (v[:j] or "0" * j) + v[i:]
    note_case(src, spec, doc)
    d = dict(doc)
    s, enc, err = encode(d, spec)
    if err is None:
        measure(d, {k: v for k, v in enc.items()}, spec, "encode")
        src.label("edited dict accepted")
        src.nontrivial(bytes(s))


TESTS = [
    EnumTest("grid", grid, GRID),
    RandomTest("around", around, 24000),
    RandomTest("announced", announced, 16000),
    RandomTest("accepted", accepted, 16000),
]
