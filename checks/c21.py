from checks.common import *
from pbt.engine import EnumTest, RandomTest

RULE = (
    HEADLINE
    + "; one field is added, removed, changed, or spliced out of the bytes, and all other parts compared; every pair of fields is given the same bytes. "
    "Non-trivial: another part than header, type and bitmaps exists besides the changed one; counted per distinct pair of messages"
)
ASSUMPTIONS = ()


def parts_of(wire, enc):
    """Bytes of each part, taken from the message by position."""
    out, at = {}, 0
    for k in wire_order(enc):
        n = len(enc[k]["len"]) + len(enc[k]["data"])
        out[k] = bytes(wire[at : at + n])
        at += n
    if at != len(wire):
        fail(f"the encoded dictionary covers {at} of {len(wire)} bytes")
    return out


def relation(src):
    spec, doc = gens.spec_and_doc(src, budget=150)
    keys = [k for k in doc if k.isdigit()]
    kind = src.draw(3)
    other = dict(doc)
    if kind == 0:
        free = [n for n in gens.ALL_FIELDS if str(n) not in doc]
        if not free:
            raise Reject("full")
        key = str(src.pick(free))
        if key not in spec:
            spec[key] = gens.field(src, big=60)
        other[key] = gens.value(src, spec[key], 60)
        src.label("added")
    elif not keys:
        raise Reject("no field")
    elif kind == 1:
        key = src.pick(keys)
        del other[key]
        src.label("removed")
    else:
        key = src.pick(keys + ["t"] + (["h"] if "h" in doc else []))
        other[key] = gens.mti(src, spec) if key == "t" else gens.value(src, spec[key], 150)
        src.label("changed")
    note_case(src, spec, doc, changed_field=key, new_value=other.get(key))
    s1, enc1 = must_encode(gens.litter(src, doc, spec), spec)
    s2, enc2 = must_encode(gens.litter(src, other, spec), spec)
    p1, p2 = parts_of(s1, enc1), parts_of(s2, enc2)
    for k in set(p1) | set(p2):
        if k in ("p", "1", key):
            continue
        if p1.get(k) != p2.get(k):
            fail(f"changing {key!r} changed part {k!r} from {short(p1.get(k))} to {short(p2.get(k))}")
    # bitmaps: only this field's bit, and the bits that announce the next bitmap
    if (key in doc) == (key in other):
        if p1["p"] != p2["p"] or p1.get("1") != p2.get("1"):
            fail(f"changing the value of {key!r} changed a bitmap")
    d1, _ = must_decode(as_input(src, s1), spec)
    d2, _ = must_decode(as_input(src, s2), spec)
    b1, b2 = bitmap_bits(d1), bitmap_bits(d2)
    if (b1 ^ b2) - {1, 65} != ({int(key)} if (key in doc) != (key in other) else set()):
        fail(f"the bits {sorted(b1 ^ b2)} changed with field {key!r}")
    for k in set(d1) | set(d2):
        if k not in ("p", "1", key) and d1.get(k) != d2.get(k):
            fail(f"changing {key!r} changed the decoded value of {k!r} from {short(d1.get(k))} to {short(d2.get(k))}")
    if len(keys) > 1:
        src.nontrivial(bytes(s1), bytes(s2))


def bitmap_bits(dec):
    one = dec.get("1", "")
    return bits_of(dec["p"], 0) | bits_of(one[:16], 64) | bits_of(one[16:], 128)


def splice(src):
    """Cuts one field out of the bytes and clears its bit."""
    spec, doc, res = gens.wire(src, budget=150)
    cands = [p for p in res.parts if p.key.isdigit() and p.key != "1"]
    if not cands:
        raise Reject("no field")
    gone = src.pick(cands)
    base, _ = must_decode(as_input(src, res.wire), spec)
    n = int(gone.key)
    out = b""
    for p in res.parts:
        if p.key == gone.key:
            continue
        data = p.len + p.data
        if p.key in ("p", "1"):
            digits = p.value
            i = n - 1 if p.key == "p" else n - 65
            if 0 <= i < 4 * len(digits) and (p.key == "1" or n <= 64):
                v = int(digits[i // 4], 16) & ~(8 >> i % 4)
                digits = digits[: i // 4] + f"{v:X}" + digits[i // 4 + 1 :]
                data = bytes.fromhex(digits) if model.is_bin(spec[p.key]) else digits.encode(spec[p.key]["data_enc"])
        out += data
    note_case(src, spec, doc, res.wire, spliced=out.hex(), field=gone.key)
    dec, _ = must_decode(as_input(src, out), spec, f"decode after cutting out field {gone.key}")
    for k in ("p", "1"):
        base.pop(k, None)
        dec.pop(k, None)
    del base[gone.key]
    expect(dec, base, f"content after cutting out field {gone.key}")
    if len(cands) > 1:
        src.nontrivial(res.wire, gone.key)


PAIRS = [(a, b) for i, a in enumerate(gens.ALL_FIELDS) for b in gens.ALL_FIELDS[i + 1 :]]


def pair(src):
    """Two fields with the same bytes, under different encodings: each as if the other were not there."""
    a, b = PAIRS[src.draw(len(PAIRS))]
    encs = src.shuffle(["b", "ascii", "cp500", "latin-1", "cp037"])[:2]
    wide = src.draw(3)
    data = bytes([src.pick(b"0159AF") for _ in range(1 + wide)])
    spec = dict(gens.PLAIN_HEAD)
    doc = {"t": "0200"}
    for k, enc in zip((str(a), str(b)), encs):
        spec[k] = {"data_enc": enc, "len_enc": src.pick(("b", "bcd", "ascii")), "len_type": src.draw(2), "max_len": len(data)}
        doc[k] = data.hex().upper() if enc == "b" else data.decode(enc)
    note_case(src, spec, doc)
    alone = {}
    for k in (str(a), str(b)):
        s, enc = must_encode({"t": "0200", k: doc[k]}, spec)
        dec, _ = must_decode(as_input(src, s), spec)
        if dec.get(k) != doc[k]:
            fail(f"alone, field {k} decodes to {dec.get(k)!r} instead of {doc[k]!r}")
        alone[k] = enc.get(k)
    s, enc = must_encode(dict(doc), spec)
    dec, enc2 = must_decode(as_input(src, s), spec)
    for k in (str(a), str(b)):
        expect(enc.get(k), alone[k], f"encoded field {k} next to the other")
        expect(enc2.get(k), alone[k], f"encoded field {k} after decoding")
        expect(dec.get(k), doc[k], f"decoded field {k} next to the other")
    src.nontrivial(a, b)


TESTS = [EnumTest("same-bytes-in-every-pair", pair, len(PAIRS)), RandomTest("relation", relation, 24000), RandomTest("splice", splice, 18000)]
