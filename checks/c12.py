from checks.common import *
from checks.c08 import check_accounts
from pbt.engine import EnumTest, RandomTest

RULE = (
    "sets of fields 2-192 except 65 (every set of one or two fields, and random ones) are encoded with one-byte or empty fields and the bitmaps compared "
    "bit by bit; random bit patterns of 64, 128 or 192 bits are decoded. Non-trivial: at least one bit set; counted per distinct set"
)
ASSUMPTIONS = ()
PLAIN = {"data_enc": "b", "len_enc": "b", "len_type": 0, "max_len": 1}
EMPTY = {"data_enc": "ascii", "len_enc": "b", "len_type": 1, "max_len": 3}


def make_spec(src, header=True):
    spec = {
        "h": {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0},
        "t": {"data_enc": src.pick(("ascii", "b", "cp500")), "len_enc": "ascii", "len_type": 0, "max_len": 4},
        "p": {"data_enc": src.pick(("b", "ascii", "cp500")), "len_enc": "ascii", "len_type": 0, "max_len": 8},
        "1": {"data_enc": src.pick(("b", "ascii", "cp500")), "len_enc": "ascii", "len_type": 0, "max_len": 8},
    }
    fs = src.pick((PLAIN, EMPTY))
    for n in gens.ALL_FIELDS:
        spec[str(n)] = fs
    if src.chance(1, 2):
        spec["65"] = fs
    return spec, fs


def to_hex(nums, base, count):
    out = ""
    for b in range(base + 1, base + count + 1, 4):
        out += "0123456789ABCDEF"[8 * (b in nums) + 4 * (b + 1 in nums) + 2 * (b + 2 in nums) + (b + 3 in nums)]
    return out


STALE = ("", "0000000000000000", "FFFFFFFFFFFFFFFF", "8000000000000000", "FFFFFFFFFFFFFFFF" * 2, "junk", "C000000000000001", "8000000000000000" * 2)


def _nearly(src, nums, key):
    """The right bitmap, but written otherwise, or with a bit too many."""
    p, one = model.layout(nums)
    v = p if key == "p" else one or "0" * 16
    k = src.draw(5)
    if k == 0:
        return v
    if k == 1:
        return v.lower()
    if k == 2:
        return "".join([c.lower() if src.chance(1, 2) else c for c in v])
    i = src.draw(len(v))
    return v[:i] + src.pick("018F") + v[i + 1 :] if k == 3 else v + "0" * 16


def encoded(src, nums):
    spec, fs = make_spec(src)
    doc = {"t": "0200"}
    for n in nums:
        doc[str(n)] = "" if fs is EMPTY else "5A"
    if src.chance(1, 2):
        for k in ("p", "1", "65"):
            if src.chance(1, 2):
                doc[k] = src.pick(STALE) if src.chance(2, 3) else _nearly(src, nums, k)
        doc = dict(src.shuffle(list(doc.items()))) if len(doc) < 12 else doc
    src.note(fields=nums, stale={k: doc[k] for k in ("p", "1", "65") if k in doc}, p=spec["p"], one=spec["1"])
    s, enc = must_encode(doc, spec)
    bits = set(nums)
    ext = any(n > 128 for n in nums)
    sec = ext or any(n > 64 for n in nums)
    if ext:
        bits.add(65)
    if sec:
        bits.add(1)
    p = to_hex(bits, 0, 64)
    one = to_hex(bits, 64, 128 if ext else 64) if sec else None
    if doc.get("p") != p or doc.get("1") != one:
        fail(f"bitmaps set in the dict are p={doc.get('p')!r} 1={doc.get('1')!r}, expected {p!r} and {one!r} for fields {nums}")
    if "65" in doc:
        fail("'65' was left in the dict")
    for key, digits in (("p", p), ("1", one)):
        if digits is None:
            if key in enc:
                fail(f"bitmap {key!r} was encoded for fields {nums}")
            continue
        data = bytes.fromhex(digits) if spec[key]["data_enc"] == "b" else digits.encode(spec[key]["data_enc"])
        expect(enc.get(key), {"len": b"", "data": data}, f"encoded bitmap {key!r} for fields {nums}")
    want = b"".join(enc[k]["len"] + enc[k]["data"] for k in ("t", "p", "1") if k in enc) + (b"\x00" if fs is EMPTY else b"\x5a") * len(nums)
    if bytes(s) != want:
        fail(f"the message is {short(bytes(s))}, expected {short(want)}")
    dec, _ = must_decode(as_input(src, s), spec)
    if {k for k in dec if k not in ("t", "p", "1")} != {str(n) for n in nums}:
        fail(f"decoding gives fields {sorted(dec)} instead of {nums}")
    if nums:
        src.nontrivial("enc", tuple(nums))


def any_set(src):
    encoded(src, gens.field_set(src, 12))


PAIRS = [(a,) for a in gens.ALL_FIELDS] + [(a, b) for i, a in enumerate(gens.ALL_FIELDS) for b in gens.ALL_FIELDS[i + 1 :]]


def one_or_two(src):
    encoded(src, list(PAIRS[src.draw(len(PAIRS))]))


def any_bits(src):
    spec, fs = make_spec(src)
    k = src.draw(6)
    if k == 0:
        v = src.draw(1 << 24) << 168 | src.draw(1 << 24) << 104 | src.draw(1 << 24) << 40
    elif k == 1:
        v = 0
        for _ in range(32):
            v = v << 6 | src.draw(64)
    else:
        v = 0
        for _ in range(src.draw(8)):
            v |= 1 << (192 - src.pick((1, 65, gens.field_number(src), 2, 64, 66, 128, 129, 192)))
    # all 192 announced bits; those of a bitmap that is not announced are not sent
    bits = [n for n in range(1, 193) if v >> (192 - n) & 1]
    if src.chance(1, 2) and 1 not in bits:
        bits.insert(0, 1)
    if 1 not in bits:
        bits = [n for n in bits if n <= 64]
    elif 65 not in bits:
        bits = [n for n in bits if n <= 128]
    nums = [n for n in bits if n not in (1, 65)]
    p = to_hex(set(bits), 0, 64)
    one = (to_hex(set(bits), 64, 64) + (to_hex(set(bits), 128, 64) if 65 in bits else "")) if 1 in bits else None
    recase = gens.recaser(src) or (lambda x: x)
    src.note(bits=bits, p=spec["p"], one=spec["1"])
    want = {"t": "0200"}
    wire = bytes.fromhex("0200") if spec["t"]["data_enc"] == "b" else "0200".encode(spec["t"]["data_enc"])
    enc_want = {"t": {"len": b"", "data": wire}}
    for key, digits in (("p", p), ("1", one)):
        if digits is None:
            continue
        if spec[key]["data_enc"] != "b":
            digits = recase(digits)
            data = digits.encode(spec[key]["data_enc"])
        else:
            data = bytes.fromhex(digits)
        want[key] = digits
        enc_want[key] = {"len": b"", "data": data}
        wire += data
    for i, n in enumerate(nums):
        if fs is EMPTY:
            want[str(n)] = "abc"[: n % 4]
            enc_want[str(n)] = {"len": bytes([n % 4 if n % 4 < 4 else 3]), "data": want[str(n)].encode()}
        else:
            want[str(n)] = f"{n:02X}"
            enc_want[str(n)] = {"len": b"", "data": bytes([n])}
        wire += enc_want[str(n)]["len"] + enc_want[str(n)]["data"]
    dec, enc = must_decode(as_input(src, wire), spec)
    expect(dec, want, f"decoded dictionary for bits {bits}")
    expect(enc, enc_want, f"encoded dictionary for bits {bits}")
    if bits:
        src.nontrivial("dec", tuple(bits))


TESTS = [
    EnumTest("every-one-or-two", one_or_two, len(PAIRS), quick_stride=2),
    RandomTest("any-set", any_set, 20000),
    RandomTest("any-bits", any_bits, 24000),
]
