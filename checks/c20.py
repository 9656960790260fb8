from checks.common import *
from pbt.engine import EnumTest, RandomTest

RULE = (
    "every combination of pad character (either case), pad configuration, first and last wire digit is decoded, with drawn length and digits; values of "
    "drawn length are encoded and decoded under every configuration. Non-trivial: the length is odd; counted per distinct (configuration, value)"
)
ASSUMPTIONS = (
    "if both pads are configured, left_pad is missing on the wire and right_pad matches, no outcome is prescribed",
)
HEXD = "0123456789ABCDEF"
PADCH = "0123456789ABCDEFabcdef"
CONFIGS = ("left", "right", "both", "none", "left-empty-right", "right-empty-left", "left-long", "right-long")


def configure(src, config, ch):
    other = src.pick(PADCH)
    rest = src.pick(("0", "FF", "x", " 1"))
    return {
        "left": {"left_pad": ch},
        "right": {"right_pad": ch},
        "both": {"left_pad": ch, "right_pad": other},
        "none": src.pick(({}, {"left_pad": ""}, {"right_pad": ""}, {"left_pad": "", "right_pad": ""})),
        "left-empty-right": {"left_pad": ch, "right_pad": ""},
        "right-empty-left": {"right_pad": ch, "left_pad": ""},
        "left-long": {"left_pad": ch + rest},
        "right-long": {"right_pad": ch + rest},
    }[config]


def make(src, pads, n):
    fixed = src.chance(1, 2)
    fs = {"data_enc": "b", "len_count": "nibbles", "len_enc": "ascii", "len_type": 0, "max_len": n, "desc": ""}
    fs.update(pads)
    lenb = b""
    if not fixed:
        fs["len_enc"] = src.pick(("ascii", "b", "bcd", "cp500"))
        fs["len_type"] = 2
        fs["max_len"] = n + src.draw(3)
        lenb = model.len_bytes(n, fs)
    if n and src.chance(1, 6):
        src.label("header")
        spec = dict(gens.PLAIN_HEAD, h=fs)
        rest = model.encode({"t": "0200"}, gens.PLAIN_HEAD)
        return "h", fs, spec, lenb, b"", b"".join(p.data for p in rest.parts)
    key = str(gens.field_number(src))
    spec = dict(gens.PLAIN_HEAD, **{key: fs})
    head = model.encode({"t": "0200", key: "0" * n}, dict(spec, **{key: {"data_enc": "b", "len_count": "nibbles", "len_enc": "b", "len_type": 0, "max_len": n, "left_pad": "0"}}))
    prefix = b"".join(p.data for p in head.parts[:-1])
    return key, fs, spec, lenb, prefix, b""


def decoded(src):
    k = src.draw(len(PADCH) * len(CONFIGS) * 256)
    k, last = divmod(k, 16)
    k, first = divmod(k, 16)
    config = CONFIGS[k % len(CONFIGS)]
    ch = PADCH[k // len(CONFIGS)]
    n = src.weighted(((3, 1), (3, 3), (2, 5), (1, 7 + 2 * src.draw(40))))
    pads = configure(src, config, ch)
    key, fs, spec, lenb, prefix, suffix = make(src, pads, n)
    middle = "".join([src.pick(HEXD) for _ in range(n - 1)]) if n <= 9 else gens.hexstr(src, n - 1).upper()
    digits = HEXD[first] + middle + HEXD[last]
    wire = prefix + lenb + bytes.fromhex(digits) + suffix
    src.note(field=fs, key=key, digits=digits, length=n)
    src.label(config)
    left, right = fs.get("left_pad", "")[:1].upper(), fs.get("right_pad", "")[:1].upper()
    if left and digits[0] == left:
        want = digits[1:]
    elif left and right and digits[-1] == right:
        raise Reject("unspecified")
    elif not left and right and digits[-1] == right:
        want = digits[:-1]
    else:
        want = None
    dec, enc, err = decode(as_input(src, wire), spec)
    if want is None:
        src.label("rejected")
        if err is None:
            fail(f"decode accepted {n} nibbles sent as {digits!r} with {pads}: {dec[key]!r}")
    else:
        src.label("unpadded")
        if err is not None:
            fail(f"decode rejected {n} nibbles sent as {digits!r} with {pads}: {err}")
        if dec[key] != want:
            fail(f"{n} nibbles sent as {digits!r} with {pads} decode to {dec[key]!r} instead of {want!r}")
        expect(enc[key], {"len": lenb, "data": bytes.fromhex(digits)}, "encoded dictionary")
    src.nontrivial(tuple(sorted(pads.items())), digits)


def encoded(src):
    config = src.pick(CONFIGS)
    ch = src.pick(PADCH)
    n = gens.length(src, 0, 99, 12)
    pads = configure(src, config, ch)
    key, fs, spec, lenb, prefix, suffix = make(src, pads, n)
    v = gens.hexstr(src, n)
    if n and src.chance(1, 3):
        # data that itself starts or ends with the pad
        v = ch + v[1:] if src.chance(1, 2) else v[:-1] + ch
    src.note(field=fs, key=key, value=v)
    src.label(config)
    left, right = fs.get("left_pad", "")[:1], fs.get("right_pad", "")[:1]
    s, enc, err = encode({"t": "0200", key: v}, spec)
    digits = v
    if n % 2:
        digits = left + v if left else v + right
        if not left and not right:
            if err is None:
                fail(f"encode accepted {v!r} without a pad: {enc[key]!r}")
            src.label("rejected")
            src.nontrivial(tuple(sorted(pads.items())), v)
            return
        src.label("odd")
    if err is not None:
        fail(f"encode rejected {v!r} with {pads}: {err}")
    want = {"len": lenb, "data": bytes.fromhex(digits)}
    expect(enc[key], want, f"{v!r} with {pads}")
    if bytes(s) != prefix + lenb + want["data"] + suffix:
        fail(f"the message is {bytes(s)!r}, expected {prefix + lenb + want['data'] + suffix!r}")
    dec, enc2 = must_decode(as_input(src, s), spec)
    if dec[key] != v.upper():
        fail(f"{v!r} with {pads} came back as {dec[key]!r}")
    if n % 2:
        src.nontrivial(tuple(sorted(pads.items())), v)


NOT_DIGITS = "GZgxX -_+.\0\n\t\"é٣０ſΑàß\u200b\U0001d7ce"


def no_digit(src):
    """A pad that is no hexadecimal digit pads nothing."""
    ch = src.pick(NOT_DIGITS)
    pads = src.pick(({"left_pad": ch}, {"right_pad": ch}, {"left_pad": ch, "right_pad": src.pick(NOT_DIGITS)}, {"left_pad": ch + "0F"}, {"right_pad": ch + "F0"}))
    n = 1 + 2 * src.draw(20)
    key, fs, spec, lenb, prefix, suffix = make(src, pads, n)
    v = gens.hexstr(src, n)
    src.note(field=fs, key=key, value=v)
    s, enc, err = encode({"t": "0200", key: v}, spec)
    if err is None:
        fail(f"encode accepted {v!r} with {pads}: {enc[key]!r}")
    if err.field != key:
        fail(f"the error is about {err.field!r}: {err}")
    digits = gens.hexstr(src, n + 1)
    dec, enc, err = decode(as_input(src, prefix + lenb + bytes.fromhex(digits) + suffix), spec)
    if err is None:
        fail(f"decode accepted {n} nibbles sent as {digits!r} with {pads}: {dec[key]!r}")
    if err.field != key:
        fail(f"the error is about {err.field!r}: {err}")
    src.nontrivial(tuple(sorted(pads.items())), v)


TESTS = [
    EnumTest("every-pad-and-digit", decoded, len(PADCH) * len(CONFIGS) * 256),
    RandomTest("encoded", encoded, 24000),
    RandomTest("no-digit", no_digit, 6000),
]
