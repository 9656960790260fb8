from checks.common import *
from pbt import faults
from pbt.engine import EnumTest, RandomTest

RULE = (
    "for text indicators of 1-4 digits, BCD of 1-2 bytes and binary of 1-2 bytes every representable length is encoded and decoded, plus the first lengths "
    "beyond the capacity; wider indicators and other units are sampled. Non-trivial: every case; counted per distinct (indicator, unit, length)"
)
ASSUMPTIONS = ("length encodings write one byte per digit",)

SPACES = (("text", 1), ("text", 2), ("text", 3), ("text", 4), ("bcd", 1), ("bcd", 2), ("b", 1), ("b", 2))
TEXTS = ("ascii", "cp500", "latin-1", "utf-8", "cp037")


def indicator(kind, width, n):
    """n in the given notation, most significant digit first."""
    if kind == "b":
        return bytes([n // 256 ** (width - 1 - i) % 256 for i in range(width)])
    if kind == "bcd":
        d = [n // 10 ** (2 * width - 1 - i) % 10 for i in range(2 * width)]
        return bytes([d[i] << 4 | d[i + 1] for i in range(0, 2 * width, 2)])
    base = {"cp500": 0xF0, "cp037": 0xF0}.get(kind, 0x30)
    return bytes([base + n // 10 ** (width - 1 - i) % 10 for i in range(width)])


def capacity(kind, width):
    return 256**width - 1 if kind == "b" else 100**width - 1 if kind == "bcd" else 10**width - 1


def length_case(src, kind, width, n, header=False):
    if kind == "text":
        kind = src.pick(TEXTS)
    cap = capacity(kind, width)
    unit = src.pick(("bytes", "nibbles", None))
    binary = src.chance(1, 2)
    fs = {"data_enc": "b" if binary else src.pick(("ascii", "cp500", "latin-1")), "len_enc": kind, "len_type": width, "desc": "x"}
    if unit:
        fs["len_count"] = unit
    if unit == "nibbles":
        if binary:
            fs[src.pick(("left_pad", "right_pad"))] = src.pick(("0", "F", "f"))
        else:
            n -= n % 2
    fs["max_len"] = src.pick((cap, n, cap + 1000, max(cap, n) + 1))
    if header and fs["max_len"] == 0:
        fs["max_len"] = 1
    if unit == "nibbles":
        nbytes = (n + 1) // 2
        v = (src.pick(("A5C3", "12", "FF", "00"))) * (n // 2 + 1) if binary else "ab 1" * (nbytes // 4 + 1)
        v = v[: n if binary else nbytes]
    else:
        nbytes = n
        v = src.pick(("A5", "00", "FF", "1F")) * n if binary else ("ab 1" * (n // 4 + 1))[:n]
    if binary:
        digits = v
        if n % 2 and unit == "nibbles":
            pad = fs.get("left_pad")
            digits = pad + v if pad else v + fs["right_pad"]
        data = bytes.fromhex(digits)
    else:
        data = v.encode(fs["data_enc"])
    key = "h" if header else str(gens.field_number(src))
    spec = dict(gens.PLAIN_HEAD, **{key: fs})
    doc = {key: v, "t": "0200"}
    src.note(field=fs, key=key, length=n)
    src.label(f"{kind if kind in ('b', 'bcd') else 'text'} {width}")
    what = f"{kind} indicator of {width} bytes, length {n} {unit or 'bytes'}"
    if n > fs["max_len"]:
        raise Reject("beyond the maximum")
    if n > cap:
        s, enc, err = encode(doc, spec)
        if err is None:
            fail(f"{what}: encode accepted it and wrote {short(enc[key]['len'])}")
        src.label("beyond capacity")
    else:
        want = indicator(kind, width, n)
        s, enc = must_encode(doc, spec, what)
        if enc[key] != {"len": want, "data": data}:
            fail(f"{what}: encoded as {short(enc[key])}, expected indicator {want!r}")
        body = want + data
        at = 0 if header else len(s) - len(body)
        if bytes(s[at : at + len(body)]) != body:
            fail(f"{what}: the message holds {short(bytes(s[at:]))} instead of {short(body)}")
        wire = bytes(s[:at]) + body + (bytes(s[at + len(body) :]))
        dec, enc2 = must_decode(as_input(src, wire), spec, what)
        if enc2[key] != {"len": want, "data": data} or dec[key] != (v.upper() if binary else v):
            fail(f"{what}: decoded as {short(dec[key])} {short(enc2[key])}")
        if n == 0 and dec[key] != "":
            fail(f"{what}: decoded as {dec[key]!r} instead of an empty value")
    src.nontrivial(kind, width, unit, binary, n)


def enumerated(kind, width):
    def fn(src):
        n = src.draw(capacity("b" if kind == "b" else "bcd" if kind == "bcd" else "ascii", width) + 3)
        length_case(src, kind, width, n)

    return fn


def sampled(src):
    kind = src.pick(("text", "bcd", "b"))
    width = 1 + src.draw(12 if kind == "text" else 6) if src.chance(4, 5) else 1 + src.draw(40)
    cap = capacity("ascii" if kind == "text" else kind, width)
    top = min(cap + 3, 140000 if src.chance(1, 12) else 3000)
    n = gens.length(src, 0, top)
    if src.chance(1, 5):
        n = min(cap + 1 + src.draw(40), 140000)
    length_case(src, kind, width, n, header=n > 0 and src.chance(1, 6))


def any_codec(src):
    """Indicators in any text encoding that writes one byte per digit, read back from hand-made messages."""
    codec = src.pick(ALL_DIGIT_CODECS)
    width = 1 + src.draw(4)
    n = gens.length(src, 0, min(10**width - 1, 1500))
    want = b"".join(d.encode(codec) for d in str(n).zfill(width))
    fs = {"data_enc": "b", "len_enc": codec, "len_type": width, "max_len": src.pick((n, 10**width)), "desc": ""}
    spec = dict(gens.PLAIN_HEAD, **{"2": fs})
    v = "5A" * n
    src.note(field=fs, length=n)
    s, enc = must_encode({"t": "0200", "2": v}, spec)
    if enc["2"]["len"] != want:
        fail(f"length {n} is written as {enc['2']['len']!r} in {codec}, expected {want!r}")
    dec, enc = must_decode(b"0200" + b"\x40" + bytes(7) + want + b"\x5a" * n, spec)
    if dec["2"] != v or enc["2"] != {"len": want, "data": b"\x5a" * n}:
        fail(f"length {n} in {codec} decoded as {short(dec['2'])}")
    src.nontrivial(codec, width, n)


def _digit_codecs():
    import codecs
    import encodings.aliases

    out = []
    for name in sorted(set(encodings.aliases.aliases.values())):
        try:
            if not codecs.lookup(name)._is_text_encoding:
                continue
            one = [d.encode(name) for d in "0123456789"]
            if all(len(b) == 1 for b in one) and "0123456789".encode(name) == b"".join(one) and b"".join(one).decode(name) == "0123456789":
                if "".encode(name) == b"":
                    out.append(name)
        except Exception:
            pass
    return tuple(out)


ALL_DIGIT_CODECS = _digit_codecs()

TESTS = [
    EnumTest(f"every-length-{k}-{w}", enumerated(k, w), capacity("b" if k == "b" else "bcd" if k == "bcd" else "ascii", w) + 3, 8 if (k, w) == ("b", 2) else 1)
    for k, w in SPACES
] + [RandomTest("sampled", sampled, 16000), RandomTest("any-codec", any_codec, 8000)]
