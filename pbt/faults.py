"""Single defects: malformed messages made from well-formed ones, and dicts that cannot be encoded."""

import copy

from pbt import gens, model
from pbt.engine import Reject

# ------------------------------------------------------------------------------------------------------------ messages


def _variable(spec, res):
    return [p for p in res.parts if p.key not in ("t", "p", "1") and spec[p.key]["len_type"] > 0]


def _put(wire, pos, new, old_len):
    return wire[:pos] + new + wire[pos + old_len :]


def truncate(src, spec, doc, res):
    if not res.wire:
        raise Reject("empty")
    k = src.draw(4)
    if k == 0:
        cut = len(res.wire) - 1
    elif k == 1:
        p = src.pick(res.parts)
        cut = src.pick((p.start, p.dstart, max(0, p.dstart + len(p.data) - 1)))
    elif k == 2:
        p = src.pick(res.parts)
        n = len(p.len) + len(p.data)
        cut = p.start + (src.draw(n) if n else 0)
    else:
        cut = src.draw(len(res.wire))
    if cut >= len(res.wire):
        cut = len(res.wire) - 1
    return spec, res.wire[:cut]


def surplus(src, spec, doc, res):
    k = src.draw(5)
    if k == 0:
        extra = src.pick((b"\x00", b" ", b"\n", b"\r", b"\x03", b"0", b"\x1a", b"\r\n", b"\x00" * 8, b"\xff", b"\x40"))
    elif k == 1:
        extra = src.pick((b"\x00", b" ", b"\n", b"0")) * (1 + src.draw(300))
    elif k == 2:
        extra = res.wire[: 1 + src.draw(max(1, len(res.wire)))] or b"0"
    else:
        extra = bytes([src.draw(256) for _ in range(1 + src.draw(6))])
    return spec, res.wire + extra


NON_DIGITS = b"+- _.,eExXaAfF:/\x00\n\t\x0b\x0c\r\x1c\x1f\x85\xa0\xb2\xb3\xb9\xff\x40\xfa\xef\x7f\x80"


OTHER_DIGITS = ("cp1006", "cp864", "mac_arabic", "mac_farsi", "iso8859_11", "cp874", "tis_620")


def indicator_garbage(src, spec, doc, res):
    c = [p for p in _variable(spec, res) if spec[p.key]["len_enc"] != "b"]
    if not c:
        raise Reject("no such part")
    p = src.pick(c)
    fs = spec[p.key]
    if fs["len_enc"] not in ("b", "bcd") and p.len.isdigit() and src.chance(1, 6):
        # the same number with one digit of another script, in an encoding that has such digits
        name = src.pick(OTHER_DIGITS)
        chars = list(p.len.decode("ascii"))
        i = src.draw(len(chars))
        for first in (0x660, 0x6F0, 0xE50):
            try:
                ch = (chr(first + int(chars[i])) if src.chance(1, 2) else chr(first + src.draw(10))).encode(name)
            except UnicodeError:
                continue
            if len(ch) == 1:
                new = p.len[:i] + ch + p.len[i + 1 :]
                return dict(spec, **{p.key: dict(fs, len_enc=name)}), _put(res.wire, p.start, new, len(p.len))
    b = bytearray(p.len)
    i = src.draw(len(b))
    if fs["len_enc"] == "bcd":
        bad = 10 + src.draw(6)
        b[i] = b[i] & 0x0F | bad << 4 if src.chance(1, 2) else b[i] & 0xF0 | bad
    else:
        digits = {d.encode(fs["len_enc"])[0] for d in "0123456789"}
        k = src.draw(3)
        if k == 0:
            cands = [x for ch in "+- _.xeE\n\t" for x in ch.encode(fs["len_enc"])]
        elif k == 1:
            cands = list(NON_DIGITS)
        else:
            cands = list(range(256))
        cands = [x for x in cands if x not in digits]
        new = src.pick(cands)
        if src.chance(1, 6):
            b = bytearray([new] * len(b))
        else:
            b[i] = new
        if src.chance(1, 5) and len(b) > 1:
            # spaces around digits, or a sign in front of them
            sp = src.pick(" +-_\t").encode(fs["len_enc"])
            d = b"".join(ch.encode(fs["len_enc"]) for ch in str(src.draw(10 ** (len(b) - 1))).zfill(len(b) - 1))
            b = bytearray(sp + d) if src.chance(1, 2) else bytearray(d + sp)
            if sp in (b"_",) and len(b) > 2 and src.chance(1, 2):
                b = bytearray(d[:1] + sp + d[1:])
        elif src.chance(1, 4):
            # digits of other scripts
            try:
                ch = src.pick("٣３๓۳²٠").encode(fs["len_enc"])
            except UnicodeError:
                ch = b""
            if ch and len(ch) <= len(b):
                rest = "".join([src.pick("0000123") for _ in range(len(b) - len(ch))]).encode(fs["len_enc"])
                at = src.draw(len(rest) + 1)
                b = bytearray(rest[:at] + ch + rest[at:])
    return spec, _put(res.wire, p.start, bytes(b), len(p.len))


def indicator_too_big(src, spec, doc, res):
    c = [p for p in _variable(spec, res) if model.capacity(spec[p.key]) > spec[p.key]["max_len"]]
    if not c:
        raise Reject("no such part")
    p = src.pick(c)
    fs = spec[p.key]
    lo, hi = fs["max_len"] + 1, model.capacity(fs)
    k = src.draw(4)
    n = lo if k <= 1 else hi if k == 2 else lo + src.draw(hi - lo + 1)
    wire = _put(res.wire, p.start, model.len_bytes(n, fs), len(p.len))
    if src.chance(1, 2):
        # complete otherwise: as much data as announced
        nb = (n + 1) // 2 if model.unit(fs) == "nibbles" else n
        if nb < 70000:
            more = nb - len(p.data)
            fill = p.data[-1:] or (b"\x11" if model.is_bin(fs) else "1".encode(fs["data_enc"]))
            at = p.dstart + len(p.data)
            wire = wire[:at] + (fill * max(0, more))[: max(0, more)] + wire[at:]
    return spec, wire


BAD_HEX = " \t\n\r\x0b\x0cGgxX+-_.:/@`Oolz\x00\x1c\x85\xa0²٣"


def bitmap_garbage(src, spec, doc, res):
    c = [p for p in res.parts if p.key in ("p", "1") and not model.is_bin(spec[p.key])]
    if not c:
        raise Reject("no such part")
    p = src.pick(c)
    fs = spec[p.key]
    out = bytearray(p.data)
    for _ in range(src.weighted(((5, 1), (2, 2), (1, 4), (1, 16)))):
        i = src.draw(len(out))
        try:
            b = src.pick(BAD_HEX).encode(fs["data_enc"])
        except UnicodeError:
            b = b"\xff" if src.chance(1, 2) else " ".encode(fs["data_enc"])
        if len(b) != 1:
            b = " ".encode(fs["data_enc"])
        out[i] = b[0]
    if src.chance(1, 5):
        # pairs of blanks leave an even number of hex digits
        i = src.draw(15)
        out[i : i + 2] = (src.pick((" ", "\t", "\n")) * 2).encode(fs["data_enc"])
    return spec, _put(res.wire, p.start, bytes(out), len(p.data))


BAD_BYTES = {
    "ascii": (0x80, 0xFF, 0xC3, 0xA0),
    "utf-8": (0x80, 0xFF, 0xC0, 0xF8, 0xED),
    "cp1252": (0x81, 0x8D, 0x8F, 0x90, 0x9D),
}


def text_garbage(src, spec, doc, res):
    c = [p for p in res.parts if p.key not in ("p", "1") and p.data and not model.is_bin(spec[p.key]) and spec[p.key]["data_enc"] in BAD_BYTES]
    if not c:
        raise Reject("no such part")
    p = src.pick(c)
    bad = src.pick(BAD_BYTES[spec[p.key]["data_enc"]])
    i = src.pick((0, len(p.data) - 1, src.draw(len(p.data))))
    return spec, _put(res.wire, p.dstart + i, bytes([bad]), 1)


def pad_garbage(src, spec, doc, res):
    c = []
    for p in res.parts:
        if p.key in ("t", "p", "1") or not model.is_bin(spec[p.key]) or model.unit(spec[p.key]) != "nibbles":
            continue
        if len(p.value) % 2:
            c.append(p)
    if not c:
        raise Reject("no such part")
    p = src.pick(c)
    fs = spec[p.key]
    k = src.draw(4)
    if k == 0:
        spec = dict(spec)
        spec[p.key] = {a: b for a, b in fs.items() if a not in ("left_pad", "right_pad")}
        if src.chance(1, 3):
            spec[p.key]["left_pad"] = spec[p.key]["right_pad"] = ""
        return spec, res.wire
    left, right = model.pads(fs)
    d = p.data.hex().upper()
    new = src.pick([h for h in "0123456789ABCDEF" if h not in (left.upper(), right.upper())])
    new2 = src.pick([h for h in "0123456789ABCDEF" if h not in (left.upper(), right.upper())])
    if left and right:
        d = new + d[1:-1] + new2
    elif left:
        d = new + d[1:]
        if k == 1:
            d = d[:-1] + left  # the pad stands on the wrong side
    else:
        d = d[:-1] + new
        if k == 1:
            d = right + d[1:]
    return spec, _put(res.wire, p.dstart, bytes.fromhex(d), len(p.data))


def undefined_field(src, spec, doc, res):
    k = src.draw(2)
    present = [p.key for p in res.parts if p.key.isdigit() and p.key != "1"]
    if k == 0 and present:
        key = src.pick(present)
        return {a: b for a, b in spec.items() if a != key}, res.wire
    free = [n for n in gens.ALL_FIELDS if str(n) not in spec and str(n) not in doc]
    if not free:
        raise Reject("no free field")
    n = src.pick(free)
    # announce a field that the specification does not know, without any data
    spec2 = dict(spec)
    spec2[str(n)] = {"data_enc": "b", "len_enc": "b", "len_type": 0, "max_len": 0}
    doc2 = dict(doc)
    doc2[str(n)] = ""
    r = model.encode(doc2, spec2)
    return spec, r.wire + (bytes([src.draw(256) for _ in range(src.draw(4))]))


UNKNOWN_CODECS = ("no-such-codec", "ebcdic", "rot13", "hex", "base64", "B", "", "asciii", "zlib", "cp50", "utf_9", "uu", "bz2", "BCD", "Bcd", "bcd ", " b", "b\n")


def unknown_codec(src, spec, doc, res):
    """A part of the message that needs a codec that does not exist or is not a text encoding."""
    name = src.pick(UNKNOWN_CODECS)
    k = src.draw(3)
    spec2 = dict(spec)
    if k == 0:
        c = [p for p in _variable(spec, res) if spec[p.key]["len_enc"] not in ("b", "bcd")]
        if not c:
            raise Reject("no such part")
        p = src.pick(c)
        spec2[p.key] = dict(spec[p.key], len_enc=name)
    else:
        c = [p for p in res.parts if p.data and not model.is_bin(spec[p.key])]
        if not c:
            raise Reject("no such part")
        p = src.pick(c)
        spec2[p.key] = dict(spec[p.key], data_enc=name)
    return spec2, res.wire


WIRE_FAULTS = (
    truncate,
    surplus,
    indicator_garbage,
    indicator_too_big,
    bitmap_garbage,
    text_garbage,
    pad_garbage,
    undefined_field,
    unknown_codec,
)


def broken_wire(src, tries=6, **kw):
    """(spec, doc, Result of the message, fault name, spec to decode with, malformed bytes)"""
    fault = src.pick(WIRE_FAULTS)
    for _ in range(tries):
        spec, doc, res = gens.wire(src, **kw)
        try:
            spec2, bad = fault(src, spec, doc, res)
        except Reject:
            continue
        return spec, doc, res, fault.__name__, spec2, bad
    raise Reject("no message to apply the fault to")


# ------------------------------------------------------------------------------------------------------------ documents


def _fields(spec, doc):
    return [k for k in doc if k in spec and isinstance(doc[k], str) and (k.isdigit() or k == "h" and model.has_header(spec))]


def miss_type(src, spec, doc):
    doc.pop("t")


def miss_header(src, spec, doc):
    if not model.has_header(spec):
        raise Reject("no header")
    doc.pop("h")


def type_width(src, spec, doc):
    v = doc["t"]
    k = src.draw(5)
    if k == 0:
        v = ""
    elif k == 1:
        v = v[:-2] if model.is_bin(spec["t"]) else v[:-1]
    elif k == 2:
        v = v + v[:2]
    elif k == 3:
        v = v * 2
    else:
        v = v[:2]
    doc["t"] = v
    if len(v.encode("utf-8")) == 4:
        raise Reject("right width")


def fixed_size(src, spec, doc):
    c = [k for k in _fields(spec, doc) if spec[k]["len_type"] == 0]
    if not c:
        raise Reject("no fixed field")
    key = src.pick(c)
    fs = spec[key]
    n = fs["max_len"]
    step = 1
    if model.unit(fs) == "nibbles" and (not model.is_bin(fs) or not any(model.pads(fs))):
        step = 2
    if not model.is_bin(fs) and fs["data_enc"].startswith("utf-16"):
        step *= 2
    k = src.draw(6)
    m = n + step if k == 0 else n - step if k == 1 else 0 if k == 2 else n * 2 if k == 3 else n + step * (1 + src.draw(40)) if k == 4 else n - step * (1 + src.draw(1 + n // step))
    if m < 0 or m == n:
        raise Reject("same size")
    doc[key] = gens.value_of(src, fs, m, True)
    if src.chance(1, 6) and m < n and not model.is_bin(fs):
        pass
    return key


def too_long(src, spec, doc):
    c = [k for k in _fields(spec, doc) if spec[k]["len_type"] > 0]
    if not c:
        raise Reject("no variable field")
    key = src.pick(c)
    fs = spec[key]
    lim = model.limit(fs)
    if lim > 70000:
        raise Reject("too large")
    if src.chance(1, 3):
        # a small maximum, so that more fields get here
        lim = fs["max_len"] = src.draw(max(1, min(lim, 30)))
    step = 1
    if model.unit(fs) == "nibbles" and (not model.is_bin(fs) or not any(model.pads(fs))):
        step = 2 - lim % 2
    k = src.draw(4)
    m = lim + step if k <= 1 else lim + step + 2 * src.draw(20) if k == 2 else (lim + step) * (1 + src.draw(3))
    if model.unit(fs) == "nibbles" and step == 1 and not (model.is_bin(fs) and any(model.pads(fs))) and m % 2:
        m += 1
    doc[key] = gens.value_of(src, fs, m, True)
    return key


def non_hex(src, spec, doc):
    c = [k for k in ["t"] + _fields(spec, doc) if model.is_bin(spec[k]) and doc[k]]
    if not c:
        raise Reject("no binary part")
    key = src.pick(c)
    v = doc[key]
    i = src.pick((0, len(v) - 1, src.draw(len(v))))
    doc[key] = v[:i] + src.pick(" GgxX+-_.\t\n\x00²０٣éZ:/@`") + v[i + 1 :]
    if src.chance(1, 6):
        doc[key] = "0x" + v[2:]
        if len(v) < 2:
            raise Reject("too short")
    return key


def odd_hex(src, spec, doc):
    c = [k for k in _fields(spec, doc) if model.is_bin(spec[k])]
    if not c:
        raise Reject("no binary part")
    key = src.pick(c)
    fs = spec[key]
    v = doc[key]
    if model.unit(fs) == "nibbles":
        fs.pop("left_pad", None)
        fs.pop("right_pad", None)
        if src.chance(1, 3):
            fs["left_pad"] = ""
        if src.chance(1, 3):
            fs["right_pad"] = ""
    else:
        k = src.draw(4)
        if k == 0:
            fs["left_pad"] = src.pick("0F")
        elif k == 1:
            fs["right_pad"] = src.pick("0F")
    if len(v) % 2 == 0:
        if v and src.chance(1, 2):
            v = v[:-1]
        else:
            v += "1"
    if fs["len_type"] == 0 and model.unit(fs) == "nibbles":
        fs["max_len"] = len(v)
    elif fs["len_type"] == 0:
        fs["max_len"] = (len(v) + src.draw(2)) // 2
    doc[key] = v
    return key


def bad_pad(src, spec, doc):
    c = [k for k in _fields(spec, doc) if model.is_bin(spec[k]) and model.unit(spec[k]) == "nibbles" and len(doc[k]) % 2]
    if not c:
        raise Reject("no odd part")
    key = src.pick(c)
    side = src.pick(("left_pad", "right_pad"))
    spec[key].pop("left_pad", None)
    spec[key].pop("right_pad", None)
    spec[key][side] = src.pick((" ", "G", "x", "-0", "²", "\x00", "é"))
    return key


def unrepresentable(src, spec, doc):
    c = [k for k in ["t"] + _fields(spec, doc) if not model.is_bin(spec[k]) and doc[k]]
    if not c:
        raise Reject("no text part")
    key = src.pick(c)
    v = doc[key]
    codec = spec[key]["data_enc"]
    bad = []
    for ch in "é€中😀\ud800\udfff\x80\xff٣²\u2028İ":
        try:
            ch.encode(codec)
        except UnicodeError:
            bad.append(ch)
    if not bad:
        raise Reject("codec knows everything")
    i = src.pick((0, len(v) - 1, src.draw(len(v))))
    doc[key] = v[:i] + src.pick(bad) + v[i + 1 :]
    return key


BAD_KEYS = (
    "0", "00", "193", "194", "200", "256", "999", "1000", "10000000000", "02", "002", "064", "0128", "01", "065", "٣", "२", "３", "１２", "²",
    "½", "Ⅷ", "一", "1²", "9" * 30, "257", "0193",
)  # fmt: skip


def bad_key(src, spec, doc):
    k = src.pick(BAD_KEYS) if src.chance(3, 4) else str(193 + src.draw(5000))
    v = src.pick(list(doc.values()))
    doc[k] = v
    if k not in spec and src.chance(1, 2):
        spec[k] = src.pick([x for kk, x in spec.items() if kk not in ("h", "t", "p", "1")] or [spec["t"]])
    if src.chance(1, 8):
        doc["9" * 5000] = v
    return k


def bad_key_type(src, spec, doc):
    k = src.pick((2, 3, 128, None, 2.0, b"2", (2,), True, frozenset(), 193, 0, b"t"))
    doc[k] = src.pick(list(doc.values()))
    return k


def undefined_key(src, spec, doc):
    c = [k for k in doc if k.isdigit()]
    if c and src.chance(1, 2):
        k = src.pick(c)
        spec.pop(k)
        return k
    free = [n for n in gens.ALL_FIELDS if str(n) not in spec]
    if not free:
        raise Reject("no free field")
    k = str(src.pick(free))
    doc[k] = src.pick(("", "1", "00", "ABCD"))
    return k


def bad_codec(src, spec, doc):
    name = src.pick(UNKNOWN_CODECS)
    c = [k for k in ["t"] + _fields(spec, doc) if not model.is_bin(spec[k])]
    c += [k for k in ("p",) if not model.is_bin(spec[k])]
    c2 = [k for k in _fields(spec, doc) if spec[k]["len_type"] and spec[k]["len_enc"] not in ("b", "bcd")]
    if c2 and src.chance(1, 3):
        k = src.pick(c2)
        spec[k] = dict(spec[k], len_enc=name)
        return k
    if not c:
        raise Reject("no text part")
    k = src.pick(c)
    spec[k] = dict(spec[k], data_enc=name)
    return k


NON_STR = (None, 0, 1234, 12.5, True, b"0200", bytearray(b"00"), ["0", "1"], ("12",), {"len": b"", "data": b"12"}, {}, object, 10**30)


def wrong_type(src, spec, doc):
    c = ["t"] + _fields(spec, doc)
    k = src.pick(c)
    v = src.pick(NON_STR)
    if isinstance(v, (bytes, bytearray)) and model.is_bin(spec[k]):
        v = None  # the documentation does not say whether hex digits may also be given as bytes
    doc[k] = copy.copy(v) if isinstance(v, (list, dict, bytearray)) else v
    return k


DOC_FAULTS = (
    miss_type,
    miss_header,
    type_width,
    fixed_size,
    too_long,
    non_hex,
    odd_hex,
    bad_pad,
    unrepresentable,
    bad_key,
    bad_key_type,
    undefined_key,
    bad_codec,
    wrong_type,
)


def own(spec):
    """A copy whose field entries may be edited."""
    return {k: dict(v) for k, v in spec.items()}


def broken_doc(src, tries=6, count=1, **kw):
    """(spec, doc, names of the faults): a dict that encode has to reject."""
    for _ in range(tries):
        spec, doc = gens.spec_and_doc(src, **kw)
        spec = own(spec)
        names = []
        for i in range(count):
            fault = src.pick(DOC_FAULTS)
            if fault is wrong_type and i < count - 1 or "bad_key_type" in names:
                continue
            try:
                fault(src, spec, doc)
                names.append(fault.__name__)
            except Reject:
                continue
            except (LookupError, UnicodeError):
                if not i:
                    raise
                continue  # does not combine with the fault before
        if not names:
            continue
        return spec, doc, names
    raise Reject("no dict to apply the fault to")
