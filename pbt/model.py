"""Reference model of the wire format, written from the documentation (README, howto, intro and the module docstrings),
without using any code of the package. It is the oracle of the differential checks."""

import codecs
from typing import NamedTuple

HEX = frozenset("0123456789abcdefABCDEF")


class Part(NamedTuple):
    key: str
    value: str  # decoded value
    len: bytes
    data: bytes
    start: int  # offset of the length indicator
    dstart: int  # offset of the data


class Result(NamedTuple):
    ok: bool
    wire: bytes  # encode only
    parts: list  # complete parts, in wire order
    field: str  # failing part
    pos: int  # decode only
    kind: str
    sizes: tuple  # (actual, expected, unit) of a size complaint
    unspecified: bool  # the documentation does not settle this input


class Bad(Exception):
    def __init__(self, kind, pos=0, sizes=None):
        self.kind, self.pos, self.sizes = kind, pos, sizes


class Unspecified(Exception):
    pass


def text_codec(name):
    """True if name is a text encoding known to Python"""
    try:
        return bool(codecs.lookup(name)._is_text_encoding)
    except Exception:
        return False


def unit(fs):
    return fs.get("len_count", "bytes")


def is_bin(fs):
    return fs["data_enc"] == "b"


def capacity(fs):
    """Largest number a length indicator can hold."""
    n = fs["len_type"]
    if fs["len_enc"] == "b":
        return 256**n - 1
    if fs["len_enc"] == "bcd":
        return 100**n - 1
    return 10**n - 1


def limit(fs):
    """Largest size of a variable field."""
    return min(fs["max_len"], capacity(fs))


def pads(fs):
    return fs.get("left_pad", "")[:1], fs.get("right_pad", "")[:1]


def data_bytes(value, fs, count):
    """Encoded data and its size in units of count."""
    if not isinstance(value, str):
        raise Bad("type")
    if is_bin(fs):
        digits = value
        if count == "nibbles" and len(value) % 2 == 1:
            left, right = pads(fs)
            if left:
                digits = left + value
            elif right:
                digits = value + right
        for c in digits:
            if c not in HEX:
                raise Bad("nonhex")
        if len(digits) % 2 == 1:
            raise Bad("odd")
        out = bytes([int(digits[i : i + 2], 16) for i in range(0, len(digits), 2)])
        return out, (len(value) if count == "nibbles" else len(out))
    if not text_codec(fs["data_enc"]):
        raise Bad("codec")
    try:
        out = value.encode(fs["data_enc"], "strict")
    except Exception:
        raise Bad("text") from None
    return out, len(out) * (2 if count == "nibbles" else 1)


def len_bytes(n, fs):
    """Length indicator for n."""
    w = fs["len_type"]
    if fs["len_enc"] == "b":
        if n >= 256**w:
            raise Bad("capacity")
        return bytes([(n >> (8 * (w - 1 - i))) & 255 for i in range(w)])
    if fs["len_enc"] == "bcd":
        if n >= 100**w:
            raise Bad("capacity")
        digits = []
        for _ in range(2 * w):
            n, d = divmod(n, 10)
            digits.append(d)
        digits.reverse()
        return bytes([digits[i] * 16 + digits[i + 1] for i in range(0, 2 * w, 2)])
    if not text_codec(fs["len_enc"]):
        raise Bad("codec")
    if n >= 10**w:
        raise Bad("capacity")
    return str(n).rjust(w, "0").encode(fs["len_enc"])


def field_bytes(value, fs):
    count = unit(fs)
    data, size = data_bytes(value, fs, count)
    if fs["len_type"] == 0:
        if size != fs["max_len"]:
            raise Bad("size", sizes=(size, fs["max_len"], count))
        return b"", data
    if size > fs["max_len"]:
        raise Bad("size", sizes=(size, fs["max_len"], count))
    return len_bytes(size, fs), data


def type_width(spec):
    return 2 if is_bin(spec["t"]) else 4


def has_header(spec):
    return spec["h"]["max_len"] > 0


def norm(value, fs):
    """The value as decode returns it."""
    return value.upper() if is_bin(fs) else value


def bitmap_hex(numbers, base):
    """16 hex digits with a bit for each number in base+1..base+64"""
    v = 0
    for n in numbers:
        if base < n <= base + 64:
            v |= 1 << (64 - (n - base))
    return f"{v:016X}"


def is_field_key(k):
    return isinstance(k, str) and k.isascii() and k.isdigit() and not k.startswith("0") and len(k) <= 3 and 1 <= int(k) <= 192


def bitmap_wire(hexes, fs):
    if is_bin(fs):
        return bytes.fromhex(hexes)
    if not text_codec(fs["data_enc"]):
        raise Bad("codec")
    return hexes.encode(fs["data_enc"])


def layout(numbers, announce=()):
    """Bitmap digits for a set of field numbers: (p, 1 or None). announce may hold 1 and 65 to force empty bitmaps."""
    nums = set(numbers)
    ext = 65 in announce or any(n > 128 for n in nums)
    sec = 1 in announce or ext or any(n > 64 for n in nums)
    p = bitmap_hex(nums | ({1} if sec else set()), 0)
    if not sec:
        return p, None
    one = bitmap_hex(nums | ({65} if ext else set()), 64)
    if ext:
        one += bitmap_hex(nums, 128)
    return p, one


def encode(doc, spec, announce=(), recase=None):
    """Reference encoder. doc may hold any keys. announce and recase build messages that encode itself would not emit:
    empty bitmaps that are announced anyway, and text bitmaps with other letter case (recase maps the digits)."""
    parts = []
    pos = 0

    def add(key, value, lenb, data):
        nonlocal pos
        parts.append(Part(key, value, lenb, data, pos, pos + len(lenb)))
        pos += len(lenb) + len(data)

    key = "h"
    try:
        if has_header(spec):
            if "h" not in doc:
                raise Bad("required")
            lenb, data = field_bytes(doc["h"], spec["h"])
            add("h", norm(doc["h"], spec["h"]), lenb, data)
        key = "t"
        if "t" not in doc:
            raise Bad("required")
        data, size = data_bytes(doc["t"], spec["t"], "bytes")
        if size != type_width(spec):
            raise Bad("size", sizes=(size, type_width(spec), "bytes"))
        add("t", norm(doc["t"], spec["t"]), b"", data)
        key = "p"
        numbers = []
        for k in doc:
            if k in ("1", "65"):
                continue
            if not isinstance(k, str):
                raise Bad("keys")
            if k.isnumeric():
                if not is_field_key(k):
                    raise Bad("keys")
                numbers.append(int(k))
        p, one = layout(numbers, announce)
        for key, digits in (("p", p), ("1", one)):
            if digits is not None:
                if recase and not is_bin(spec[key]):
                    digits = recase(digits)
                add(key, digits, b"", bitmap_wire(digits, spec[key]))
        for n in sorted(numbers):
            key = str(n)
            if key not in spec:
                raise Bad("undefined")
            lenb, data = field_bytes(doc[key], spec[key])
            add(key, norm(doc[key], spec[key]), lenb, data)
    except Bad as e:
        return Result(False, b"", parts, key, 0, e.kind, e.sizes, False)
    wire = b"".join(p.len + p.data for p in parts)
    return Result(True, wire, parts, "", 0, "", None, False)


def decode(s, spec):
    """Reference decoder."""
    s = bytes(s)
    parts = []
    pos = 0
    key = "h"
    try:
        if has_header(spec):
            part = _read_field(s, pos, "h", spec["h"])
            parts.append(part)
            pos = part.dstart + len(part.data)
        key = "t"
        w = type_width(spec)
        data = s[pos : pos + w]
        if len(data) < w:
            raise Bad("short", pos, (len(data), w, "bytes"))
        parts.append(Part("t", _read_value(data, pos, spec["t"]), b"", data, pos, pos))
        pos += w
        key = "p"
        text, data, bits = _read_bitmap(s, pos, spec["p"], 0)
        parts.append(Part("p", text, b"", data, pos, pos))
        pos += len(data)
        numbers = _bits(bits, 0)
        if 1 in numbers:
            numbers.remove(1)
            key = "1"
            start = pos
            text, data, bits = _read_bitmap(s, pos, spec["1"], 0)
            pos += len(data)
            more = _bits(bits, 64)
            if 65 in more:
                more.remove(65)
                text2, data2, bits = _read_bitmap(s, pos, spec["1"], len(data))
                pos += len(data2)
                text, data = text + text2, data + data2
                more += _bits(bits, 128)
            parts.append(Part("1", text, b"", data, start, start))
            numbers += more
        for n in numbers:
            key = str(n)
            if key not in spec:
                raise Bad("undefined", pos)
            part = _read_field(s, pos, key, spec[key])
            parts.append(part)
            pos = part.dstart + len(part.data)
        if pos < len(s):
            raise Bad("extra", pos)
    except Bad as e:
        return Result(False, s, parts, key, e.pos, e.kind, e.sizes, False)
    except Unspecified:
        return Result(False, s, parts, key, 0, "unspecified", None, True)
    return Result(True, s, parts, "", 0, "", None, False)


def _bits(v, base):
    """Numbers of the bits set in the 64-bit integer v, ascending."""
    return [base + i for i in range(1, 65) if v >> (64 - i) & 1]


def _read_bitmap(s, pos, fs, already):
    w = 8 if is_bin(fs) else 16
    data = s[pos : pos + w]
    if len(data) < w:
        raise Bad("short", pos, (already + len(data), already + w, "bytes"))
    if is_bin(fs):
        text = data.hex().upper()
    else:
        text = _read_value(data, pos, fs)
        if len(text) != 16 or any(c not in HEX for c in text):
            raise Bad("nonhex", pos)
    return text, data, int(text, 16)


def _read_value(data, pos, fs):
    if is_bin(fs):
        return data.hex().upper()
    if not text_codec(fs["data_enc"]):
        raise Bad("codec", pos)
    try:
        return data.decode(fs["data_enc"], "strict")
    except Exception:
        raise Bad("text", pos) from None


def _read_field(s, pos, key, fs):
    w = fs["len_type"]
    count = unit(fs)
    lenb = s[pos : pos + w]
    if len(lenb) < w:
        raise Bad("short-len", pos, (len(lenb), w, "bytes"))
    if w == 0:
        size = fs["max_len"]
    else:
        if fs["len_enc"] == "b":
            size = 0
            for byte in lenb:
                size = size * 256 + byte
        elif fs["len_enc"] == "bcd":
            size = 0
            for byte in lenb:
                if byte >> 4 > 9 or byte & 15 > 9:
                    raise Bad("bcd", pos)
                size = size * 100 + (byte >> 4) * 10 + (byte & 15)
        else:
            if not text_codec(fs["len_enc"]):
                raise Bad("codec", pos)
            try:
                digits = lenb.decode(fs["len_enc"], "strict")
            except Exception:
                raise Bad("text", pos) from None
            if digits == "" or any(c not in "0123456789" for c in digits):
                raise Bad("digits", pos)
            size = 0
            for c in digits:
                size = size * 10 + "0123456789".index(c)
        if size > fs["max_len"]:
            raise Bad("size", pos, (size, fs["max_len"], count))
    start, pos = pos, pos + w
    if size == 0:
        return Part(key, "", lenb, b"", start, pos)
    nbytes = (size + 1) // 2 if count == "nibbles" else size
    data = s[pos : pos + nbytes]
    if len(data) < nbytes:
        raise Bad("short", pos, (len(data) * (2 if count == "nibbles" else 1), size, count))
    odd = count == "nibbles" and size % 2 == 1
    if odd and not is_bin(fs):
        raise Unspecified
    value = _read_value(data, pos, fs)
    if odd:
        left, right = pads(fs)
        left, right = left.upper(), right.upper()
        left_match = left != "" and value[0] == left
        right_match = right != "" and value[-1] == right
        if left_match:
            value = value[1:]
        elif right_match and left:
            raise Unspecified  # left_pad is configured and absent, right_pad happens to match
        elif right_match:
            value = value[:-1]
        else:
            raise Bad("pad", pos, (size + 1, size, count))
    return Part(key, value, lenb, data, start, pos)


def decode_len(lenb, fs):
    """Number in a well-formed length indicator."""
    if fs["len_enc"] == "b":
        return int.from_bytes(lenb, "big")
    return int(lenb.hex() if fs["len_enc"] == "bcd" else lenb.decode(fs["len_enc"]))


def doc_dec(parts):
    return {p.key: p.value for p in parts}


def doc_enc(parts):
    return {p.key: {"len": p.len, "data": p.data} for p in parts}
