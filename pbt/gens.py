"""Structured generators: specifications, values that are valid under them, messages, and single defects."""

from pbt import model
from pbt.engine import Reject
from pbt.sut import DICT

SINGLE = ("ascii", "latin-1", "cp500", "cp037", "cp1252", "koi8-r", "cp437", "iso8859-15", "cp1140", "mac-roman")
MULTI = ("utf-8", "utf-16-le", "utf-16-be", "shift_jis", "gb18030", "utf-32-le", "euc-kr", "big5", "utf-16", "utf-8-sig")
DIGIT_CODECS = ("ascii", "latin-1", "cp500", "utf-8", "cp037", "cp1252", "shift_jis", "koi8-r")
ALIASES = ("ASCII", "us-ascii", "CP500", "IBM500", "ebcdic-cp-be", "latin1", "Latin_1", "l1", "8859", "646", "EBCDIC-CP-CH", "windows-1252", "ibm037", "437", "cp864", "cp874", "tis-620")
HEXD = "0123456789ABCDEF"
LENGTHS = (
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 24, 25, 28, 31, 32, 33, 37, 40, 47, 63, 64, 65, 90, 98, 99, 100, 101,
    127, 128, 129, 150, 199, 200, 254, 255, 256, 257, 300, 499, 500, 510, 511, 512, 513, 600, 998, 999, 1000, 1001, 1023, 1024, 1998,
    1999, 2000, 4095, 4096, 9998, 9999, 10000, 16383, 16384, 32767, 32768, 65534, 65535, 65536,
)  # fmt: skip
FIELDS = (2, 3, 4, 8, 9, 10, 11, 12, 15, 16, 17, 32, 33, 48, 52, 54, 55, 56, 57, 62, 63, 64, 66, 67, 72, 73, 80, 81, 96, 97, 112, 120, 121,
          126, 127, 128, 129, 130, 136, 137, 144, 145, 160, 176, 190, 191, 192)  # fmt: skip
ALL_FIELDS = tuple(n for n in range(2, 193) if n != 65)


# header, type and bitmaps at their simplest
PLAIN_HEAD = {
    "h": {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0, "desc": "Message Header"},
    "t": {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 4, "desc": "Message Type"},
    "p": {"data_enc": "b", "len_enc": "ascii", "len_type": 0, "max_len": 8, "desc": "Bitmap, Primary"},
    "1": {"data_enc": "b", "len_enc": "ascii", "len_type": 0, "max_len": 8, "desc": "Bitmap, Secondary"},
}

# ------------------------------------------------------------------------------------------------------------- numbers


def length(src, lo, hi, small=40):
    """A length in lo..hi, biased to the ends, to powers of two and ten, and to constants of the code under test."""
    if hi <= lo:
        return lo
    k = src.draw(10)
    if k <= 3:
        return src.range(lo, min(hi, lo + small))
    if k == 4:
        return lo
    if k == 5:
        return src.range(max(lo, hi - 2), hi)
    if k <= 7:
        c = [n for n in LENGTHS if lo <= n <= hi]
        return src.pick(c) if c else lo
    if k == 8:
        c = [n for n in DICT.ints if lo <= n <= hi]
        if not c:
            return lo
        n = src.pick(c)
        if src.chance(1, 3):
            n *= 1 + src.draw(5)
        return n if n <= hi else lo
    return src.range(lo, hi)


def field_number(src):
    k = src.draw(8)
    if k <= 2:
        return src.pick(FIELDS)
    if k == 3 and DICT.fields:
        return int(src.pick(DICT.fields))
    if k <= 5:
        return 2 + src.draw(63)
    return src.pick(ALL_FIELDS)


def field_set(src, most=6, dense=True):
    """Ascending field numbers."""
    k = src.draw(26)
    if dense and k >= 24:
        # the ends of the bitmaps and of their bytes
        out = {n for n in (2, 8, 9, 16, 57, 63, 64, 66, 72, 73, 120, 121, 127, 128, 129, 130, 136, 137, 184, 185, 191, 192) if src.chance(1, 4)}
        if k == 25:
            out = {n for n in out if n in (2, 64, 66, 128, 129, 192)} | {src.pick((2, 64, 66, 128, 129, 192)), 64 * src.range(1, 3)}
    elif not dense or k <= 18:
        out = set()
        for _ in range(src.draw(most + 1)):
            if out and src.chance(1, 8):
                # a number related to one that is there
                n = max(out)
                n = src.pick((n + 1, n - 1, n + 64, n - 64, n + 128, n + 8, n * 2, n + 63, n + 65, n * 10))
                if 2 <= n <= 192 and n != 65:
                    out.add(n)
            else:
                out.add(field_number(src))
    elif k == 19:
        out = set(range(2, 65))
    elif k == 20:
        lo = 2 + src.draw(180)
        out = set(range(lo, min(193, lo + 1 + src.draw(24)))) - {65}
    elif k == 21:
        lo = 1 + 8 * src.draw(24)
        out = set(range(lo, lo + 8)) - {1, 65}
    elif k == 22:
        step = 2 + src.draw(40)
        out = set(range(2 + src.draw(step), 193, step)) - {65}
    else:
        out = set(ALL_FIELDS if src.chance(1, 3) else ALL_FIELDS[:126])
        if src.chance(1, 3):
            out.discard(field_number(src))
    return sorted(out)


# -------------------------------------------------------------------------------------------------------------- values

BCD = "0123456789"
ASCII_SETS = (
    "0123456789",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789",
    "abcXYZ'\"\\ \t\n\r\x00/+-_,.",
    "".join(map(chr, range(32, 127))),
    "".join(map(chr, range(128))),
)
WIDE = "éüßñ€£¥ÄÖабвгдежзийαβγδ中文字漢日本語한국어ｱｲｳ𝄞😀\u00a0\u0301"
_repertoire = {}


def repertoire(codec):
    """Characters of a single-byte codec that survive a round trip; a mixed sample for other codecs."""
    r = _repertoire.get(codec)
    if r is None:
        out = []
        if codec in SINGLE or len("0".encode(codec)) == 1 and codec not in MULTI:
            cands = []
            for b in range(256):
                try:
                    cands.append(bytes([b]).decode(codec))
                except UnicodeError:
                    pass
        else:
            cands = list(WIDE) + [chr(c) for c in range(32, 127)]
        for c in cands:
            try:
                if c.encode(codec).decode(codec) == c and (c + c).encode(codec).decode(codec) == c + c:
                    out.append(c)
            except UnicodeError:
                pass
        r = _repertoire[codec] = "".join(out)
    return r


def _chars(src, alphabet, n):
    """n characters: short ones drawn freely, long ones made of a repeated piece with an odd character somewhere."""
    if n <= 0:
        return ""
    k = src.draw(8)
    if k == 0 or n == 1:
        piece = src.pick(alphabet)
        out = piece * n
    elif n <= 24 and k <= 5:
        return "".join([alphabet[src.draw(len(alphabet))] for _ in range(n)])
    else:
        m = min(n, 2 + src.draw(11))
        piece = "".join([alphabet[src.draw(len(alphabet))] for _ in range(m)])
        out = (piece * (n // m + 1))[:n]
        if k == 7:
            i = src.draw(n)
            out = out[:i] + src.pick(alphabet) + out[i + 1 :]
    return out


def hexstr(src, n):
    """n hex digits."""
    k = src.draw(10)
    if k <= 3:
        v = _chars(src, HEXD, n)
    elif k == 4:
        v = _chars(src, BCD, n)
    elif k == 5:
        v = _chars(src, "abcdef0189", n)
    elif k == 6:
        v = _chars(src, "0123456789ABCDEFabcdef", n)
    elif k == 7:
        c = src.pick("0F1dD")
        v = _chars(src, HEXD, n)
        i = src.draw(n + 1)
        v = c * i + v[i:] if src.chance(1, 2) else v[: n - i] + c * i
    elif k == 8 and DICT.hexes:
        v = src.pick(DICT.hexes)
        v = (v + _chars(src, HEXD, n))[:n] if src.chance(1, 2) else (_chars(src, HEXD, n) + v)[-n:] if n else ""
        v = v[:n]
    else:
        v = src.pick("0F9A") * n
    return v


def text(src, codec, nbytes, exact):
    """Text of at most (or exactly) nbytes encoded bytes that survives a round trip through the codec, or None."""
    if codec in SINGLE or codec not in MULTI:
        rep = repertoire(codec)
        k = src.draw(8)
        if k <= 4:
            alpha = src.pick(ASCII_SETS)
            try:
                alpha.encode(codec)
            except UnicodeError:
                alpha = rep
        elif k == 5 and DICT.strs:
            word = "".join(c for c in src.pick(DICT.strs) if c in rep)[:nbytes]
            fill = _chars(src, rep, nbytes - len(word))
            return word + fill if src.chance(1, 2) else fill + word
        else:
            alpha = rep
        out = _chars(src, alpha, nbytes)
    else:
        rep = repertoire(codec)
        bom = len("".encode(codec))
        if nbytes < bom:
            return None
        k = src.draw(6)
        if k == 0:
            rep = "".join(c for c in rep if ord(c) < 128)
        elif k <= 2:
            rep = "".join(c for c in rep if ord(c) >= 128)
        out, used = "", bom
        target = nbytes if nbytes <= 200 else 200
        budget = 60
        while used < target and budget:
            budget -= 1
            c = src.pick(rep)
            w = len(c.encode(codec)) - bom
            if used + w > nbytes:
                break
            out += c
            used += w
        fill = len("A".encode(codec)) - bom
        if exact or nbytes > 200:
            n = (nbytes - used) // fill
            out += "A" * n
            used += n * fill
    try:
        enc = out.encode(codec)
        if enc.decode(codec) != out:
            return None
    except UnicodeError:
        return None
    if len(enc) > nbytes or (exact and len(enc) != nbytes):
        return None
    if out and src.chance(1, 6):
        out = edges(src, out, codec, len(enc))
    return out


EDGE = "\x00 \t\n\r\x1a\x7f\xa0\x85\ufeff\u20280FfAa@+-_.'\"\\"


def edges(src, v, codec, size):
    """v with other characters at its ends, if it stays the same size and survives a round trip."""
    n = 1 + src.draw(min(3, len(v)))
    c = src.pick(EDGE)
    k = src.draw(3)
    w = v[: len(v) - n] + c * n if k == 0 else c * n + v[n:] if k == 1 else c * n + v[n : len(v) - n] + c * n
    try:
        enc = w.encode(codec)
        return w if len(enc) == size and enc.decode(codec) == w else v
    except UnicodeError:
        return v


def value(src, fs, most=None):
    """A value the specification accepts for this field, or Reject."""
    fixed = fs["len_type"] == 0
    nib = fs.get("len_count", "bytes") == "nibbles"
    hi = fs["max_len"] if fixed else model.limit(fs)
    if fixed:
        n = hi
    else:
        if most is not None and hi > most:
            hi = most
        n = length(src, 0, hi)
    return value_of(src, fs, n, fixed)


def value_of(src, fs, n, exact=True):
    """A value of n units (at most n for multi-byte text unless exact)."""
    nib = fs.get("len_count", "bytes") == "nibbles"
    if model.is_bin(fs):
        if nib:
            if n % 2 and not (model.pads(fs)[0] or model.pads(fs)[1]):
                if exact:
                    raise Reject("odd nibbles without pad")
                n -= 1
            return hexstr(src, n)
        return hexstr(src, 2 * n)
    if nib:
        if n % 2:
            if exact:
                raise Reject("odd nibbles of text")
            n -= 1
        n //= 2
    v = text(src, fs["data_enc"], n, exact)
    if v is None:
        if not exact:
            v = text(src, fs["data_enc"], n, True)
        if v is None:
            if n and exact or len("".encode(fs["data_enc"])) > n:
                raise Reject("no text of this size")
            v = ""
    return v


# ------------------------------------------------------------------------------------------------------ specifications


def data_codec(src, multi=True):
    k = src.draw(20)
    if k <= 4:
        return "ascii"
    if k <= 7:
        return "cp500"
    if k <= 9:
        return "latin-1"
    if k <= 13:
        return src.pick(SINGLE)
    if k == 14 or not multi:
        return src.pick(ALIASES)
    if k == 15 and DICT.codecs:
        return src.pick(DICT.codecs)
    if k <= 17:
        return "utf-8"
    return src.pick(MULTI)


_exists = {}


def codec_exists(name):
    import codecs

    if name not in _exists:
        try:
            codecs.lookup(name)
            _exists[name] = True
        except Exception:
            _exists[name] = False
    return _exists[name]


def len_codec(src):
    k = src.draw(8)
    if k <= 3:
        return "ascii"
    if k <= 5:
        return "cp500"
    if k == 6 and DICT.codecs:
        return src.pick(DICT.codecs)
    if k == 7 and src.chance(1, 4):
        return src.pick(ALIASES)
    return src.pick(DIGIT_CODECS)


PADS = ("0", "F", "f", "A", "d", "00", "F0", "fA", "9", "0F", "c")


def field(src, big=70000, multi=True):
    """A field specification that at least one value satisfies."""
    fs = {}
    binary = src.chance(9, 20)
    fs["data_enc"] = "b" if binary else data_codec(src, multi)
    k = src.draw(10)
    nib = k >= 6
    if 3 <= k < 6:
        fs["len_count"] = "bytes"
    elif nib:
        fs["len_count"] = "nibbles"
    if binary and nib and src.chance(4, 5) or src.chance(1, 10):
        k = src.draw(11)
        if k in (0, 1, 2, 3, 8, 9):
            fs["left_pad"] = src.pick(PADS)
        if k in (4, 5, 6, 7, 8, 9):
            fs["right_pad"] = src.pick(PADS)
        if k in (6, 7):
            fs["left_pad"] = ""
        if k == 3:
            fs["right_pad"] = ""
        if k == 10:
            j = src.draw(3)
            if j != 0:
                fs["left_pad"] = ""
            if j != 1:
                fs["right_pad"] = ""
    k = src.draw(5)
    fs["len_enc"] = "b" if k == 0 else "bcd" if k == 1 else len_codec(src)
    if src.chance(2, 5):
        fs["len_type"] = 0
        n = length(src, 0 if src.chance(1, 12) else 1, min(big, 1200 if src.chance(5, 6) else 20000), small=20)
        if nib and n % 2 and (not binary or not any(model.pads(fs))):
            n += 1
        if not binary and fs["data_enc"] in MULTI:
            fs["data_enc"] = src.pick(("utf-8", "utf-16-le", "utf-16-be", "shift_jis", "gb18030"))
            if fs["data_enc"].startswith("utf-16"):
                n += -n % (4 if nib else 2)
        fs["max_len"] = n
    else:
        text_len = fs["len_enc"] not in ("b", "bcd")
        k = src.draw(12)
        if k <= 6:
            w = (2 if text_len else 1)
        elif k == 7:
            w = (1 if text_len else 2)
        elif k <= 9:
            w = (3 if text_len else 2)
        elif k == 10:
            w = (4 if text_len else 3)
        else:
            w = 1 + src.draw(8) if src.chance(7, 8) else 9 + src.draw(16)
        fs["len_type"] = w
        cap = model.capacity(fs)
        k = src.draw(8)
        if k <= 2:
            m = cap
        elif k <= 5:
            m = length(src, 1, min(cap, big), small=30)
        elif k == 6:
            m = cap + 1 + src.draw(1000)
        else:
            m = src.pick((0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000))
        fs["max_len"] = m
    if src.chance(1, 4):
        fs["desc"] = src.pick(("", "Field", "A fairly long description of a field", "x", "5% {of} %s", "tab\tbed", " é "))
    return fs


def header(src, multi=True):
    if src.chance(2, 5):
        fs = field(src, big=300, multi=multi)
        if fs["max_len"] <= 0:
            fs["max_len"] = 2
        return fs
    return {
        "data_enc": src.pick(("b", "ascii", "cp500", "no-such-codec")),
        "len_enc": src.pick(("b", "bcd", "ascii")),
        "len_type": src.draw(4),
        "max_len": src.pick((0, 0, -1, -5)),
        "desc": "Message Header",
    }


def litter(src, doc, spec):
    """A new dict: doc, in one of four cases with entries that play no role (left from another message or meant for other code)."""
    out = dict(doc)
    if not src.chance(1, 4):
        return out
    for _ in range(1 + src.draw(3)):
        k = src.draw(7)
        if k <= 3:
            key = ("p", "1", "65", "p")[k]
            numbers = [int(n) for n in doc if model.is_field_key(n) and n not in ("1", "65")]
            right = [d for d in model.layout(numbers) if d]
            v = src.pick(right + ["C000000000000000", "FFFFFFFFFFFFFFFF", "0" * 16, "", "x", "8000000000000000" * 2, "0" * 32, "4"])
            out[key] = v.lower() if src.chance(1, 2) else v
        elif k == 4 and not model.has_header(spec):
            out["h"] = src.pick(("", "header", "0000", "é"))
        else:
            out[src.pick(("", "T", "H", "P", "bitmap", "b", "mti", "2a", "-2", " 2", "note", "é", "tp", "0x2"))] = src.pick(("", "x", "0200", "FF"))
    if src.chance(1, 2):
        out = dict(src.shuffle(list(out.items()))) if len(out) < 40 else dict(reversed(list(out.items())))
    return out


def widths(src):
    """(desc_width, line_width) of a print-out."""
    k = src.draw(8)
    dw = src.pick((30, 30, 30, 0, 0, 10)) if k <= 4 else src.pick((-1, 1, 12, 29, 31, 45, 60, 200, -40)) if k <= 6 else src.draw(70)
    k = src.draw(8)
    lw = src.pick((80, 80, 40, 20)) if k <= 4 else src.pick((0, -1, 1, 5, 30, 41, 79, 81, 100, 132, 1000)) if k <= 6 else src.draw(150)
    return dw, lw


def unused_settings(src, fs):
    """Settings that have no meaning for the message type and the bitmaps."""
    if src.chance(1, 8):
        for _ in range(1 + src.draw(3)):
            k = src.draw(6)
            if k <= 1:
                fs["left_pad" if k else "right_pad"] = src.pick(("0", "F", "f", "", "A0", " "))
            elif k == 2:
                fs["len_count"] = src.pick(("nibbles", "bytes"))
            elif k == 3:
                fs["len_type"] = src.draw(10)
            elif k == 4:
                fs["max_len"] = src.pick((1, 4, 15, 17, 32, 64, 100, 256, 999, 10**9, -1))
            else:
                fs["len_enc"] = src.pick(("cp500", "utf-16-le", "no-such-codec"))
    return fs


def bitmap_spec(src):
    k = src.draw(6)
    return unused_settings(src, {
        "data_enc": "b" if k <= 2 else "ascii" if k == 3 else src.pick(DIGIT_CODECS),
        "len_enc": src.pick(("ascii", "b", "bcd")),
        "len_type": src.pick((0, 0, 0, 1, 2)),
        "max_len": src.pick((8, 16, 8, 16, 0, 99)),
        "desc": "Bitmap",
    })


def type_spec(src):
    k = src.draw(8)
    enc = "b" if k <= 2 else "ascii" if k <= 4 else "cp500" if k == 5 else src.pick(SINGLE) if k == 6 else src.pick(("utf-8", "utf-16-le"))
    return unused_settings(src, {
        "data_enc": enc,
        "len_enc": src.pick(("ascii", "b")),
        "len_type": src.pick((0, 0, 0, 2)),
        "max_len": src.pick((4, 2, 4, 2, 0, 8)),
        "desc": "Message Type",
    })


def mti(src, spec):
    fs = spec["t"]
    if model.is_bin(fs):
        k = src.draw(3)
        if k == 0:
            return src.pick(("0200", "0210", "0800", "0400", "0100", "1200", "2804"))
        return "".join([src.pick(HEXD + "abcdef") for _ in range(4)])
    k = src.draw(4)
    if k <= 1 and len("0".encode(fs["data_enc"])) == 1:
        return src.pick(("0200", "0210", "0800", "0400", "0100", "9999", "0000"))
    if k == 2 and DICT.strs:
        c = [s for s in DICT.strs if len(s) == 4 and _size(s, fs["data_enc"]) == 4]
        if c:
            return src.pick(c)
    return text(src, fs["data_enc"], 4, True) or "A" * (4 // len("A".encode(fs["data_enc"])))


def _size(s, codec):
    try:
        return len(s.encode(codec))
    except UnicodeError:
        return -1


def skeleton(src, multi=True):
    return {"h": header(src, multi), "t": type_spec(src), "p": bitmap_spec(src), "1": bitmap_spec(src)}


def spec_and_doc(src, most=6, dense=True, budget=None, multi=True, numbers=None):
    """(spec, doc): a well-formed specification and a dict that encode has to accept under it."""
    spec = skeleton(src, multi)
    if numbers is None:
        numbers = field_set(src, most, dense)
    doc = {}
    if model.has_header(spec):
        doc["h"] = value(src, spec["h"], 200)
    doc["t"] = mti(src, spec)
    big = 70000 if src.chance(1, 30) else 3000 if src.chance(1, 6) else 130
    if budget is not None:
        big = min(big, budget)
    shared = None
    for n in numbers:
        if len(numbers) > 12 and shared is not None and src.chance(9, 10):
            fs = shared
        else:
            fs = field(src, big=big, multi=multi)
            if len(numbers) > 12 and shared is None:
                shared = fs if fs["max_len"] < 20 else None
        spec[str(n)] = fs
        if src.chance(1, 6) and twin(src, spec, doc, str(n)):
            continue
        doc[str(n)] = value(src, fs, big if len(numbers) <= 12 or src.chance(1, 60) else 20)
    for _ in range(src.draw(4)):
        k = str(field_number(src))
        if k not in spec:
            spec[k] = field(src, big=100)
    if src.chance(1, 8):
        spec["65"] = field(src, big=100)
    if src.chance(1, 5):
        doc = dict(src.shuffle(list(doc.items())))
    return spec, doc


GIANT = (65535, 65536, 65537, 99999, 100000, 10**6 - 1, 10**6, 2**20, 2**20 + 1, 3 * 10**6, 2**23, 2**24 - 1, 2**24, 10**7, 17 * 10**6)


def giant(src):
    """(spec, doc) with one value, or two, of up to 17 million bytes."""
    spec, doc = spec_and_doc(src, most=4, dense=False, budget=60)
    for _ in range(1 + src.draw(2)):
        k = str(field_number(src))
        fs = field(src, big=60, multi=False)
        n = src.pick(GIANT[: src.pick((5, 10, 15))])
        if fs["len_type"]:
            fs["len_type"] = 8 + src.draw(2) if fs["len_enc"] not in ("b", "bcd") else 4 + src.draw(2)
            fs["max_len"] = src.pick((n, n, n + 1, 18 * 10**6))
        else:
            fs["max_len"] = n
        spec[k] = fs
        doc[k] = value_of(src, fs, n)
    return spec, doc


def twin(src, spec, doc, key):
    """Gives field key the encoded data of an earlier field, under the same or another specification."""
    keys = [k for k in doc if k not in ("h", "t", "p", "1") and len(doc[k]) < 300]
    if not keys:
        return False
    other = keys[-1 - src.draw(len(keys))]
    fs = spec[other]
    k = src.draw(6)
    if k >= 4:
        # a value that is nearly the same, under the very same specification
        v = doc[other]
        j = src.draw(4)
        w = v.swapcase() if j == 0 else v[::-1] if j == 1 else v.upper() if j == 2 else v[:-1] + src.pick("0AaF ")
        if model.is_bin(fs) and j == 3:
            w = v[:-1] + src.pick("0AaF")
        if len(w) != len(v) or not v:
            return False
        if not model.is_bin(fs):
            try:
                if len(w.encode(fs["data_enc"])) != len(v.encode(fs["data_enc"])) or w.encode(fs["data_enc"]).decode(fs["data_enc"]) != w:
                    return False
            except UnicodeError:
                return False
        spec[key] = fs
        doc[key] = w
        return True
    if k == 0:
        spec[key] = fs
        doc[key] = doc[other]
        return True
    new = dict(fs)
    if k == 1:
        spec[key] = new
        doc[key] = doc[other]
        return True
    if fs.get("len_count") == "nibbles" and len(doc[other]) % 2:
        return False
    try:
        data = bytes.fromhex(doc[other]) if model.is_bin(fs) else doc[other].encode(fs["data_enc"])
        new["data_enc"] = "b" if k == 2 else src.pick(("latin-1", "cp500", "ascii", "utf-8", "cp037", "koi8-r"))
        if model.is_bin(new):
            v = data.hex().upper()
        else:
            v = data.decode(new["data_enc"])
            if v.encode(new["data_enc"]) != data:
                return False
    except UnicodeError:
        return False
    spec[key] = new
    doc[key] = v
    return True


def spec_for(src, count=8, big=60, multi=True):
    """A specification meant for several messages."""
    spec = skeleton(src, multi)
    for _ in range(count):
        spec[str(field_number(src))] = field(src, big=big, multi=multi)
    return spec


def doc_for(src, spec, most=5, big=40):
    """A dict that encode has to accept under spec."""
    doc = {}
    if model.has_header(spec):
        doc["h"] = value(src, spec["h"], 60)
    doc["t"] = mti(src, spec)
    keys = [k for k in spec if k.isdigit() and k not in ("1", "65")]
    for _ in range(src.draw(most + 1)):
        if keys:
            k = src.pick(keys)
            doc[k] = value(src, spec[k], big)
    return doc


# ------------------------------------------------------------------------------------------------------------- messages


def recaser(src):
    """A function that changes the letter case of text bitmap digits, or None."""
    k = src.draw(4)
    if k <= 1:
        return None
    if k == 2:
        return str.lower

    def mix(s):
        return "".join([c.lower() if src.chance(1, 2) else c for c in s])

    return mix


def announce(src):
    return src.weighted(((6, ()), (1, (1,)), (1, (1, 65))))


def wire(src, **kw):
    """(spec, doc, Result): a well-formed message, canonical or not."""
    spec, doc = spec_and_doc(src, **kw)
    res = model.encode(doc, spec, announce(src), recaser(src))
    if not res.ok:
        raise AssertionError(f"the generator made an invalid dict: {res.field} {res.kind} {res.sizes} {spec.get(res.field)} {doc.get(res.field)!r}")
    return spec, doc, res


def describe(spec, doc):
    """Labels for evidence."""
    out = []
    nums = [int(k) for k in doc if k.isdigit()]
    out.append("fields:" + ("0" if not nums else "1-5" if len(nums) <= 5 else "6-20" if len(nums) <= 20 else "21+"))
    if any(n > 128 for n in nums):
        out.append("bitmap:extended")
    elif any(n > 64 for n in nums):
        out.append("bitmap:secondary")
    else:
        out.append("bitmap:primary")
    if model.has_header(spec):
        out.append("header")
    for k in doc:
        fs = spec.get(k)
        if fs is None or k in ("t", "p", "1"):
            continue
        out.append("data:" + ("binary" if model.is_bin(fs) else "text-multibyte" if fs["data_enc"] in MULTI else "text"))
        out.append("len:" + ("fixed" if fs["len_type"] == 0 else fs["len_enc"] if fs["len_enc"] in ("b", "bcd") else "text"))
        if fs.get("len_count") == "nibbles":
            out.append("count:nibbles-odd" if model.is_bin(fs) and len(doc[k]) % 2 else "count:nibbles")
        if doc[k] == "":
            out.append("value:empty")
        elif len(doc[k]) > 255:
            out.append("value:>255")
    return sorted(set(out))
