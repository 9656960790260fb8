import codecs
import encodings
import encodings.aliases
import pkgutil
import warnings

from checks.common import *
from pbt import usercodecs
from pbt.engine import EnumTest, RandomTest

RULE = (
    "fields in every text codec of this Python under every alias, and in codecs registered by the user, with texts the codec can and cannot represent, and arbitrary bytes decoded in it; the "
    "oracle is the codec itself, applied strictly. Non-trivial: the codec encodes the text to another number of bytes than characters or to other bytes "
    "than ASCII, or the text or bytes are refused; counted per distinct (codec name, text or bytes, settings)"
)
ASSUMPTIONS = ("Python's own codecs, applied through str.encode and bytes.decode with errors='strict', define what an encoding is",)

warnings.simplefilter("ignore")  # unicode_escape warns about invalid escapes


def _names():
    """(names of text codecs, names of other codecs), aliases included."""
    cands = set(encodings.aliases.aliases) | set(encodings.aliases.aliases.values())
    cands |= {m.name for m in pkgutil.iter_modules(encodings.__path__)}
    cands |= {n.replace("_", "-") for n in cands}
    text, other = [], []
    for n in sorted(cands):
        try:
            info = codecs.lookup(n)
        except Exception:
            continue
        (text if info._is_text_encoding else other).append(n)
    return text, other


TEXT_CODECS, OTHER_CODECS = _names()
TEXT_CODECS += usercodecs.ALL
UNKNOWN = ("no-such-codec", "ebcdic", "utf-9", "", " ", "ascii\n", "é", "b ", " b", "b\n", "B", "BCD", "Bcd", "bCD", "bcd ", " bcd", "bcd\0", "bcd", "strict", "x" * 300, "aliases", "os", "../ascii")
UNKNOWN = tuple(n for n in UNKNOWN if not model.text_codec(n))
CHARS = gens.WIDE + "\u20ac\u2013\u0131\u00b5\u03bc\uff21\uff10\u0660\u00b2\u3000\ufeff\ufffd\u200b\x80\x9f\xff\U0010ffff\x00\x1b~\\^[]{}|#$@"


def anytext(src, most=40):
    k = src.draw(8)
    n = src.draw(most + 1)
    if k <= 2:
        return gens._chars(src, CHARS, n)
    if k == 3:
        return gens._chars(src, gens.ASCII_SETS[3], n)
    if k == 4:
        base = src.pick((0x80, 0x100, 0x370, 0x400, 0x590, 0x600, 0xE00, 0x3040, 0x4E00, 0xAC00, 0xFF00, 0x1F600))
        return "".join([chr(base + src.draw(128)) for _ in range(min(n, 12))])
    if k == 5:
        s = gens._chars(src, CHARS, n)
        i = src.draw(n + 1)
        return s[:i] + src.pick(("\ud800", "\udc80", "\udfff", "\ufffd", "?")) + s[i:]
    if k == 6:
        return "".join([chr(src.draw(0xD800)) for _ in range(min(n, 12))])
    return gens._chars(src, "0123456789", n)


def codec_text(src, name, most=40):
    """Mostly text that the codec can represent."""
    if src.chance(1, 24):
        most *= 10
        v = gens._chars(src, src.pick(("0123456789", "ABCxyz 0189", "héß0 ", "日本aé")), src.draw(most + 1)) if src.chance(1, 2) else anytext(src, most)
    else:
        v = anytext(src, most)
    if src.chance(2, 3):
        out = ""
        for c in v:
            try:
                c.encode(name)
                out += c
            except Exception:
                pass
        v = out
    return v


def encoded(v, name):
    """(bytes, None) or (None, reason)"""
    try:
        return v.encode(name, "strict"), None
    except Exception as e:
        return None, e


def decoded(b, name):
    try:
        return b.decode(name, "strict"), None
    except Exception as e:
        return None, e


def name_variant(src, name):
    k = src.draw(6)
    if k == 1:
        v = name.upper()
    elif k == 2:
        v = name.replace("_", "-")
    elif k == 3:
        v = name.replace("_", " ")
    elif k == 4:
        v = name.title()
    else:
        v = name
    return v if model.text_codec(v) else name


def setting(src, name, size, fixed=None):
    """A field in this codec for data of size bytes, and the unit."""
    nib = src.chance(1, 3)
    n = size * (2 if nib else 1)
    fs = {"data_enc": name, "len_enc": src.pick(("ascii", "b", "bcd", "cp500")), "desc": ""}
    if nib or src.chance(1, 2):
        fs["len_count"] = "nibbles" if nib else "bytes"
    if fixed if fixed is not None else src.chance(1, 3):
        fs.update(len_type=0, max_len=n)
    else:
        fs.update(len_type=4, max_len=n + src.pick((0, 0, 1, 5, 1000)))
    return fs, n, 2 if nib else 1


def lenb_of(fs, n):
    if not fs["len_type"]:
        return b""
    if fs["len_enc"] == "b":
        return n.to_bytes(4, "big")
    if fs["len_enc"] == "bcd":
        return bytes.fromhex(f"{n:08d}")
    return f"{n:04d}".encode(fs["len_enc"])


def place(src, fs):
    """A specification with the field (or header) somewhere in a message: (spec, key, bytes before, bytes after, rest of the dict)."""
    spec = {k: dict(v) for k, v in gens.PLAIN_HEAD.items()}
    if fs["max_len"] > 0 and src.chance(1, 6):
        spec["h"] = fs
        return spec, "h", b"", b"0200" + bytes(8), {"t": "0200"}
    n = 2 + src.draw(63)
    spec[str(n)] = fs
    doc, after = {"t": "0200"}, b""
    bits = 1 << (64 - n)
    if n < 64 and src.chance(1, 3):
        spec["64"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 2}
        doc["64"], after = "zz", b"zz"
        bits |= 1
    return spec, str(n), b"0200" + bits.to_bytes(8, "big"), after, doc


def check_text(src, name, v):
    data, reason = encoded(v, name)
    if data is not None and len(data) > 900:
        raise Reject("long")
    fs, n, per = setting(src, name, len(data) if data is not None else len(v))
    spec, key, before, after, doc = place(src, fs)
    doc = {key: v, **doc}
    src.note(field=fs, key=key, text=v, encoded=data)
    what = f"text {v!r} in {name!r}"
    if data is None:
        src.label("text the codec refuses")
        fs["max_len"] = max(fs["max_len"], 1)
        s, enc, err = encode(dict(doc), spec)
        if err is None:
            fail(f"{what}: encoded as {enc[key]} although the codec refuses it ({reason})")
        if err.field != key:
            fail(f"{what}: reported for field {err.field}: {err}")
        src.nontrivial(name, v, sorted(map(repr, fs.items())))
        return
    if key == "h" and fs["max_len"] <= 0:
        raise Reject("header off")
    lenb = lenb_of(fs, n)
    s, enc = must_encode(gens.litter(src, doc, spec), spec, what)
    if enc[key] != {"len": lenb, "data": data}:
        fail(f"{what}: encoded as {enc[key]}, expected length {n} and data {data!r}")
    wire = before + lenb + data + after
    if bytes(s) != wire:
        fail(f"{what}: the message is {bytes(s)!r}, expected {wire!r}")
    check_bytes_in(src, name, data, fs, spec, key, wire, lenb, what)
    # limits count encoded bytes, not characters
    if n:
        small = dict(fs, max_len=n - 1)
        if key != "h" or small["max_len"] > 0:
            a, _, err = encode(dict(doc), dict(spec, **{key: small}))
            if err is None or err.field != key:
                fail(f"{what}: {n} is over the limit of {n - 1}, but encode says {err or bytes(a)}")
    if len(v) != len(data) and len(v) * per > 0:
        other = dict(fs, max_len=len(v) * per)
        ok = fs["len_type"] > 0 and n <= len(v) * per
        a, e, err = encode(dict(doc), dict(spec, **{key: other}))
        if (err is None) != ok:
            fail(f"{what}: {len(v)} characters, {len(data)} bytes, limit {other['max_len']}: encode says {err or bytes(a)}")
    if len(v) != len(data) or not v.isascii() or data != v.encode("ascii"):
        src.nontrivial(name, v, sorted(map(repr, fs.items())))
        src.label("multi-byte" if len(data) != len(v) else "other than ASCII")


def check_bytes_in(src, name, data, fs, spec, key, wire, lenb, what):
    want, reason = decoded(data, name) if data else ("", None)
    dec, enc, err = decode(as_input(src, wire), spec)
    if want is None:
        if err is None:
            fail(f"{what}: bytes {data!r} decoded as {dec[key]!r} although the codec refuses them ({reason})")
        if err.field != key:
            fail(f"{what}: bytes {data!r}: reported for field {err.field}: {err}")
        src.label("bytes the codec refuses")
        return False
    if err is not None:
        fail(f"{what}: bytes {data!r} were refused: {err}; the codec decodes them as {want!r}")
    if type(dec[key]) is not str or dec[key] != want:
        fail(f"{what}: bytes {data!r} decoded as {dec[key]!r}, the codec says {want!r}")
    if enc[key] != {"len": lenb, "data": data}:
        fail(f"{what}: bytes {data!r} are {enc[key]} in the encoded dictionary")
    return True


def aliases(src):
    """Every name of every text codec."""
    i = src.draw(len(TEXT_CODECS) * 6)
    name = TEXT_CODECS[i // 6]
    v = ("0123456789", "Aa é€漢", None, None, None, "")[i % 6]
    if v is None:
        v = codec_text(src, name)
    src.label("alias")
    check_text(src, name_variant(src, name), v)


def texts(src):
    name = name_variant(src, src.pick(TEXT_CODECS))
    check_text(src, name, codec_text(src, name))


def registered(src):
    """Codecs the user of the package registered."""
    name = src.pick(usercodecs.ALL)
    k = src.draw(3)
    v = codec_text(src, name) if k == 0 else gens._chars(src, usercodecs._TABLE, src.draw(30)) if k == 1 else gens._chars(src, "0123456789ABCDEFabc", src.draw(12))
    check_text(src, name, v)


def raw(src):
    """Arbitrary bytes read in any codec."""
    name = name_variant(src, src.pick(TEXT_CODECS)) if src.chance(7, 8) else src.pick(usercodecs.ALL)
    k = src.draw(4)
    n = src.draw(16)
    if k == 0:
        data = bytes([src.draw(256) for _ in range(n)])
    else:
        data = encoded(codec_text(src, name, 10), name)[0] or b"0"
        if k >= 2 and data:
            i = src.draw(len(data))
            data = data[:i] + src.pick((b"\x80", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x00", b"", b"\x1b", b"\xa4")) + data[i + src.draw(2) :]
    if len(data) > 400:
        raise Reject("long")
    fs, n, _ = setting(src, name, len(data))
    spec, key, before, after, _ = place(src, fs)
    if key == "h" and fs["max_len"] <= 0:
        raise Reject("header off")
    lenb = lenb_of(fs, n)
    src.note(field=fs, data=data)
    if not check_bytes_in(src, name, data, fs, spec, key, before + lenb + data + after, lenb, f"codec {name!r}") or not data.isascii():
        src.nontrivial(name, data, sorted(map(repr, fs.items())))


def no_codec(src):
    """Unknown names and codecs that are not text encodings."""
    name = src.pick(UNKNOWN) if src.chance(1, 2) else src.pick(OTHER_CODECS)
    v = anytext(src, 10) if src.chance(1, 2) else src.pick(("1234", "ABCD", "00", "eJwDAAAAAAE=", "x", ""))
    if name == "b":
        raise Reject("binary")
    n = len(v.encode("utf-8", "replace"))
    fs, n, per = setting(src, name, n)
    spec, key, before, after, doc = place(src, fs)
    as_len = src.chance(1, 3) and fs["len_type"]
    if as_len and name not in ("b", "bcd"):
        fs.update(data_enc="utf-8", len_enc=name, max_len=max(1, fs["max_len"]))
    elif fs["max_len"] <= 0:
        fs["max_len"] = 1
    src.note(field=fs, key=key, text=v)
    s, enc, err = encode({key: v, **doc}, spec)
    if err is None:
        fail(f"codec {name!r} was accepted: {v!r} encoded as {enc[key]}")
    if err.field != key:
        fail(f"codec {name!r} is reported for field {err.field}: {err}")
    data = (b"1234" * n)[: fs["max_len"] // per]
    if not data:
        raise Reject("empty")
    if fs["len_enc"] == name:
        # the indicator as it would be if the name were taken for another encoding
        size = len(data) * per
        asif = src.pick(("ascii", "b", "bcd", "cp500"))
        if size >= {"b": 256, "bcd": 100}.get(asif, 10) ** fs["len_type"]:
            raise Reject("too big")
        lenb = lenb_of(dict(fs, len_enc=asif), size)
    else:
        lenb = lenb_of(fs, len(data) * per)
        if fs["max_len"] % per and not fs["len_type"]:
            raise Reject("odd")
    d, e, err = decode(as_input(src, before + lenb + data + after), spec)
    if err is None:
        fail(f"codec {name!r} was accepted: decoded as {d.get(key)!r}")
    if err.field != key:
        fail(f"codec {name!r} is reported for field {err.field}: {err}")
    src.nontrivial(name, v, sorted(map(repr, fs.items())))


def head(src):
    """Type and bitmaps in any codec that writes them in the bytes they must have."""
    name = name_variant(src, src.pick(TEXT_CODECS))
    spec = {k: dict(v) for k, v in gens.PLAIN_HEAD.items()}
    spec["t"]["data_enc"] = name
    v = codec_text(src, name, 5)
    data, reason = encoded(v, name)
    ok = data is not None and len(data) == 4
    src.note(codec=name, type=v)
    s, enc, err = encode({"t": v}, spec)
    if ok != (err is None):
        fail(f"type {v!r} in {name!r} ({data!r}): encode says {err or bytes(s)}")
    if err is not None:
        if err.field != "t":
            fail(f"type {v!r} in {name!r} is reported for field {err.field}: {err}")
    elif bytes(s[:4]) != data:
        fail(f"type {v!r} in {name!r} encoded as {bytes(s[:4])!r} instead of {data!r}")
    raw4 = data if ok else bytes([src.draw(256) for _ in range(4)]) if data is None else (data + b"0000")[:4]
    want, reason = decoded(raw4, name)
    d, _, err = decode(as_input(src, raw4 + bytes(8)), spec)
    if (want is None) != (err is not None):
        fail(f"type bytes {raw4!r} in {name!r}: decode says {err or d}, the codec says {want!r} {reason}")
    if want is not None and d["t"] != want:
        fail(f"type bytes {raw4!r} in {name!r} decoded as {d['t']!r}, the codec says {want!r}")
    if data is None or not v.isascii() or len(data) != len(v) or data != v.encode():
        src.nontrivial(name, v, raw4)


TESTS = [
    EnumTest("every-alias", aliases, len(TEXT_CODECS) * 6),
    RandomTest("texts", texts, 40000),
    RandomTest("bytes", raw, 40000),
    RandomTest("registered-codecs", registered, 8000),
    RandomTest("no-codec", no_codec, 10000),
    RandomTest("type", head, 10000),
]
