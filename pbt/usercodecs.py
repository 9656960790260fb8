"""Codecs registered by the user of the package: a private code page, one that writes three bytes per character, and ones that
fail with exceptions of all kinds (when they meet "7", "F" or "?")."""

import codecs

_ERRORS = {
    "value": ValueError,
    "key": KeyError,
    "index": IndexError,
    "type": TypeError,
    "runtime": RuntimeError,
    "assertion": AssertionError,
    "attribute": AttributeError,
    "os": OSError,
    "arithmetic": ZeroDivisionError,
    "lookup": LookupError,
    "stop": StopIteration,
    "plain": Exception,
    "unicode": UnicodeError,
}
PAGE = "pbt-page"
TRIPLE = "pbt-triple"
FAILING = tuple(f"pbt-fail-{n}" for n in _ERRORS)
ALL = (PAGE, TRIPLE, *FAILING)

_TABLE = "ÆØÅ0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ abcdefghijklmnopqrstuvwxyz.,-+/*#€"


def _page(name):
    def enc(s, errors="strict"):
        out = bytearray()
        for i, c in enumerate(s):
            k = _TABLE.find(c)
            if k < 0:
                raise UnicodeEncodeError(name, s, i, i + 1, "not in the code page")
            out.append(0x90 + k)
        return bytes(out), len(s)

    def dec(b, errors="strict"):
        b = bytes(b)
        for i, c in enumerate(b):
            if not 0x90 <= c < 0x90 + len(_TABLE):
                raise UnicodeDecodeError(name, b, i, i + 1, "not in the code page")
        return "".join(_TABLE[c - 0x90] for c in b), len(b)

    return codecs.CodecInfo(enc, dec, name=name)


def _triple(name):
    def enc(s, errors="strict"):
        for i, c in enumerate(s):
            if "\ud800" <= c <= "\udfff":
                raise UnicodeEncodeError(name, s, i, i + 1, "surrogate")
        return b"".join(ord(c).to_bytes(3, "big") for c in s), len(s)

    def dec(b, errors="strict"):
        b = bytes(b)
        out = []
        for i in range(0, len(b), 3):
            n = int.from_bytes(b[i : i + 3], "big")
            if len(b) - i < 3 or n > 0x10FFFF or 0xD800 <= n <= 0xDFFF:
                raise UnicodeDecodeError(name, b, i, min(i + 3, len(b)), "no character")
            out.append(chr(n))
        return "".join(out), len(b)

    return codecs.CodecInfo(enc, dec, name=name)


def _failing(name, error):
    def enc(s, errors="strict"):
        if set(s) & set("7F?"):
            raise error("the codec failed")
        return s.encode("latin-1"), len(s)

    def dec(b, errors="strict"):
        s = bytes(b).decode("latin-1")
        if set(s) & set("7F?"):
            raise error("the codec failed")
        return s, len(s)

    return codecs.CodecInfo(enc, dec, name=name)


def _search(name):
    name = name.replace("_", "-")
    if name == PAGE:
        return _page(name)
    if name == TRIPLE:
        return _triple(name)
    if name.startswith("pbt-fail-"):
        e = _ERRORS.get(name[9:])
        return e and _failing(name, e)
    return None


codecs.register(_search)
