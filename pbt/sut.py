"""The code under test, imported from the working tree of REPO (never from a cached or installed copy), and thin
wrappers that turn any departure from the documented call protocol into a Violation."""

import builtins
import os
import sys
import types

from pbt import engine
from pbt.engine import REPO, Hang, Violation, fail

sys.dont_write_bytecode = True
# no .pyc of REPO is read: a cached one could be stale (same size and time stamp) after a change
sys.pycache_prefix = f"/nonexistent/verif-pycache-{os.getpid()}"
sys.path.insert(0, REPO)
import iso8583  # noqa: E402
import iso8583.decoder  # noqa: E402
import iso8583.encoder  # noqa: E402
import iso8583.specs  # noqa: E402
import iso8583.tools  # noqa: E402

_pkg = os.path.realpath(os.path.join(REPO, "iso8583")) + os.sep
if not os.path.realpath(iso8583.__file__).startswith(_pkg):
    print(f"imported {iso8583.__file__} instead of the package in {REPO}", file=sys.stderr)
    sys.exit(2)

DecodeError = iso8583.DecodeError
EncodeError = iso8583.EncodeError


def _modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "iso8583" or n.startswith("iso8583.")) and m is not None]


def _walk_code(code, seen):
    if code in seen:
        return
    seen.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, seen)


def code_objects():
    """Code objects of every function and method defined in the package."""
    seen = []
    for m in _modules():
        for obj in list(vars(m).values()):
            objs = [obj]
            if isinstance(obj, type) and obj.__module__ == m.__name__:
                objs = list(vars(obj).values())
            for o in objs:
                o = getattr(o, "__func__", getattr(o, "__wrapped__", o))
                if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith((_pkg, os.path.join(REPO, ""))):
                    _walk_code(o.__code__, seen)
    return seen


CODES = code_objects()


class Dictionary:
    """Constants of the code under test; generators mix them in, so that a case that only one particular length, field
    number, byte or text triggers is tried."""

    def __init__(self):
        ints, strs, blobs = set(), set(), set()
        seen = set()

        def take(v, depth=0):
            if depth > 4:
                return
            if isinstance(v, bool) or v is None:
                return
            if isinstance(v, int):
                for d in (-1, 0, 1):
                    if 0 <= v + d <= 70000:
                        ints.add(v + d)
            elif isinstance(v, str):
                if 0 < len(v) <= 40 and "\n" not in v:
                    strs.add(v)
                if v.isascii() and v.isdigit() and len(v) <= 5:
                    take(int(v), depth)
            elif isinstance(v, (bytes, bytearray)):
                if 0 < len(v) <= 40:
                    blobs.add(bytes(v))
            elif isinstance(v, (tuple, list, set, frozenset, range)):
                if isinstance(v, range):
                    take(v.start), take(v.stop), take(v.step)
                elif len(v) <= 300 and id(v) not in seen:
                    seen.add(id(v))
                    for x in v:
                        take(x, depth + 1)
            elif isinstance(v, dict):
                if len(v) <= 300 and id(v) not in seen:
                    seen.add(id(v))
                    for k, x in v.items():
                        take(k, depth + 1)
                        take(x, depth + 1)

        for code in CODES:
            for c in code.co_consts:
                take(c)
        for m in _modules():
            for name, v in list(vars(m).items()):
                if m is iso8583.specs and isinstance(v, dict):
                    continue
                if not name.startswith("__"):
                    take(v)
        self.ints = sorted(ints)
        self.fields = [str(i) for i in self.ints if 2 <= i <= 192 and i != 65]
        self.small = [i for i in self.ints if i <= 300]
        self.strs = sorted(s for s in strs if len(s) <= 24)
        self.hexes = sorted(s.upper() for s in strs if len(s) <= 24 and all(c in "0123456789abcdefABCDEF" for c in s))
        self.hexes += sorted(b.hex().upper() for b in blobs)
        self.codecs = sorted(s for s in strs if _is_text_codec(s))
        self.bytes = sorted(blobs)

    def size(self):
        return len(self.ints) + len(self.strs) + len(self.bytes)


def _is_text_codec(name):
    import codecs

    try:
        return bool(codecs.lookup(name)._is_text_encoding) and len("0".encode(name)) == 1
    except Exception:
        return False


DICT = Dictionary()


def text_of_exc(e):
    return f"{type(e).__name__}: {e}"


def encode(doc, spec):
    """(message bytes, doc_enc, None) or (None, None, EncodeError)"""
    global _last
    try:
        r = iso8583.encode(doc, spec)
    except EncodeError as e:
        return None, None, e
    except Hang:
        raise
    except Exception as e:
        fail(f"encode raised {text_of_exc(e)} instead of returning or raising EncodeError; doc={short(doc)}")
    if type(r) is not tuple or len(r) != 2 or type(r[0]) is not bytearray or type(r[1]) is not dict:
        fail(f"encode did not return (bytearray, dict): {short(r)}")
    _last = ("encode", None, r[1])
    return r[0], r[1], None


def decode(s, spec):
    """(doc_dec, doc_enc, None) or (None, None, DecodeError)"""
    global _last
    try:
        r = iso8583.decode(s, spec)
    except DecodeError as e:
        return None, None, e
    except Hang:
        raise
    except Exception as e:
        fail(f"decode raised {text_of_exc(e)} instead of returning or raising DecodeError; s={short(bytes(s))}")
    if type(r) is not tuple or len(r) != 2 or type(r[0]) is not dict or type(r[1]) is not dict:
        fail(f"decode did not return (dict, dict): {short(r)}")
    _last = ("decode", r[0], r[1])
    return r[0], r[1], None


_last = None


def _malformed():
    if _last is None:
        return None
    what, dec, enc = _last
    if dec is not None and not all(type(k) is str and type(v) is str for k, v in dec.items()):
        return f"{what} returned a decoded dictionary that is not all str: {short(dec)}"
    for k, v in enc.items():
        if type(k) is not str or type(v) is not dict or set(v) != {"len", "data"} or type(v["len"]) is not bytes or type(v["data"]) is not bytes:
            return f"{what} returned an encoded dictionary with a malformed entry {k!r}: {short(v)}"
    return None


engine.malformed_result = _malformed


def must_encode(doc, spec, why="encode of a valid dict"):
    s, e, err = encode(doc, spec)
    if err is not None:
        fail(f"{why} raised EncodeError {err}; doc={short(doc)}")
    return s, e


def must_decode(s, spec, why="decode of a well-formed message"):
    d, e, err = decode(s, spec)
    if err is not None:
        fail(f"{why} raised DecodeError {err}; s={short(bytes(s))}")
    return d, e


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, s):
        if type(s) is not str:
            fail(f"pp wrote {s!r}, which is not a str")
        self.parts.append(s)
        return len(s)

    def text(self):
        return "".join(self.parts)


def pp(doc, spec, *args, **kw):
    """Text printed by pp."""
    sink = Sink()
    try:
        r = iso8583.pp(doc, spec, *args, stream=sink, **kw)
    except Violation:
        raise
    except Exception as e:
        fail(f"pp raised {text_of_exc(e)}; doc={short(doc)} {args} {kw}")
    if r is not None:
        fail(f"pp returned {r!r}")
    return sink.text()


def short(v, n=600):
    try:
        r = builtins.repr(v)
    except Exception:
        if isinstance(v, (dict, list, tuple, set)):
            r = f"{type(v).__name__} of " + ", ".join(short(x, 60) for x in (v.items() if isinstance(v, dict) else v)) if len(v) < 400 else "?"
        else:
            r = f"<{type(v).__name__} without repr>"
    return r if len(r) <= n else r[: n - 30] + f"... ({len(r)} chars)"


def same(a, b):
    """Equal and of the same types all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def expect(got, want, what):
    if not same(got, want):
        fail(f"{what}: got {short(got)}, expected {short(want)}{_diff(got, want)}")


def _diff(got, want):
    if isinstance(got, dict) and isinstance(want, dict):
        out = []
        for k in list(got) + [k for k in want if k not in got]:
            if k not in want:
                out.append(f"{k!r} is extra: {short(got[k], 120)}")
            elif k not in got:
                out.append(f"{k!r} is missing: {short(want[k], 120)}")
            elif not same(got[k], want[k]):
                out.append(f"{k!r}: got {short(got[k], 120)}, expected {short(want[k], 120)}")
        if out:
            return "; " + "; ".join(out[:6])
    return ""
