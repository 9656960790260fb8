import gc
import tracemalloc
import weakref

from checks import mutate
from checks.common import *
from pbt import faults, gens, residue, sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; after one to four calls of encode, decode and pp, valid and refused, have ended and everything they returned was dropped, weak references to their "
    "arguments and errors have to be dead, no text of eight or more characters of the messages may be reachable from the package and no text that came to be "
    "reachable by the calls may be a piece of four or more characters of a value; memory is compared before and after many calls. Non-trivial: a value of eight or more characters was searched for; counted per distinct values"
)
ASSUMPTIONS = ("the caller drops what it passed and was given", "specifications may be kept", "inside longer texts only values of eight or more characters are searched for", "pieces that are numbers with a leading zero may be length indicators")
LEAST = 8
PIECE = 4


def needles(doc, parts):
    """Texts that would betray a copy of the message."""
    out = set()
    for k, v in doc.items():
        if isinstance(v, str) and len(v) >= LEAST and k != "p":
            out.add(v)
    for p in parts:
        if p.key not in ("p", "1", "t") and len(p.data) >= LEAST:
            out.add(bytes(p.data).decode("latin-1"))
    return {n for n in out if len(set(n)) > 3 and not residue.known(n)}


def values(doc, parts):
    """The fields of the message as text, as given and as sent."""
    out = {v for k, v in doc.items() if isinstance(v, str) and k not in ("p", "1", "t")}
    out |= {bytes(p.data).decode("latin-1") for p in parts if p.key not in ("p", "1", "t")}
    return {v for v in out if len(v) >= PIECE}


def watch(refs, o):
    refs.append((type(o).__name__, weakref.ref(o)))
    return o


def one_call(src, spec, refs, found, whole):
    """Makes one call with arguments that can be watched, drops everything."""
    k = src.draw(5)
    doc = gens.doc_for(src, spec, 5, 120)
    res = model.encode(doc, spec)
    found |= needles(doc, res.parts)
    whole |= values(doc, res.parts)
    if k <= 1:
        given = watch(refs, residue.Doc())
        for key, v in doc.items():
            given[key] = watch(refs, residue.Text(v)) if src.chance(2, 3) else v
        if k == 1 and len(doc) > 1:
            given[src.pick(list(doc))] = watch(refs, residue.Text(src.pick(("\ud800", "x" * 300, "?", ""))))
        _run(src, refs, "encode", lambda: sut.iso8583.encode(given, spec))
    elif k <= 3:
        wire = bytes(res.wire)
        if k == 3:
            wire = mutate.message(src, spec, res)
        data = watch(refs, residue.Changing(wire)) if src.chance(2, 3) else wire
        _run(src, refs, "decode", lambda: sut.iso8583.decode(data, spec))
    else:
        given = watch(refs, residue.Doc())
        for key, v in model.doc_dec(res.parts).items() if src.chance(1, 2) else model.doc_enc(res.parts).items():
            given[key] = watch(refs, residue.Text(v)) if isinstance(v, str) else watch(refs, residue.Doc(v))
        out = watch(refs, residue.Out())
        width = gens.widths(src)
        _run(src, refs, "pp", lambda: sut.iso8583.pp(given, spec, width[0], out, width[1]))


def _run(src, refs, what, fn):
    try:
        fn()
        src.label(f"{what} returned")
    except (sut.EncodeError, sut.DecodeError) as e:
        watch(refs, e)
        src.label(f"{what} raised")


def described(src):
    spec = gens.spec_for(src, 5, 120)
    for fs in spec.values():
        fs.setdefault("desc", "A field")
    return spec


def copies(found):
    out = []
    for s in residue.strings() + residue.later_strings():
        if LEAST <= len(s) < 10**6:
            text = s if isinstance(s, str) else bytes(s).decode("latin-1")
            out += [(s, n) for n in found if n in text]
    return out


def text_of(s):
    return s if isinstance(s, str) else bytes(s).decode("latin-1")


def reachable():
    return {text_of(s) for s in residue.strings() if PIECE <= len(s) < 10**6}


def pieces(before, spec, whole):
    """Texts that are new in the package and are pieces of values."""
    own = {text_of(v) for fs in spec.values() for v in fs.values() if isinstance(v, str)}
    out = []
    for s in reachable() - before - own:
        if len(set(s)) > 2 and not (s[0] == "0" and s.isdigit()) and not residue.known(s):
            out += [(s, v) for v in sorted(whole) if s in v]
    return out


def held(src):
    spec = described(src)
    refs, found, whole = [], set(), set()
    before = reachable()
    for _ in range(1 + src.draw(4)):
        one_call(src, spec, refs, found, whole)
    if any(r() is not None for _, r in refs):
        gc.collect()
    alive = [(name, r()) for name, r in refs if r() is not None]
    if alive:
        fail(f"after the calls {len(alive)} of their arguments or errors are still held, the first a {alive[0][0]}: {sut.short(alive[0][1], 200)}")
    if copies(found):
        gc.collect()
        for s, n in copies(found):
            fail(f"after the calls the package holds {sut.short(s, 200)}, which contains the value {n!r} of a message")
    for s, v in pieces(before, spec, whole):
        fail(f"after the calls the package holds {sut.short(s, 200)}, a piece of the value {sut.short(v, 200)} of a message")
    src.label(f"{min(len(found), 5)} values searched for")
    if found:
        src.nontrivial(*sorted(found))


def growth(src):
    """Memory after many different calls."""
    spec = described(src)
    n = 40
    calls = []
    doc = gens.doc_for(src, spec, 5, 120)
    for i in range(n):
        d = dict(doc)
        for k in d:
            if k not in ("h", "t") and len(d[k]) >= 4 and d[k].isascii():
                tail = f"{(i * 7919 + src.draw(10000)) % 10000:04d}"
                d[k] = d[k][:-4] + tail
        res = model.encode(d, spec)
        if not res.ok:
            raise Reject("cannot be varied")
        calls.append((d, bytes(res.wire), model.doc_enc(res.parts)))
    which = src.draw(4)
    bad = src.draw(30)

    def once():
        for d, wire, enc in calls:
            if which == 0:
                _silent(sut.iso8583.encode, dict(d), spec)
            elif which == 1:
                _silent(sut.iso8583.decode, wire, spec)
            elif which == 2:
                _silent(sut.iso8583.decode, wire[:-1 - bad], spec)
            else:
                sut.iso8583.pp(enc, spec, 30, residue.Out(), 40)

    calls, rest = calls[:8], calls
    once()
    calls = rest
    gc.collect(0)
    tracemalloc.start(1)
    try:
        before = tracemalloc.get_traced_memory()[0]
        once()
        if tracemalloc.get_traced_memory()[0] - before > 50 * n:
            gc.collect()
        grown = tracemalloc.get_traced_memory()[0] - before
    finally:
        tracemalloc.stop()
    src.note(doc=doc, grown=grown)
    if grown > 50 * n:
        fail(f"{n} calls of {('encode', 'decode', 'decode (refused)', 'pp')[which]} leave {grown} bytes allocated")
    if len(doc) > 1:
        src.nontrivial(repr(doc), which)


def _silent(fn, *a):
    try:
        fn(*a)
    except (sut.EncodeError, sut.DecodeError):
        pass


TESTS = [RandomTest("held", held, 9000, guided=False), RandomTest("growth", growth, 1500, guided=False)]
