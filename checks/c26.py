from checks import printing
from checks.common import *
from pbt import sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; the header is switched off in every way with anything in 'h', or switched on with every kind of header field, and the type varies in size, encoding "
    "and stated length. Non-trivial: 'h' holds something although switched off, a header of at least one byte is sent, or a type of another size than 4 "
    "bytes of text or 2 of binary is tried; counted per distinct (specification of header and type, value)"
)
ASSUMPTIONS = ()

ANYTHING = ("", "HDR", "60000", 7, None, b"ISO", ["x"], {"len": b"", "data": b"A"}, "é漢", "0" * 300, 3.5, object)


def stated(src, fs):
    """The same type or bitmap specification with any other length settings."""
    out = dict(fs, max_len=src.pick((0, 1, 2, 3, 4, 5, 6, 8, 16, -1, 10**6)), len_type=src.pick((0, 0, 1, 2, 3)), len_enc=src.pick(("ascii", "b", "bcd", "cp500")))
    k = src.draw(5)
    if k == 1:
        out["len_count"] = "bytes"
    elif k == 2:
        out["len_count"] = "nibbles"
    elif k == 3:
        out.update(left_pad="0", right_pad="F")
    return out


def disabled(src):
    spec, doc = gens.spec_and_doc(src, budget=100)
    spec = dict(spec)
    doc.pop("h", None)
    h = gens.field(src, big=50) if src.chance(1, 2) else {"data_enc": src.pick(("b", "ascii", "no-such-codec")), "len_enc": src.pick(("b", "bcd", "?")), "len_type": src.draw(4), "desc": "H"}
    h["max_len"] = src.pick((0, 0, -1, -2, -8, -(10**9)))
    spec["h"] = h
    spec["t"] = stated(src, spec["t"])
    value = src.pick(ANYTHING)
    note_case(src, spec, doc, h=value)
    want = model.encode(doc, spec)
    with_h = dict(doc)
    items = list(with_h.items())
    items.insert(src.draw(len(items) + 1), ("h", value))
    with_h = dict(items)
    for d in (doc, with_h):
        d = gens.litter(src, d, spec)
        before = d.get("h")
        s, enc = must_encode(d, spec, "encode without header")
        if bytes(s) != want.wire:
            fail(f"without header {short(bytes(s))} was sent instead of {short(want.wire)}; 'h' in the dict: {short(before)}")
        if "h" in enc:
            fail(f"the encoded dictionary holds a header: {enc['h']}")
        if d.get("h") is not before:
            fail(f"'h' was changed to {short(d.get('h'))}")
    dec, enc = must_decode(as_input(src, want.wire), spec, "decode without header")
    if "h" in dec or "h" in enc:
        fail(f"decode produced a header: {short(dec.get('h'))} {enc.get('h')}")
    expect(dec, model.doc_dec(want.parts), "decoded without header")
    for d, e in ((dec, dec), (enc, enc)):
        pd = with_desc(spec, d)
        plain = sut.pp(d, pd)
        shown = sut.pp(dict(d, h=value), pd)
        if plain != shown:
            fail(f"the header is switched off, but with 'h' in the dict pp prints {short(shown)} instead of {short(plain)}")
    src.nontrivial(sorted(map(repr, spec["h"].items())), repr(value), want.wire)


def with_desc(spec, doc):
    return {k: dict(v, desc="d") for k, v in spec.items()}


def enabled(src):
    spec, doc = gens.spec_and_doc(src, budget=100)
    spec, doc = dict(spec), dict(doc)
    h = gens.field(src, big=src.pick((12, 60, 400)))
    if h["max_len"] <= 0:
        h["max_len"] = 3
    spec["h"] = h
    spec["t"] = stated(src, spec["t"])
    doc.pop("h", None)
    bare = dict(doc)
    doc["h"] = gens.value(src, h, 200)
    if src.chance(1, 2):
        doc = {"h": doc["h"], **bare}
    off = dict(spec, h=dict(h, max_len=0))
    note_case(src, spec, doc)
    lenb, data = model.field_bytes(doc["h"], h)
    body = model.encode(bare, off).wire
    want = lenb + data + body
    s, enc = must_encode(gens.litter(src, doc, spec), spec, "encode with header")
    if bytes(s) != want:
        fail(f"with header {short(bytes(s))} was sent instead of {short(want)}")
    if enc.get("h") != {"len": lenb, "data": data}:
        fail(f"header is {short(enc.get('h'))} in the encoded dictionary")
    dec, enc2 = must_decode(as_input(src, want), spec, "decode with header")
    if dec.get("h") != model.norm(doc["h"], h) or enc2.get("h") != {"len": lenb, "data": data}:
        fail(f"header decoded as {short(dec.get('h'))} {short(enc2.get('h'))}")
    rest, _ = must_decode(as_input(src, body), off, "decode of the message without its header")
    expect({k: v for k, v in dec.items() if k != "h"}, rest, "content after the header")
    # first in both dictionaries and in print-outs
    for d, what in ((dec, "decoded dictionary"), (enc, "encoded dictionary of encode"), (enc2, "encoded dictionary of decode")):
        if list(d)[:2] != ["h", "t"]:
            fail(f"the {what} starts with {list(d)[:3]}")
        lines = sut.pp(d, with_desc(spec, d), line_width=10**6).split("\n")
        if not lines[0].startswith("h  ") or not lines[1].startswith("t  ") or not lines[2].startswith("p  "):
            fail(f"pp of the {what} starts with {lines[:3]}")
        printed = lines[0][lines[0].index(": ") + 2 :]
        want_text = repr(dec["h"]) if d is dec else (repr(lenb) + " " if lenb else "") + repr(data)
        if printed != want_text:
            fail(f"pp prints the header of the {what} as {short(printed)} instead of {short(want_text)}")
    # required
    a, _, err = encode(dict(bare), spec)
    if err is None or err.field != "h":
        fail(f"encode without the required header: {err or short(bytes(a))}")
    if want[: len(lenb)]:
        a, _, err = decode(want[: len(lenb) - 1], spec)
        if err is None or err.field != "h":
            fail(f"decode of a message that ends in the header's length: {err or a}")
    if data:
        cut = src.draw(len(data))
        a, _, err = decode(lenb + data[:cut], spec)
        if err is None or err.field != "h":
            fail(f"decode of a message that ends in the header: {err or a}")
        src.nontrivial(sorted(map(repr, h.items())), doc["h"], want)


def mistype(src):
    """Types of any size: exactly 4 bytes of text or 2 bytes of binary, whatever the specification states."""
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=40)
    spec, doc = dict(spec), dict(doc)
    spec["t"] = t = stated(src, spec["t"])
    binary = model.is_bin(t)
    width = 2 if binary else 4
    n = src.pick((4, 2, 0, 1, 3, 5, 6, 8, 16, 2, 4)) if src.chance(4, 5) else src.draw(300)
    if binary:
        doc["t"] = gens.hexstr(src, 2 * n)
    else:
        v = gens.text(src, t["data_enc"], n, True)
        if v is None:
            raise Reject("no text of this size")
        doc["t"] = v
    note_case(src, spec, doc)
    want = model.encode(doc, spec)
    if want.ok != (n == width):
        raise AssertionError(want)
    src.label(f"{'binary' if binary else 'text'} type of {n if n < 9 else '9+'} bytes")
    s, enc, err = encode(gens.litter(src, doc, spec), spec)
    if n == width:
        if err is not None:
            fail(f"a type of {n} bytes was rejected: {err}")
        if bytes(s) != want.wire or enc["t"]["len"] != b"":
            fail(f"sent {short(bytes(s))} instead of {short(want.wire)}")
        dec, enc2 = must_decode(as_input(src, want.wire), spec)
        if dec["t"] != model.norm(doc["t"], t) or enc2["t"] != enc["t"]:
            fail(f"the type decoded as {dec['t']!r} {enc2['t']}")
        # it takes the same bytes whatever length is stated
        other = dict(spec, t=stated(src, t))
        expect(must_encode(dict(doc), other)[0], bytearray(want.wire), "the message under another stated length of the type")
        expect(must_decode(want.wire, other)[0], dec, "the decoded message under another stated length of the type")
    else:
        if err is None:
            fail(f"a type of {n} bytes was accepted: {enc['t']}")
        if err.field != "t":
            fail(f"a type of {n} bytes is reported for field {err.field}: {err}")
        if not model.has_header(spec):
            part = model.data_bytes(doc["t"], t, "bytes")[0]
            if n < width:
                d, _, err = decode(part, spec)
                if err is None or err.field != "t":
                    fail(f"decode of a message of {len(part)} bytes: {err or d}")
    a, _, err = encode({k: v for k, v in doc.items() if k != "t"}, spec)
    if err is None or err.field != "t":
        fail(f"encode without type: {err or short(bytes(a))}")
    src.nontrivial(sorted(map(repr, t.items())), doc["t"], want.wire)


def follows(src):
    """Message type and header boundaries on decode: the header takes its bytes, the type the next ones."""
    spec = {k: dict(v) for k, v in gens.PLAIN_HEAD.items()}
    h = gens.field(src, big=40)
    if src.chance(1, 4):
        h["max_len"] = 0
    spec["h"] = h
    spec["t"] = stated(src, gens.type_spec(src))
    s = bytes([src.draw(256) if src.chance(1, 3) else src.pick(b"0123456789 \x00\x01\x02\x03\xf0\xf1\xf2") for _ in range(src.draw(60))])
    if src.chance(1, 2) and model.has_header(spec):
        lenb, data = model.field_bytes(gens.value(src, h, 40), h)
        s = lenb + data + s
    if src.chance(1, 2):
        s += b"0200" + bytes(8)
    want = model.decode(s, spec)
    if want.unspecified:
        raise Reject("unspecified")
    note_case(src, spec, None, s)
    dec, enc, err = decode(as_input(src, s), spec)
    if (err is None) != want.ok:
        fail(f"decode of {s!r}: {err or dec}, expected {want.kind or model.doc_dec(want.parts)}")
    if err is not None:
        if err.field != want.field:
            fail(f"decode of {s!r} failed at {err.field} ({err}), expected {want.field} ({want.kind})")
        dec = err.doc_dec
    for p in want.parts:
        if p.key in ("h", "t") and dec.get(p.key) != p.value:
            fail(f"{p.key!r} decoded as {dec.get(p.key)!r}, expected {p.value!r}; s={s!r}")
    if "h" in dec and not model.has_header(spec):
        fail("a header was decoded although it is switched off")
    if want.parts:
        src.nontrivial(s, sorted(map(repr, h.items())))


TESTS = [
    RandomTest("disabled", disabled, 8000),
    RandomTest("enabled", enabled, 8000),
    RandomTest("type-size", mistype, 12000),
    RandomTest("follows", follows, 16000),
]
