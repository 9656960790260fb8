from checks.common import *
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; a decoded message is encoded, as it was returned, under up to three other specifications generated to fit its values (other data and length "
    "encodings, fixed or variable, units, pads, header and bitmap settings), each result decoded, and the last one encoded under the first "
    "specification again. Non-trivial: the message holds at least one field; counted per distinct (message, chain of messages)"
)
ASSUMPTIONS = ("values are representable under every specification of the chain",)


def fits(v, fs):
    """True if v comes back unchanged from the data encoding of fs."""
    try:
        data, size = model.data_bytes(v, fs, model.unit(fs))
        if model.is_bin(fs):
            return v == v.upper()
        return data.decode(fs["data_enc"]) == v
    except (model.Bad, UnicodeError):
        return False


def refit(src, v):
    """A field specification unlike the one v comes from, but one that can carry it."""
    for i in range(8):
        fs = gens.field(src, big=200)
        if fits(v, fs):
            break
        fs["data_enc"] = "b" if model.is_bin(fs) is False and v and not set(v) - set("0123456789ABCDEF") else src.pick(("utf-8", "latin-1", "cp500"))
        if fits(v, fs):
            break
    else:
        raise Reject("no encoding for the value")
    _, size = model.data_bytes(v, fs, model.unit(fs))
    if fs["len_type"] == 0:
        fs["max_len"] = size
    else:
        while model.capacity(fs) < size:
            fs["len_type"] += 1
        fs["max_len"] = max(fs["max_len"], size) if src.chance(2, 3) else size
    return fs


def translate(src, dec):
    """(specification, dict) for carrying the decoded message dec under other settings."""
    spec = gens.skeleton(src)
    doc = dict(dec)
    if model.has_header(spec):
        if "h" in doc:
            spec["h"] = refit(src, doc["h"])
            spec["h"]["max_len"] = spec["h"]["max_len"] or 1
            if spec["h"]["len_type"] == 0 and doc["h"] == "":
                raise Reject("empty fixed header")
        else:
            doc["h"] = model.norm(gens.value(src, spec["h"], 60), spec["h"])
    for _ in range(6):
        fs = spec["t"]
        try:
            data, size = model.data_bytes(doc["t"], fs, "bytes")
            if size == model.type_width(spec) and fits(doc["t"], fs):
                break
        except model.Bad:
            pass
        spec["t"] = gens.type_spec(src)
    else:
        raise Reject("no encoding for the type")
    for k in doc:
        if k not in ("h", "t", "p", "1"):
            spec[k] = refit(src, doc[k])
    return spec, doc


def content(dec):
    return {k: v for k, v in dec.items() if k not in ("h", "p", "1")}


def chain(src):
    spec, doc = gens.spec_and_doc(src, most=6, budget=300)
    note_case(src, spec, doc)
    first, _ = must_encode(dict(doc), spec)
    if src.chance(1, 3):
        # the same message as another sender may write it: in the other case, with an empty secondary bitmap announced
        src.label("written by another sender")
        sent = model.encode(dict(doc), spec, gens.announce(src), gens.recaser(src)).wire
        dec, _ = must_decode(sent, spec)
    else:
        dec, _ = must_decode(first, spec)
    one = model.layout([int(k) for k in doc if k.isdigit() and k != "1"])
    bitmaps = {k: v for k, v in zip(("p", "1"), one) if v is not None}
    now, header = dec, dec.get("h")
    wires = []
    for i in range(1 + src.draw(3)):
        other, now = translate(src, now)
        src.note(**{f"specification_{i + 2}": {k: other[k] for k in other if k in now or k == "h"}})
        if src.chance(1, 4):
            now = dict(src.shuffle(list(now.items())))
        sent = dict(now)
        wire, enc = must_encode(now, other, f"encoding a decoded message under specification {i + 2}")
        wires.append(bytes(wire))
        got, got_enc = must_decode(wire, other)
        expect(content(got), content(sent), f"content after translation to specification {i + 2}")
        expect({k: got[k] for k in ("p", "1") if k in got}, bitmaps, "bitmaps after translation")
        if model.has_header(other):
            expect(got.get("h"), sent["h"], "header after translation")
        elif "h" in got:
            fail(f"a header {got['h']!r} appears under a specification without one")
        expect(got_enc, enc, "encoded dictionaries of encode and decode")
        now = got
    if header is not None:
        now["h"] = header
    back, _ = must_encode(now, spec, "encoding under the first specification again")
    expect(back, first, "the message after going through other specifications and back")
    mark(src, spec, doc)
    if len(dec) > 2:
        src.nontrivial(bytes(first), wires)


TESTS = [RandomTest("chain", chain, 16000)]
