import copy

from checks import mutate, printing
from checks.common import *
from pbt import faults, sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; a defect or random change makes decode or encode fail, and the partial dictionaries the error carries are printed by pp at generated "
    "widths, compared with a reference rendering. Non-trivial: the partial "
    "dictionary holds at least one part; counted per distinct print-out"
)
ASSUMPTIONS = ("the specification describes every field of the partial dictionary and has a desc for each",)


def describe(src, spec):
    return {k: dict(fs, desc=src.pick(printing.DESCS)) for k, fs in spec.items()}


def form(partial, what):
    """Partial dictionaries look like complete ones, the entry of the failing part included."""
    if type(partial) is not dict:
        fail(f"the {what} is a {type(partial).__name__}")
    if "encoded" in what:
        check_entries(partial, what)
    for k, v in partial.items():
        if "encoded" not in what and (type(k) is not str or type(v) is not str):
            fail(f"the {what} holds {k!r}: {v!r}")


def same_parts(err):
    """A part that decode has started on is in both dictionaries."""
    if set(err.doc_dec) != set(err.doc_enc):
        fail(f"the partial dictionaries name different parts: {list(err.doc_dec)} decoded, {list(err.doc_enc)} encoded ({err})")


def decoded_from(data, fs, value):
    """Some beginning of data decodes to value."""
    if fs["data_enc"] == "b":
        return value in (data.hex().upper(), data.hex().upper()[1:]) or data.hex().upper().startswith(value)
    for n in range(len(data), -1, -1):
        try:
            if data[:n].decode(fs["data_enc"]) == value:
                return True
        except Exception:
            pass
    return False


def real_bytes(err, wire, spec):
    """What decode shows of the message is a beginning of the message, the failing part included."""
    shown = b"".join(e["len"] + e["data"] for e in err.doc_enc.values())
    if wire[: len(shown)] != shown:
        fail(f"the partial encoded dictionary {short(err.doc_enc)} is no beginning of the message {short(wire)} ({err})")
    k = err.field
    if k in err.doc_dec and k in spec and not decoded_from(err.doc_enc[k]["data"], spec[k], err.doc_dec[k]):
        fail(f"the failing part {k!r} is shown as {short(err.doc_dec[k])}, which no part of its data {short(err.doc_enc[k]['data'])} stands for ({err})")


def real_encoding(err, doc, spec):
    """What encode shows of the failing part is its encoding, as far as it got."""
    k = err.field
    if k not in err.doc_enc or k in ("p", "1") or k not in doc:
        return
    got = err.doc_enc[k]
    try:
        data, size = model.data_bytes(doc[k], spec[k], "bytes" if k == "t" else model.unit(spec[k]))
    except model.Bad:
        data, size = b"", 0
    if got["data"] not in (b"", data):
        fail(f"the partial encoded dictionary shows {short(got)} of the failing part {k!r}, whose data is encoded as {short(data)} ({err})")
    if got["len"]:
        fs, n = spec[k], len(got["len"])
        if fs["len_enc"] == "b":
            want = size.to_bytes(n, "big") if size < 256**n else None
        elif fs["len_enc"] == "bcd":
            want = bytes.fromhex(str(size).zfill(2 * n)) if size < 100**n else None
        else:
            want = str(size).zfill(fs["len_type"]).encode(fs["len_enc"])
        if got["len"] != want:
            fail(f"the partial encoded dictionary shows {short(got)} of the failing part {k!r}, whose length is {size} ({err})")


def show(src, partial, spec, what):
    if any(k not in spec for k in partial):
        raise Reject("the specification does not describe a field")
    form(partial, what)
    widths = gens.widths(src)
    before = copy.deepcopy(partial)
    text = sut.pp(partial, spec, widths[0], line_width=widths[1])
    if not same(partial, before):
        fail(f"pp changed the {what}")
    want = printing.render(partial, spec, *widths)
    if text != want:
        fail(f"the print-out of the {what} is {short(text)}, expected {short(want)}; {short(partial)}")
    src.note(partial=partial)
    src.label(f"{what}: {min(len(partial), 6)} parts")
    if partial:
        src.nontrivial(text)


def decoding(src):
    if src.chance(1, 2):
        spec, doc, res, name, spec, wire = faults.broken_wire(src, budget=200)
    else:
        spec, doc, res = gens.wire(src, most=6, budget=200)
        wire = mutate.message(src, spec, res) if src.chance(1, 2) else bytes(res.wire[: src.draw(len(res.wire) + 1)])
    spec = describe(src, spec)
    note_case(src, spec, doc, wire)
    _, _, err = decode(as_input(src, wire), spec)
    if err is None:
        raise Reject("accepted")
    same_parts(err)
    for d in (err.doc_dec, err.doc_enc):
        form(d, "partial encoded dictionary" if d is err.doc_enc else "partial decoded dictionary")
    real_bytes(err, bytes(wire), spec)
    which = src.draw(2)
    partial = err.doc_enc if which else err.doc_dec
    show(src, partial, spec, "partial encoded dictionary" if which else "partial decoded dictionary")


def encoding(src):
    spec, doc, names = faults.broken_doc(src, most=6, budget=200, count=1 + src.draw(2))
    spec = describe(src, spec)
    note_case(src, spec, doc)
    _, _, err = encode(doc, spec)
    if err is None:
        raise Reject("accepted")
    form(err.doc_enc, "partial encoded dictionary of encode")
    real_encoding(err, doc, spec)
    show(src, err.doc_enc, spec, "partial encoded dictionary of encode")


def given_dict(src):
    """The dict handed to encode, which the error refers to."""
    spec, doc, names = faults.broken_doc(src, most=5, budget=100)
    if not all(type(v) is str for v in doc.values()) or not all(k in ("h", "t", "p", "1") or model.is_field_key(k) for k in doc):
        raise Reject("not printable")
    spec = describe(src, spec)
    note_case(src, spec, doc)
    _, _, err = encode(doc, spec)
    if err is None:
        raise Reject("accepted")
    show(src, err.doc_dec, spec, "dict encode refused")


TESTS = [RandomTest("decoding", decoding, 16000), RandomTest("encoding", encoding, 9000), RandomTest("given-dict", given_dict, 4000)]
