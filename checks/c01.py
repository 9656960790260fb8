from checks.common import *
from pbt.engine import RandomTest
from pbt import faults

RULE = HEADLINE + "; encoded, then decoded, and compared. Non-trivial: the dict holds at least one field or a header and was accepted"
ASSUMPTIONS = (
    "text values are ones the configured codec itself maps back (value.encode(c).decode(c) == value)",
    "bitmap and length encodings write one byte per digit",
)


def check(src, spec, doc):
    given = gens.litter(src, doc, spec)
    s, enc = must_encode(given, spec) if src is not None else (None, None)
    dec, enc2 = must_decode(as_input(src, s), spec, "decode of what encode produced")
    want = {k: (v.upper() if spec[k]["data_enc"] == "b" else v) for k, v in doc.items()}
    for k in ("p", "1"):
        want.pop(k, None)
        if k in given:
            want[k] = given[k]
    if not model.has_header(spec):
        want.pop("h", None)
    expect(dec, want, "decode(encode(doc))")
    expect(enc2, enc, "encoded dictionary of decode versus the one of encode")
    return s


def roundtrip(src):
    spec, doc = gens.spec_and_doc(src)
    note_case(src, spec, doc)
    mark(src, spec, doc)
    s = check(src, spec, doc)
    if len(doc) > 1:
        src.nontrivial(bytes(s))


def giant(src):
    spec, doc = gens.giant(src)
    src.note(spec={k: spec[k] for k in doc}, sizes={k: len(v) for k, v in doc.items()})
    src.nontrivial(bytes(check(src, spec, doc)))


def many_messages(src):
    """One specification, several messages."""
    spec = gens.spec_for(src, 4 + src.draw(12))
    for _ in range(3):
        doc = gens.doc_for(src, spec)
        note_case(src, spec, doc)
        s = check(src, spec, doc)
        if len(doc) > 1:
            src.nontrivial(bytes(s))


def accepted_anyway(src):
    """A dict changed at random: whenever encode still accepts it, it has to come back."""
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=60)
    spec = faults.own(spec)
    for _ in range(1 + src.draw(3)):
        k = src.pick(list(doc))
        fs = spec[k]
        kind = src.draw(7)
        if kind == 0:
            doc[k] = doc[k][:-1]
        elif kind == 1:
            doc[k] = doc[k] + src.pick("0Ff Aé")
        elif kind == 2:
            doc[k] = doc[k] * 2
        elif kind == 3:
            fs["max_len"] = max(0, fs["max_len"] + src.pick((-1, 1, 2, -2)))
        elif kind == 4 and k not in ("t",):
            fs["len_count"] = src.pick(("bytes", "nibbles"))
        elif kind == 5:
            fs["data_enc"] = src.pick(("b", "ascii", "cp500", "utf-8", "utf-16-le"))
        else:
            doc[k] = src.pick(("", "0", "00", "A", "aB", " ", "F", "1F", "12345", "é"))
    note_case(src, spec, doc)
    if any(not _bijective(v, spec[k]) for k, v in doc.items()):
        raise Reject("lossy codec")
    s, enc, err = encode(dict(doc), spec)
    src.label("rejected by encode" if err else "accepted")
    if err is None:
        check(src, spec, doc)
        src.nontrivial(bytes(s), sorted(doc.items()))


def _bijective(v, fs):
    if fs["data_enc"] == "b":
        return True
    try:
        return v.encode(fs["data_enc"]).decode(fs["data_enc"]) == v
    except UnicodeError:
        return True


TESTS = [RandomTest("roundtrip", roundtrip, 40000), RandomTest("accepted-anyway", accepted_anyway, 14000), RandomTest("many-messages", many_messages, 8000), RandomTest("giant", giant, 100, guided=False)]
