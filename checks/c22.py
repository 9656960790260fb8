from checks.printing import *
from pbt.engine import RandomTest

RULE = (
    "decoded and encoded dictionaries with any subset of the keys, any contents and any insertion order are printed with any widths; the print-out is "
    "read back and compared. Non-trivial: at least two entries or a folded value; counted per distinct print-out"
)
ASSUMPTIONS = ("the specification describes every numeric key of the dictionary", "numeric keys are canonical field numbers")
SIMPLE = ("", "x", "Amount", "Primary Account Number (PAN)", "A description that is quite a bit longer than the thirty columns", "-", "100% of it %s %d", "50%", "{0} {x} {", "a\tb", " ", "漢字 é", "$x \\n <&>")


def compare(text, doc, spec, kind):
    keys = order(doc, spec)
    got = read(text, keys)
    if [k for k, _ in got] != keys:
        fail(f"printed keys {[k for k, _ in got]}, expected {keys}")
    for k, lits in got:
        v = doc[k]
        if kind == "dec":
            if not all(type(x) is str for x in lits) or not lits or "".join(lits) != v:
                fail(f"entry {k!r} prints {short(lits)}, its value is {short(v)}")
            if len(lits) > 1 and "" in lits:
                fail(f"entry {k!r} prints an empty piece: {short(lits)}")
            continue
        want = []
        if v["len"]:
            want.append(v["len"])
            if not lits or lits[0] != v["len"]:
                fail(f"entry {k!r} prints {short(lits)}, its length bytes are {v['len']!r}")
            lits = lits[1:]
        if not lits or not all(type(x) is bytes for x in lits) or b"".join(lits) != v["data"]:
            fail(f"entry {k!r} prints data {short(lits)}, its data is {short(v['data'])}")


def lossless(src):
    doc, spec, kind = make_doc(src, SIMPLE)
    dw = src.pick((30, 30, 0, -5, 1, 10, 60))
    lw = src.pick((80, 80, 0, -1, 5, 20, 30, 39, 40, 41, 45, 60, 79, 81, 100, 132, 1000)) if src.chance(2, 3) else src.draw(140)
    if src.chance(1, 6):
        for k in ("name", "T", "", " ", "h2", "-1"):
            if src.chance(1, 2):
                doc[k] = "not printed"
        if src.chance(1, 3):
            doc[5] = doc[None] = "not printed"
    src.note(doc=doc, desc_width=dw, line_width=lw, header=spec["h"]["max_len"])
    src.label(kind)
    printable = {k: v for k, v in doc.items() if k in spec}
    text = sut.pp(doc, spec, desc_width=dw, line_width=lw)
    compare(text, printable, spec, kind)
    n = text.count("\n")
    src.label("folded" if n > len(order(printable, spec)) else "not folded")
    if n > 1:
        src.nontrivial(text)


def real_messages(src):
    """What encode and decode return."""
    spec, doc = gens.spec_and_doc(src, budget=200 if src.chance(7, 8) else 3000)
    for fs in spec.values():
        fs["desc"] = src.pick(SIMPLE)
    given = dict(doc)
    s, enc = must_encode(given, spec)
    dec, enc2 = must_decode(bytes(s), spec)
    note_case(src, spec, doc)
    dw = src.pick((30, 0, 12))
    lw = src.pick((80, 50, 30, 200))
    for d, kind in ((given, "dec"), (dec, "dec"), (enc, "enc"), (enc2, "enc")):
        compare(sut.pp(d, spec, dw, line_width=lw), d, spec, kind)
    if len(doc) > 1:
        src.nontrivial(bytes(s))


def giant(src):
    """Values of up to a million bytes."""
    doc, spec, kind = make_doc(src, SIMPLE)
    keys = order(doc, spec)
    if not keys:
        raise Reject("nothing to print")
    k = src.pick(keys)
    n = src.pick((65535, 65536, 65537, 100000, 2**17, 10**6))
    if kind == "dec":
        doc[k] = gens._chars(src, src.pick(("0123456789", ODD_TEXT.replace("\ud800", ""))), n)
    else:
        doc[k]["data"] = (bytes_value(src) or b"0") * n
        doc[k]["data"] = doc[k]["data"][: n // 4]
    dw, lw = src.pick((30, 0)), src.pick((80, 60, 200, 5000))
    src.note(key=k, size=n, kind=kind, desc_width=dw, line_width=lw)
    text = sut.pp(doc, spec, desc_width=dw, line_width=lw)
    compare(text, doc, spec, kind)
    src.nontrivial(text)


TESTS = [RandomTest("lossless", lossless, 24000), RandomTest("real-messages", real_messages, 5000), RandomTest("giant", giant, 40, guided=False)]
