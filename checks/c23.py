from checks.printing import *
from pbt.engine import RandomTest

RULE = (
    "dictionaries with any contents are printed with any description and line widths and compared with a reference rendering of the documented layout; "
    "text values that need escapes are only checked for alignment and for when they are folded. Non-trivial: a value is folded or a description cut; "
    "counted per distinct print-out"
)
ASSUMPTIONS = ("descriptions hold no line breaks", "widths are integers")


def widths(src):
    dw = src.draw(64) - 3 if src.chance(1, 2) else src.pick((30, 0, -1, 1, 28, 29))
    k = src.draw(4)
    if k == 0:
        lw = src.draw(160)
    elif k == 1:
        lw = max(0, 5 + (dw + 1 if dw > 0 else 0) + src.draw(12) - 2)
    elif k == 2:
        lw = src.pick((80, 80, 0, -7, 1, 40, 100, 10000))
    else:
        lw = 20 + src.draw(80)
    return dw, lw


def exact(src):
    doc, spec, kind = make_doc(src, plain=True)
    dw, lw = widths(src)
    compare(src, doc, spec, dw, lw)


def compare(src, doc, spec, dw, lw):
    src.note(doc=doc, desc_width=dw, line_width=lw, desc={k: spec[k]["desc"] for k in order(doc, spec)})
    text = sut.pp(doc, spec, desc_width=dw, line_width=lw)
    want = render(doc, spec, dw, lw)
    if text != want:
        for i, (a, b) in enumerate(zip(text.split("\n"), want.split("\n"))):
            if a != b:
                fail(f"line {i + 1} is {a!r}, expected {b!r} (desc_width={dw}, line_width={lw})")
        fail(f"printed {short(text)}, expected {short(want)} (desc_width={dw}, line_width={lw})")
    n = text.count("\n")
    folded = n > len(order(doc, spec))
    src.label("folded" if folded else "not folded")
    if folded or any(len(spec[k]["desc"]) > dw > 0 for k in order(doc, spec)):
        src.nontrivial(text)


def edge(src):
    """One entry whose literal is within a few columns of the line width."""
    key = src.pick(("t", "p", "2", "10", "100", "192", "1"))
    spec = make_spec(src, [key])
    dw = src.pick((30, 0, 7, 1))
    column = 5 + (dw + 1 if dw > 0 else 0)
    if src.chance(1, 2):
        v = gens._chars(src, "0123456789ABCDEF", src.draw(60))
        doc = {key: v}
        n = len(repr(v))
    else:
        lenb = src.pick((b"", b"\x05", b"05", b"\xf0\xf5", b"005"))
        data = bytes_value(src)[:80]
        doc = {key: {"len": lenb, "data": data}}
        n = len(repr(data)) + (len(repr(lenb)) + 1 if lenb else 0)
    lw = max(0, column + n + src.draw(7) - 3) if src.chance(1, 2) else max(0, column + n // (2 + src.draw(3)) + src.draw(7) - 3)
    compare(src, doc, spec, dw, lw)


def escaped(src):
    """Text with quotes and escapes: alignment and the decision to fold."""
    doc, spec, kind = make_doc(src, kinds=("dec",), descs=("", "x", "Amount", "A description that is quite a bit longer than thirty columns"))
    dw, lw = widths(src)
    src.note(doc=doc, desc_width=dw, line_width=lw)
    text = sut.pp(doc, spec, desc_width=dw, line_width=lw)
    column = 5 + (dw + 1 if dw > 0 else 0)
    groups = []
    for line in text.split("\n")[:-1]:
        if line.startswith(" "):
            if not groups:
                fail(f"the print-out starts with a continuation line: {line!r}")
            if not line.startswith(" " * column) or line[column : column + 1] not in ("'", '"'):
                fail(f"continuation line {line!r} is not aligned to column {column}")
            groups[-1].append(line)
        else:
            groups.append([line])
    keys = order(doc, spec)
    if len(groups) != len(keys):
        fail(f"{len(groups)} entries printed, expected {len(keys)}")
    for k, lines in zip(keys, groups):
        head = f"{k:3s}" + (f" {spec[k]['desc'][:dw]:<{dw}}" if dw > 0 else "") + ": "
        if not lines[0].startswith(head):
            fail(f"entry {k!r} starts with {lines[0]!r}, expected {head!r}")
        fits = len(repr(doc[k])) + column <= lw
        if fits and len(lines) > 1:
            fail(f"entry {k!r} was folded although {repr(doc[k])} fits into {lw} columns")
        if not fits and len(doc[k]) > max(1, lw - column - 2) and len(lines) == 1:
            fail(f"entry {k!r} was not folded although it has {len(doc[k])} characters and {lw - column} columns remain")
    if any(len(g) > 1 for g in groups):
        src.nontrivial(text)


def defaults(src):
    """The default widths are 30 and 80, in this position of the arguments."""
    doc, spec, kind = make_doc(src, plain=True)
    src.note(doc=doc)
    text = sut.pp(doc, spec)
    if text != sut.pp(doc, spec, 30, line_width=80) or text != render(doc, spec, 30, 80):
        fail(f"default layout: printed {short(text)}, expected {short(render(doc, spec, 30, 80))}")
    src.nontrivial(text)


TESTS = [
    RandomTest("exact", exact, 16000),
    RandomTest("edge", edge, 16000),
    RandomTest("escaped", escaped, 8000),
    RandomTest("defaults", defaults, 1600),
]
