"""Documents for pp, and a reader of what it prints."""

import ast
import re

from checks.common import *
from pbt import sut
from pbt.engine import Reject

LITERAL = re.compile(r"""b?(?:'(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*")""")
DESCS = ("", "x", "Amount", "Primary Account Number (PAN)", "A description that is quite a bit longer than the thirty columns", "Séparé ünïcode 漢字", "padded  ", "  indented", "100% of it %s %d", "{0} {x} {", "a\tb\tc", "two\nlines\r\n", "it's \\n: 'quoted' \"", "e\u0301\u200b\u202e combined", "x" * 500, " ")
ODD_TEXT = "'\"\\\n\r\t\x00\x7f\x80é漢😀\u2028\ud800 a1"
KEYS = tuple(str(n) for n in range(1, 193))


def text_value(src, plain=False):
    k = src.draw(6)
    n = src.draw(12) if k <= 1 else src.draw(100) if k <= 3 else gens.length(src, 0, 400 if src.chance(7, 8) else 5000)
    if plain or k % 2 == 0:
        return gens._chars(src, "0123456789ABCDEF abcxyz", n)
    if src.chance(1, 2):
        return gens._chars(src, ODD_TEXT, n)
    return gens._chars(src, gens.ASCII_SETS[4], n)


def bytes_value(src):
    k = src.draw(6)
    n = src.draw(12) if k <= 1 else src.draw(100) if k <= 3 else gens.length(src, 0, 400 if src.chance(7, 8) else 5000)
    k = src.draw(4)
    if k == 0:
        return bytes(ord(c) for c in gens._chars(src, "0123456789ABCDEF", n))
    if k == 1:
        return bytes(ord(c) for c in gens._chars(src, "'\"\\\n\r\t\x00\xff a1'", n))
    if k == 2 and n:
        m = 1 + src.draw(min(n, 9))
        piece = bytes([src.draw(256) for _ in range(m)])
        return (piece * (n // m + 1))[:n]
    return bytes([src.draw(256) for _ in range(min(n, 60))]) * (1 + n // 60)


def make_spec(src, keys, descs=DESCS):
    spec = gens.skeleton(src)
    for k in keys:
        if k not in spec:
            if len(keys) <= 30 and src.chance(1, 2):
                spec[k] = gens.field(src, big=200)
            else:
                spec[k] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 2, "max_len": 99}
    for k in spec:
        spec[k]["desc"] = src.pick(descs)
    return spec


def make_doc(src, descs=DESCS, plain=False, kinds=("dec", "enc")):
    """(doc, spec, kind) with any subset of the keys, in any order."""
    keys = []
    for k in ("t", "p", "h"):
        if src.chance(3, 4):
            keys.append(k)
    if src.chance(1, 3):
        keys.append("1")
    numbers = gens.field_set(src, 6)
    if len(numbers) > 40 and src.chance(3, 4):
        numbers = numbers[:40]
    keys += [str(n) for n in numbers]
    if src.chance(1, 12):
        keys.append("65")
    dense = len(keys) > 30
    keys = src.shuffle(keys) if not dense else keys[:: src.pick((1, -1))]
    kind = src.pick(kinds)
    doc = {}
    pool = [text_value(src, plain) if kind == "dec" else bytes_value(src) for _ in range(3)] if dense else ()
    for i, k in enumerate(keys):
        if dense and i % 9:
            doc[k] = pool[i % 3][:40] if kind == "dec" else {"len": b"" if i % 2 else b"%d" % i, "data": pool[i % 3][:40]}
        elif kind == "dec":
            doc[k] = text_value(src, plain)
        else:
            lenb = b"" if src.chance(1, 3) else bytes([src.draw(256) for _ in range(1 + src.draw(4))]) if src.chance(1, 2) else b"%02d" % src.draw(100)
            doc[k] = {"len": lenb, "data": bytes_value(src)}
            if src.chance(1, 10):
                doc[k] = dict(reversed(list(doc[k].items())))
    spec = make_spec(src, keys, descs)
    return doc, spec, kind


def order(doc, spec):
    out = [k for k in ("h",) if k in doc and model.has_header(spec)]
    out += [k for k in ("t", "p") if k in doc]
    return out + sorted((k for k in doc if isinstance(k, str) and k.isascii() and k.isdigit()), key=int)


def render(doc, spec, desc_width=30, line_width=80):
    """Reference rendering. Values that need escapes are folded like any other: bytes by the width of their literal, text
    by its number of characters."""
    out = []
    for key in order(doc, spec):
        head = key + " " * max(0, 3 - len(key))
        if desc_width > 0:
            d = spec[key]["desc"][:desc_width]
            head += " " + d + " " * (desc_width - len(d))
            column = 5 + desc_width + 1
        else:
            column = 5
        head += ": "
        v = doc[key]
        if isinstance(v, dict):
            if v.get("len", b""):
                head += repr(v["len"]) + " "
                column += len(repr(v["len"])) + 1
            v = v.get("data", b"")
        room = line_width - column
        if len(repr(v)) <= room or type(v) not in (str, bytes) or len(v) <= 1:
            out.append(head + repr(v) + "\n")
            continue
        pieces = []
        if type(v) is str:
            step = room - 2 if room > 3 else 1
            pieces = [v[i : i + step] for i in range(0, len(v), step)]
        else:
            i = 0
            while i < len(v):
                j = i + 1
                while j < len(v) and len(repr(v[i : j + 1])) <= room:
                    j += 1
                pieces.append(v[i:j])
                i = j
        out.append(head + ("\n" + " " * column).join(repr(p) for p in pieces) + "\n")
    return "".join(out)


def read(text, keys):
    """[(key, [literals])] as printed. Descriptions must not hold colons, quotes or line breaks."""
    if text == "":
        return []
    if not text.endswith("\n"):
        fail(f"the print-out does not end with a line break: {short(text)}")
    out = []
    for line in text[:-1].split("\n"):
        if line.startswith(" "):
            if not out:
                fail(f"the print-out starts with a continuation line: {line!r}")
            rest = line.lstrip(" ")
        else:
            m = re.match(r"([0-9]+|[a-z]) *", line)
            if not m or ": " not in line:
                fail(f"a line does not start with a key: {line!r}")
            out.append((m.group(1), []))
            rest = line[line.index(": ") + 2 :]
        at = 0
        while at < len(rest):
            if rest[at] == " ":
                at += 1
                continue
            m = LITERAL.match(rest, at)
            if not m:
                fail(f"not a literal: {rest[at:]!r} in line {line!r}")
            out[-1][1].append(ast.literal_eval(m.group(0)))
            at = m.end()
    return out
