"""Oracles shared by several checks."""

import re

from pbt import gens, model
from pbt.engine import Reject, fail
from pbt.sut import DICT, decode, encode, expect, must_decode, must_encode, same, short

HEADLINE = "cases are drawn by structured generators (a specification and a dict valid under it, generated together)"


def as_input(src, s):
    return bytearray(s) if src.chance(1, 2) else bytes(s)


def note_case(src, spec, doc=None, wire=None, **kw):
    used = {k: v for k, v in spec.items() if doc is None or k in doc or k in ("h", "t", "p", "1")}
    if len(used) > 16:
        used = f"({len(spec)} entries)"
    src.note(spec=used)
    if doc is not None:
        src.note(doc=doc)
    if wire is not None:
        src.note(wire=bytes(wire).hex() if len(wire) < 3000 else f"({len(wire)} bytes)")
    if kw:
        src.note(**kw)


def mark(src, spec, doc, wire=b""):
    for lab in gens.describe(spec, doc):
        src.label(lab)


def wire_order(keys):
    """Keys of a decoded dictionary in wire order."""
    head = [k for k in ("h", "t", "p", "1") if k in keys]
    rest = sorted((k for k in keys if k not in ("h", "t", "p", "1")), key=int)
    return head + rest


def check_entries(doc_enc, what):
    for k, v in doc_enc.items():
        if type(k) is not str:
            fail(f"{what}: key {k!r} is not a str")
        if type(v) is not dict or set(v) != {"len", "data"}:
            fail(f"{what}: entry {k!r} is not a dict of 'len' and 'data': {short(v)}")
        for n in ("len", "data"):
            if type(v[n]) is not bytes:
                fail(f"{what}: entry {k!r} has {n!r} of type {type(v[n]).__name__}: {short(v[n])}")


def check_accounts(wire, dec, enc, spec, what):
    """The accounting invariants that hold whenever encode or decode succeeds."""
    check_entries(enc, what)
    for k in enc:
        if k not in ("h", "t", "p", "1") and not (model.is_field_key(k) and int(k) >= 2 and k != "65"):
            fail(f"{what}: unexpected key {k!r} in the encoded dictionary")
    total = b"".join(enc[k]["len"] + enc[k]["data"] for k in wire_order(enc))
    if total != bytes(wire):
        fail(f"{what}: the encoded dictionary adds up to {short(total)}, the message is {short(bytes(wire))}")
    if set(dec) != set(enc):
        fail(f"{what}: decoded keys {sorted(dec)} but encoded keys {sorted(enc)}")
    for k, v in dec.items():
        if type(v) is not str:
            fail(f"{what}: decoded value of {k!r} is a {type(v).__name__}: {short(v)}")
    for k in ("t", "p"):
        if k not in enc:
            fail(f"{what}: {k!r} is missing")
    if ("h" in enc) != model.has_header(spec):
        fail(f"{what}: header {'present' if 'h' in enc else 'absent'} but max_len is {spec['h']['max_len']}")
    announced = set()
    p = dec["p"]
    if len(p) != 16:
        fail(f"{what}: primary bitmap is {p!r}")
    bits = bits_of(p, 0)
    one = dec.get("1")
    if (1 in bits) != (one is not None):
        fail(f"{what}: bit 1 is {1 in bits} but secondary bitmap is {one!r}")
    if one is not None:
        if len(one) not in (16, 32):
            fail(f"{what}: secondary bitmap is {one!r}")
        bits |= bits_of(one[:16], 64)
        if (65 in bits) != (len(one) == 32):
            fail(f"{what}: bit 65 is {65 in bits} but the secondary bitmap is {one!r}")
        bits |= bits_of(one[16:], 128)
    announced = {str(b) for b in bits if b not in (1, 65)}
    fields = {k for k in dec if k not in ("h", "t", "p", "1")}
    if announced != fields:
        fail(f"{what}: the bitmaps announce {sorted(announced, key=int)} but the fields are {sorted(fields, key=int)}")


def bits_of(digits, base):
    if not digits:
        return set()
    v = int(digits, 16)
    n = len(digits) * 4
    return {base + i + 1 for i in range(n) if v >> (n - 1 - i) & 1}


def size_complaint(msg, sizes, what):
    """msg has to state the actual and the expected size, in this order and in the right unit."""
    nums = [int(x) for x in re.findall(r"-?\d+", msg)]
    actual, wanted, unit = sizes
    if nums[:2] != [actual, wanted] or len(nums) != 2:
        fail(f"{what}: the message is {msg!r}, the sizes are {actual} and {wanted}")
    other = "bytes" if unit == "nibbles" else "nibbles"
    if unit not in msg or other in msg:
        fail(f"{what}: the message is {msg!r}, the unit is {unit}")


def same_outcome(a, b, what):
    """Outcomes are (x, y, error) triples of encode or decode."""
    if (a[2] is None) != (b[2] is None):
        fail(f"{what}: {outcome(a)} versus {outcome(b)}")
    if a[2] is None:
        if not same(a[0], b[0]) or not same(a[1], b[1]):
            fail(f"{what}: {short(a[:2])} versus {short(b[:2])}")
    else:
        x, y = a[2], b[2]
        if type(x) is not type(y) or str(x) != str(y) or x.field != y.field or not same(x.doc_dec, y.doc_dec) or not same(x.doc_enc, y.doc_enc):
            fail(f"{what}: {x!r} versus {y!r}")


def outcome(a):
    return f"error {a[2]}" if a[2] is not None else short(a[:2])
