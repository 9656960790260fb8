import json
import os

from checks.common import *
from pbt import fresh, sut
from pbt.engine import VERIF, EnumTest, RandomTest

RULE = (
    "both shipped specifications entry by entry against the committed transcription of the module documentation; for every field of each, every length "
    "from 0 to the documented maximum plus 3, with generated contents and neighbours. Non-trivial: a field value is encoded and decoded; counted per "
    "distinct (specification, field, length)"
)
ASSUMPTIONS = ("data/shipped_specs.json is a correct transcription of the tables in the module documentation of iso8583.specs",)

with open(os.path.join(VERIF, "data", "shipped_specs.json")) as f:
    DOCUMENTED = json.load(f)
NAMES = ("default", "default_ascii")
FIELDS = [str(n) for n in range(2, 129) if n != 65]


def table(src):
    """The tables themselves; taken from a newly executed package, and from the imported one."""
    i = src.draw(8)
    name = NAMES[i % 2]
    pkg = fresh.package() if i // 2 % 2 else None
    specs = pkg.specs if pkg else sut.iso8583.specs
    got = getattr(specs, name)
    want = DOCUMENTED[name]
    src.note(spec=name, fresh=bool(pkg))
    expect(got, want, f"iso8583.specs.{name}")
    if json.loads(json.dumps(got)) != got:
        fail(f"{name} does not survive a JSON round trip")
    seen = {}
    for n in NAMES:
        s = getattr(specs, n)
        for path, obj in [((n,), s)] + [((n, k), v) for k, v in s.items()]:
            if id(obj) in seen:
                fail(f"{path} and {seen[id(obj)]} are the same object")
            seen[id(obj)] = path
    # an edit of one entry stays there
    for n in NAMES:
        other = NAMES[1 - NAMES.index(n)]
        private = fresh.package().specs
        k = src.pick(("h", "t", "p", "1", *FIELDS))
        getattr(private, n)[k]["max_len"] = 7777
        getattr(private, n)[k]["extra"] = "x"
        for m in NAMES:
            for q in DOCUMENTED[m]:
                if (m, q) != (n, k) and getattr(private, m)[q] != DOCUMENTED[m][q]:
                    fail(f"editing {n}[{k!r}] changed {m}[{q!r}] to {getattr(private, m)[q]}")
    src.nontrivial(name, bool(pkg), i)


def content(src, binary, n):
    """n units of field content: text, or hex digits for n bytes."""
    if binary:
        return gens.hexstr(src, 2 * n)
    alphabet = src.pick(gens.ASCII_SETS)
    return gens._chars(src, alphabet, n)


def wire_of(want, v):
    """Documented wire form of a value: ASCII length digits, then ASCII characters or raw bytes."""
    data = bytes.fromhex(v) if want["data_enc"] == "b" else v.encode("ascii")
    lenb = str(len(data)).zfill(want["len_type"]).encode("ascii") if want["len_type"] else b""
    return lenb, data


def message(name, mti, fields):
    """A message in the documented form, without using the package or its specifications."""
    nums = {int(k) for k in fields}
    if any(n > 64 for n in nums):
        nums.add(1)
    p = sum(1 << (64 - n) for n in nums if n <= 64)
    maps = f"{p:016X}"
    if 1 in nums:
        maps += f"{sum(1 << (128 - n) for n in nums if n > 64):016X}"
    out = mti.encode("ascii") + (bytes.fromhex(maps) if name == "default" else maps.encode("ascii"))
    for k in sorted(fields, key=int):
        lenb, data = wire_of(DOCUMENTED[name][k], fields[k])
        out += lenb + data
    return out


def accepts(want, n):
    return n == want["max_len"] if want["len_type"] == 0 else n <= want["max_len"]


def shipped(src, name):
    return getattr(sut.iso8583.specs, name)


def one_field(src, name, key, n):
    want = DOCUMENTED[name][key]
    spec = shipped(src, name)
    binary = want["data_enc"] == "b"
    v = content(src, binary, n)
    fields = {key: v}
    for _ in range(src.draw(3)):
        other = src.pick(FIELDS)
        if other not in fields:
            w = DOCUMENTED[name][other]
            m = w["max_len"] if w["len_type"] == 0 else min(w["max_len"], src.draw(30))
            fields[other] = content(src, w["data_enc"] == "b", m)
    mti = src.pick(("0200", "0210", "0800", "0420"))
    src.note(spec=name, field=key, length=n, fields={k: short(x, 60) for k, x in fields.items()})
    src.nontrivial(name, key, n)
    what = f"field {key} of {name}, {n} bytes"
    doc = {"t": mti, **fields}
    if not accepts(want, n):
        src.label("rejected")
        s, _, err = encode(dict(doc), spec)
        if err is None:
            fail(f"{what}: encode accepted it, the documentation says {want}")
        if err.field != key:
            fail(f"{what}: encode complains about field {err.field} instead: {err}")
        if want["len_type"]:
            if n >= 10 ** want["len_type"]:
                return
            wire = message(name, mti, fields)
            d, _, err = decode(as_input(src, wire), spec)
            if err is None:
                fail(f"{what}: decode accepted it, the documentation says {want}")
            if err.field != key:
                fail(f"{what}: decode complains about field {err.field} instead: {err}")
        return
    src.label("accepted " + name)
    wire = message(name, mti, fields)
    s, enc = must_encode(gens.litter(src, doc, spec), spec, what)
    if bytes(s) != wire:
        fail(f"{what}: encoded as {short(bytes(s))}, documented form is {short(wire)}")
    dec, enc2 = must_decode(as_input(src, wire), spec, what)
    for k, x in fields.items():
        y = x.upper() if DOCUMENTED[name][k]["data_enc"] == "b" else x
        if dec.get(k) != y:
            fail(f"{what}: field {k} decoded as {short(dec.get(k))}, sent {short(y)}")
        lenb, data = wire_of(DOCUMENTED[name][k], x)
        for e in (enc, enc2):
            if e.get(k) != {"len": lenb, "data": data}:
                fail(f"{what}: field {k} is {short(e.get(k))} in the encoded dictionary")
    if set(dec) - {"p", "1"} != set(doc):
        fail(f"{what}: decoded keys are {sorted(dec)}")


# every field at every length: 0..max+3 for variable fields, 0..width+3 for fixed ones
CASES = [(name, k, n) for name in NAMES for k in FIELDS for n in range(DOCUMENTED[name][k]["max_len"] + 4)]
EDGES = [c for c in CASES if c[2] <= 1 or c[2] >= DOCUMENTED[c[0]][c[1]]["max_len"] - 1]


def every(src):
    one_field(src, *CASES[src.draw(len(CASES))])


def edges(src):
    one_field(src, *EDGES[src.draw(len(EDGES))])


def whole(src):
    """Many fields at once, at any accepted length."""
    name = src.pick(NAMES)
    spec = shipped(src, name)
    fields = {}
    full = src.chance(1, 10)
    for k in FIELDS:
        if full or src.chance(1, 6):
            w = DOCUMENTED[name][k]
            n = w["max_len"] if w["len_type"] == 0 else gens.length(src, 0, w["max_len"])
            fields[k] = content(src, w["data_enc"] == "b", n)
    wire = message(name, "0200", fields)
    src.note(spec=name, fields=sorted(fields, key=int))
    s, _ = must_encode({**dict(src.shuffle(list(fields.items()))), "t": "0200"}, spec)
    if bytes(s) != wire:
        fail(f"{name}: encoded as {short(bytes(s))}, documented form is {short(wire)}")
    dec, _ = must_decode(as_input(src, wire), spec)
    got = {k: x for k, x in dec.items() if k not in ("t", "p", "1")}
    want = {k: x.upper() if DOCUMENTED[name][k]["data_enc"] == "b" else x for k, x in fields.items()}
    expect(got, want, f"content decoded under {name}")
    if fields:
        src.nontrivial(wire)


def undefined(src):
    """What the tables do not define cannot be sent or received: no header, no field 129-192; 65 is never a field."""
    name = src.pick(NAMES)
    spec = shipped(src, name)
    n = 129 + src.draw(64)
    src.note(spec=name, field=n)
    s, _, err = encode({"t": "0200", str(n): "1"}, spec)
    if err is None or err.field != str(n):
        fail(f"{name}: encode of the undefined field {n}: {err or bytes(s)}")
    maps = f"{1 << 63:016X}{1 << 63:016X}{1 << (192 - n):016X}"
    wire = b"0200" + (bytes.fromhex(maps) if name == "default" else maps.encode()) + b"1"
    d, _, err = decode(wire, spec)
    if err is None or err.field != str(n):
        fail(f"{name}: decode of the undefined field {n}: {err or d}")
    s, enc = must_encode({"h": "HDR", "t": "0200", "65": "00"}, spec)
    if bytes(s) != message(name, "0200", {}):
        fail(f"{name}: a header or field 65 got into the message {bytes(s)!r}")
    src.nontrivial(name, n)


TESTS = [
    EnumTest("table", table, 8),
    EnumTest("edges", edges, len(EDGES)),
    EnumTest("every-length", every, len(CASES)),
    RandomTest("whole", whole, 8000),
    RandomTest("undefined", undefined, 600),
]
