import time

from checks import mutate, printing
from checks.common import *
from pbt import faults, meter, sut
from pbt.engine import RandomTest

RULE = (
    "decode, encode and pp are called with generated, changed and hostile arguments: indicators that announce up to 10**16 units, limits as large, values up to "
    "20000 bytes, all fields at once. Lines of the package executed and peak memory are measured, deterministically, and compared with bounds that "
    "are linear in the size of the input and the number of parts. Non-trivial: the message announces more than it holds, or is larger than 1000 "
    "bytes; counted per distinct call"
)
ASSUMPTIONS = (
    "the bounds are 10-50 times above what the package needs today; they are meant to tell linear growth from other growth",
    "CPU time is compared only between calls of the same case, with a margin of 20, after up to six repetitions",
)


def line_bound(size, parts):
    return 6000 + 800 * parts + 80 * size


def memory_bound(what, size, parts):
    # a folded print-out repeats its indentation for every piece
    return 800_000 + 8_000 * parts + (400 if what == "pp" else 100) * size


def attempt(fn, *a, **kw):
    """The call, whatever it raises as documented."""
    try:
        fn(*a, **kw)
    except (sut.DecodeError, sut.EncodeError):
        pass
    except MemoryError:
        fail("the call ran out of memory")
    except OverflowError as e:
        fail(f"the call raised OverflowError: {e}")


def printed(call):
    """Number of characters pp writes."""
    out = Count()
    call(out)
    return out.n


def measure(src, what, size, parts, make, text=0):
    """make() gives a function of no arguments; it is made anew for each measurement. The text may be put together before it is written."""
    most = line_bound(size, parts)
    try:
        n = meter.lines(make(), most)
    except meter.TooMuch:
        fail(f"{what} executes more than {most} lines for an input of {size} bytes with {parts} parts")
    peak = meter.memory(make())
    if peak > memory_bound(what, size, parts) + 20 * text:
        fail(f"{what} allocates {peak} bytes for an input of {size} bytes with {parts} parts")
    src.label(f"{what}: {'under' if size < 1000 else 'over'} 1000 bytes")
    src.note(lines=n, peak=peak)


def huge_field(src, spec, doc, key):
    """Gives a field a limit and an indicator of absurd size, or a fixed size."""
    fs = dict(spec[key])
    fs.pop("left_pad", None)
    fs["max_len"] = 10 ** (4 + src.draw(13))
    if src.chance(1, 4):
        fs["len_type"] = 0
    else:
        fs["len_type"] = 4 + src.draw(5)
    spec[key] = fs


def hostile(src):
    """A message that announces much more than it holds."""
    spec, doc = gens.spec_and_doc(src, most=5, budget=60)
    spec = faults.own(spec)
    keys = [k for k in doc if k not in ("h", "t", "p", "1")]
    if not keys:
        raise Reject("no field")
    key = max(keys, key=int) if src.chance(2, 3) else src.pick(keys)
    fs = spec[key]
    value = doc[key]
    huge_field(src, spec, doc, key)
    fs = spec[key]
    small = {k: v for k, v in doc.items() if k in ("h", "t") or k in keys and int(k) < int(key)}
    res = model.encode(small, spec)
    if not res.ok:
        raise Reject("another field")
    p, one = model.layout([int(k) for k in keys])
    head = b"".join(x.len + x.data for x in res.parts if x.key in ("h", "t"))
    body = b"".join(x.len + x.data for x in res.parts if x.key not in ("h", "t", "p", "1"))
    maps = model.bitmap_wire(p, spec["p"]) + (model.bitmap_wire(one, spec["1"]) if one else b"")
    n = src.pick((0, 1, 2)) and min(model.limit(fs), 10 ** (3 + src.draw(14))) or 10**4
    n = min(n, model.limit(fs))
    lenb = model.len_bytes(n, fs) if fs["len_type"] else b""
    wire = head + maps + body + lenb + bytes(src.draw(256) for _ in range(src.draw(40)))
    note_case(src, spec, doc, wire)
    measure(src, "decode", len(wire), 5 + len(keys), lambda: lambda: attempt(sut.iso8583.decode, wire, spec))
    src.nontrivial(wire)


def hostile_dict(src):
    """A dict whose specification allows much more than it holds."""
    spec, doc = gens.spec_and_doc(src, most=5, budget=60)
    spec = faults.own(spec)
    keys = [k for k in doc if k not in ("h", "t", "p", "1")]
    if not keys:
        raise Reject("no field")
    for k in keys:
        if src.chance(1, 2):
            huge_field(src, spec, doc, k)
    size = sum(len(v) for v in doc.values()) * 4
    note_case(src, spec, doc)
    measure(src, "encode", size, 5 + len(doc), lambda: lambda d=dict(doc): attempt(sut.iso8583.encode, d, spec))
    src.nontrivial(repr(doc), repr(spec))


def growing(src):
    """Large values, or many fields: encode, decode and both print-outs."""
    if src.chance(1, 3):
        spec, doc = gens.spec_and_doc(src, numbers=gens.field_set(src, 60))
        doc = dict(doc)
    else:
        spec, doc = gens.spec_and_doc(src, most=3, budget=60)
        for _ in range(1 + src.draw(3)):
            k = str(gens.field_number(src))
            n = src.pick((500, 1000, 2000, 4000, 4000))
            enc = src.pick(("ascii", "b", "cp500", "utf-8"))
            nib = enc == "b" and src.chance(1, 2)
            spec[k] = {"data_enc": enc, "len_enc": src.pick(("ascii", "b", "bcd")), "len_type": 5, "max_len": 10**5, "len_count": "nibbles" if nib else "bytes", "left_pad": "0"}
            doc[k] = gens.value_of(src, spec[k], n + src.draw(2))
    spec = {k: dict(fs, desc="Some field") for k, fs in spec.items()}
    res = model.encode(doc, spec)
    if not res.ok:
        raise AssertionError(res.kind)
    wire = bytes(res.wire)
    if src.chance(1, 4):
        wire = mutate.message(src, spec, res)
    size, parts = len(res.wire), len(res.parts)
    src.note(size=size, parts=parts)
    measure(src, "encode", 2 * size, parts, lambda: lambda d=dict(doc): attempt(sut.iso8583.encode, d, spec))
    measure(src, "decode", len(wire), 192, lambda: lambda: attempt(sut.iso8583.decode, wire, spec))
    given = model.doc_dec(res.parts) if src.chance(1, 2) else model.doc_enc(res.parts)
    width, line = gens.widths(src)
    text = printed(lambda out: sut.iso8583.pp(given, spec, desc_width=width, stream=out, line_width=line))
    measure(src, "pp", 4 * size, parts, lambda: lambda: sut.iso8583.pp(given, spec, desc_width=width, stream=Null(), line_width=line), text)
    if size > 1000:
        src.nontrivial(wire, width, line)


class Count:
    n = 0

    def write(self, s):
        self.n += len(s)
        return len(s)


class Null:
    def write(self, s):
        return len(s)


def wide(src):
    """Absurd print widths."""
    doc, spec, kind = printing.make_doc(src)
    size = sum(len(v) if kind == "dec" else len(v["data"]) + len(v["len"]) for v in doc.values())
    line = src.pick((10**6, 10**9, -(10**9), 0, 10**15))
    src.note(doc=doc, line_width=line)
    text = printed(lambda out: sut.iso8583.pp(doc, spec, desc_width=30, stream=out, line_width=line))
    measure(src, "pp", 4 * size, len(doc), lambda: lambda: sut.iso8583.pp(doc, spec, desc_width=30, stream=Null(), line_width=line), text)
    if size > 1000:
        src.nontrivial(repr(doc), line)


def cpu(fn):
    t = time.process_time()
    fn()
    return time.process_time() - t


def ratio(one, many, limit, rounds=6):
    """Least CPU time of one, as a multiple of many's, over the rounds it takes to get below the limit."""
    a = b = None
    for _ in range(rounds):
        x, y = cpu(one), cpu(many)
        a = x if a is None else min(a, x)
        b = y if b is None else max(b, y)
        if a <= limit * b + 0.06:
            break
    return a, b


def superlinear(src):
    """One call with 150 large fields takes about as long as 150 calls with one such field each, whatever is done in C."""
    enc = src.pick(("ascii", "b", "latin-1", "cp500", "utf-8"))
    nib = enc == "b" and src.chance(1, 2)
    len_enc = src.pick(("ascii", "b", "bcd"))
    fixed = src.chance(1, 4)
    n = 2 * src.range(4000, 12000)
    many = src.range(100, 180)
    head = src.chance(1, 2)
    fs = {"data_enc": enc, "len_enc": len_enc, "len_type": 0 if fixed else 5, "max_len": n if enc != "b" or nib else n // 2, "desc": "A large field"}
    if not fixed:
        fs["max_len"] += src.draw(100)
    if nib:
        fs["len_count"] = "nibbles"
        fs["left_pad"] = "0"
    spec = dict(gens.PLAIN_HEAD)
    if head:
        spec["h"] = dict(fs)
    keys = [str(k) for k in gens.ALL_FIELDS[:many]]
    piece = "".join([src.pick("0123456789ABCDEF") for _ in range(16)])
    value = (piece * (n // 16 + 1))[:n]
    for k in keys:
        spec[k] = fs
    doc = {"t": "0200", **{k: value for k in keys}}
    small = [{"t": "0200", k: value} for k in keys]
    if head:
        doc["h"] = value
        small = [dict(d, h=value) for d in small]
    src.note(field=fs, fields=many, value=value[:32] + "...")
    wires = [bytes(must_encode(dict(d), spec)[0]) for d in small]
    wire, enc_parts = must_encode(dict(doc), spec)
    wire = bytes(wire)
    k = src.draw(4)
    if k == 0:
        what = "encode"
        one, ref = (lambda: sut.iso8583.encode(dict(doc), spec)), (lambda: [sut.iso8583.encode(dict(d), spec) for d in small])
    elif k == 1:
        what = "decode"
        data = as_input(src, wire)
        one, ref = (lambda: sut.iso8583.decode(data, spec)), (lambda: [sut.iso8583.decode(w, spec) for w in wires])
    elif k == 2:
        what = "decode of a refused message"
        data = as_input(src, wire + b"0")
        one, ref = (lambda: attempt(sut.iso8583.decode, data, spec)), (lambda: [sut.iso8583.decode(w, spec) for w in wires])
    else:
        what = "pp"
        width = 10**9
        given = doc if src.chance(1, 2) else enc_parts
        parts = [{k: given[k] for k in d} for d in small] if given is doc else [{k: given[k]} for k in keys]
        one = lambda: sut.iso8583.pp(given, spec, stream=Null(), line_width=width)
        ref = lambda: [sut.iso8583.pp(p, spec, stream=Null(), line_width=width) for p in parts]
    src.label("CPU time: " + what)
    a, b = ratio(one, ref, 20)
    if a > 20 * b + 0.06:
        fail(f"{what} of one message with {many} fields of {n} characters takes {a:.3f} s, {many} messages with one of these fields take {b:.3f} s")
    src.nontrivial(repr(fs), many, what)


def one_among_many(src):
    """A message with one huge field and many small ones takes about as long as one with the huge and one with the small ones."""
    n = src.range(4, 8) * 10**6
    many = src.range(120, 180)
    enc = src.pick(("ascii", "latin-1", "b"))
    spec = dict(gens.PLAIN_HEAD)
    keys = [str(k) for k in gens.ALL_FIELDS[:many]]
    small = {"data_enc": "ascii", "len_enc": "ascii", "len_type": src.pick((0, 2)), "max_len": 4, "desc": "Small"}
    for k in keys:
        spec[k] = small
    where = src.pick(("h", keys[0], keys[many // 2], keys[-1]))
    spec[where] = {"data_enc": enc, "len_enc": src.pick(("ascii", "b", "bcd")), "len_type": 8, "max_len": n + src.draw(9), "desc": "Huge"}
    doc = {"t": "0200", **{k: "12ab" for k in keys}}
    rest = {k: v for k, v in doc.items() if k != where}
    alone = {"t": "0200", where: None}
    doc[where] = alone[where] = "5A" * (n // 2)
    spec2 = spec
    if where == "h":
        spec2 = {k: v for k, v in spec.items() if k != "h"}
        spec2["h"] = gens.PLAIN_HEAD["h"]
    src.note(huge=where, field=spec[where], fields=many)
    docs = ((alone, spec), (rest, spec2))
    s, enc_parts = must_encode(dict(doc), spec)
    wire = bytes(s)
    small_wires = [(bytes(must_encode(dict(d), sp)[0]), sp) for d, sp in docs]
    k = src.draw(4)
    if k == 0:
        what = "encode"
        one, ref = (lambda: sut.iso8583.encode(dict(doc), spec)), (lambda: [sut.iso8583.encode(dict(d), sp) for d, sp in docs])
    elif k == 1:
        what = "decode"
        data = as_input(src, wire)
        one, ref = (lambda: sut.iso8583.decode(data, spec)), (lambda: [sut.iso8583.decode(w, sp) for w, sp in small_wires])
    elif k == 2:
        what = "decode of a refused message"
        data = as_input(src, wire + b"0")
        one, ref = (lambda: attempt(sut.iso8583.decode, data, spec)), (lambda: [attempt(sut.iso8583.decode, w + b"0", sp) for w, sp in small_wires])
    else:
        what = "encode of a refused dict"
        bad = "192"
        sp_bad = [dict(sp, **{bad: small}) for sp in (spec, *[sp for _, sp in docs])]
        one = lambda: attempt(sut.iso8583.encode, dict(doc, **{bad: "x" * 9}), sp_bad[0])
        ref = lambda: [attempt(sut.iso8583.encode, dict(d, **{bad: "x" * 9}), sp) for (d, _), sp in zip(docs, sp_bad[1:])]
    src.label("CPU time, one among many: " + what)
    a, b = ratio(one, ref, 10)
    if a > 10 * b + 0.06:
        fail(f"{what} of a message with a field of {n} characters and {many} small ones takes {a:.3f} s, of one with the large and one with the small ones {b:.3f} s")
    src.nontrivial(what, where, n, many)


TESTS = [
    RandomTest("hostile", hostile, 6000, guided=False),
    RandomTest("hostile-dict", hostile_dict, 3000, guided=False),
    RandomTest("growing", growing, 700, guided=False),
    RandomTest("superlinear", superlinear, 64, guided=False),
    RandomTest("one-among-many", one_among_many, 32, guided=False),
    RandomTest("wide", wide, 1500, guided=False),
]
