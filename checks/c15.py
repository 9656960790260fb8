import codecs
import copy
import os
import pickle
import signal

from checks import history, mutate
from checks.common import *
from pbt import engine, faults, fresh, sut
from pbt.engine import RandomTest, Reject

RULE = (
    "histories of encode, decode and pp calls with two or three specifications, with failing calls, specifications edited in place or replaced, "
    "input buffers reused and returned objects modified in between; every call is compared with the same call made by a newly executed copy of "
    "the package (or a forked fresh process), and arguments and earlier results are checked to be untouched. "
    "Non-trivial: at least one call was preceded by an edit, a failure or a modification; counted per distinct history"
)
ASSUMPTIONS = ("executing the package's modules anew gives the state of a fresh process (the forked variant does not assume it)",)


def edit(src, spec):
    """Changes spec in place."""
    keys = [k for k in spec if k.isdigit() and k not in ("1", "65")]
    k = src.draw(9)
    if k <= 1 and keys:
        spec[src.pick(keys)] = gens.field(src, big=40)
    elif k == 2 and keys:
        key = src.pick(keys)
        new = gens.field(src, big=40)
        spec[key].clear()
        spec[key].update(new)
    elif k == 3 and keys:
        spec[src.pick(keys)]["max_len"] = src.draw(30)
    elif k == 4 and keys:
        del spec[src.pick(keys)]
    elif k == 5:
        spec[str(gens.field_number(src))] = gens.field(src, big=40)
    elif k == 6:
        part = src.pick(("h", "t", "p", "1"))
        new = {"h": gens.header, "t": gens.type_spec, "p": gens.bitmap_spec, "1": gens.bitmap_spec}[part](src)
        if src.chance(1, 2):
            spec[part] = new
        else:
            spec[part].clear()
            spec[part].update(new)
    elif k == 7 and keys:
        key = src.pick(keys)
        spec[key]["data_enc"] = src.pick(("b", "ascii", "cp500", "utf-8"))
    elif keys:
        key = src.pick(keys)
        if len(spec[key].get("desc", "")) > 3:
            spec[key]["desc"] = "other"
        else:
            spec[key]["desc"] = "A new description"


def scribble(src, obj):
    """Changes a returned object as a caller may."""
    if isinstance(obj, bytearray):
        if src.chance(1, 2):
            obj.clear()
        else:
            obj.extend(b"XYZ")
        return
    if not isinstance(obj, dict):
        return
    k = src.draw(5)
    if k == 0:
        obj.clear()
    elif k == 1:
        obj["2"] = src.pick(("x", {"len": b"9", "data": b"scribble"}))
    elif obj:
        key = src.pick(list(obj))
        if isinstance(obj[key], dict):
            if k == 2:
                obj[key]["data"] = b"scribble"
            elif k == 3:
                obj[key]["len"] = b"77"
            else:
                obj[key].clear()
        elif k == 2:
            del obj[key]
        else:
            obj[key] = "scribble"


def next_op(src, st):
    """(op, args) of the next call; changes the state (specifications, buffers, earlier results) before it."""
    specs, docs, bufs, results = st["specs"], st["docs"], st["bufs"], st["results"]
    for _ in range(src.weighted(((4, 0), (4, 1), (1, 2)))):
        k = src.draw(6)
        st["events"] += 1
        if k <= 1:
            edit(src, src.pick(specs))
            st["log"].append("edit")
        elif k == 2:
            i = src.draw(len(specs))
            if src.chance(1, 2):
                specs[i] = None  # the old one may be freed and its address used again
                specs[i] = gens.spec_for(src, 5, 40)
            else:
                specs[i] = copy.deepcopy(specs[src.draw(len(specs))])
            st["log"].append("replace specification")
        elif k <= 4 and results:
            scribble(src, src.pick(results)[0])
            st["log"].append("scribble on a result")
            refresh(st)
        elif bufs:
            b = src.pick(bufs)
            if isinstance(b, bytearray) and b:
                if src.chance(1, 2):
                    b[src.draw(len(b))] ^= 1 << src.draw(8)
                else:
                    other = src.pick(bufs)
                    b[:] = bytes(other)
                st["log"].append("change a buffer")
    spec = src.pick(specs)
    for fs in spec.values():
        fs.setdefault("desc", "")
    k = src.draw(12)
    if k <= 3:
        if docs and src.chance(1, 3):
            doc = src.pick(docs)
        elif results and src.chance(1, 5):
            doc = src.pick(results)[0]
            if not isinstance(doc, dict):
                doc = {"t": "0200"}
        else:
            doc = _doc(src, spec)
        docs.append(doc)
        return "encode", (doc, spec)
    if k <= 8:
        if bufs and src.chance(1, 3):
            buf = src.pick(bufs)
        else:
            r = model.encode(_doc(src, spec), spec)
            wire = r.wire if r.ok else mutate.noise(src)
            if src.chance(1, 5):
                wire = mutate.message(src, spec, r, 1) if r.ok else wire
            buf = as_input(src, wire)
            bufs.append(buf)
        return "decode", (buf, spec)
    pool = [r[0] for r in results if isinstance(r[0], dict)] + docs
    doc = src.pick(pool) if pool else {"t": "0200"}
    known = {k: v for k, v in doc.items() if not (isinstance(k, str) and k.isdigit()) or k in spec}
    doc = known if len(known) != len(doc) else doc
    return "pp", (doc, spec, *gens.widths(src))


def _doc(src, spec):
    try:
        doc = gens.doc_for(src, spec, 4, 25)
    except Exception:
        # an edited specification may admit no value for some field
        doc = {"t": "0200", "h": "x"}
        keys = [k for k in spec if k.isdigit() and k not in ("1", "65")]
        for _ in range(src.draw(4)):
            if keys:
                doc[src.pick(keys)] = src.pick(("", "12", "1234", "A", "é", "ABC"))
    else:
        doc = gens.litter(src, doc, spec)
    if src.chance(1, 8):
        doc[src.pick(list(doc))] = src.pick(("", None, "\ud800", "12345", 7))
    if src.chance(1, 10):
        doc[src.pick(("193", "0", "02", "191"))] = "1"
    return doc


def start(src):
    n = 2 + src.draw(2)
    specs = [gens.spec_for(src, 5, 40) for _ in range(n)]
    if src.chance(1, 2):
        # variants of one specification
        for i in range(1, n):
            specs[i] = copy.deepcopy(specs[0])
            edit(src, specs[i])
    return {"specs": specs, "docs": [], "bufs": [], "results": [], "events": 0, "log": []}


def refresh(st):
    st["results"] = [(o, copy.deepcopy(o)) for o, _ in st["results"]]


def against_fresh(src):
    st = start(src)
    src.note(initial_specs=copy.deepcopy(st["specs"]))
    interesting = 0
    for _ in range(3 + src.draw(10)):
        op, args = next_op(src, st)
        given = history.clone(op, args)
        spec_before = [copy.deepcopy(s) for s in st["specs"]]
        bufs_before = [bytes(b) for b in st["bufs"]]
        got, objs = history.run(sut.iso8583, op, args)
        want, _ = history.run(fresh.package(), op, given)
        st["log"].append(f"{op}{short(history.clone(op, args)[0] if op != 'decode' else bytes(args[0]), 200)} -> {short(got, 120)}")
        src.note(history=list(st["log"]))
        if got[0] != "ok":
            st["events"] += 1
            src.label(f"{op} failed")
        else:
            src.label(f"{op} succeeded")
        history.agree(got, want, f"{op} after {len(st['log']) - 1} earlier steps")
        interesting = max(interesting, st["events"])
        for a, b in zip(st["specs"], spec_before):
            if not same(a, b):
                fail(f"{op} changed a specification: {short(b)} became {short(a)}")
        for a, b in zip(st["bufs"], bufs_before):
            if bytes(a) != b:
                fail(f"{op} changed an input buffer from {short(b)} to {short(bytes(a))}")
        if op == "pp" and not same(args[0], given[0]):
            fail(f"pp changed its dictionary from {short(given[0])} to {short(args[0])}")
        for o, kept in st["results"]:
            if op == "encode" and o is args[0]:
                continue
            if not same(o, kept):
                fail(f"{op} changed a result returned earlier from {short(kept)} to {short(o)}")
        for o in objs:
            _own_entries(o, op)
            for other, _ in st["results"]:
                _distinct(o, other, op)
            for other in st["bufs"] + st["specs"] + [d for d in st["docs"]]:
                _distinct(o, other, op)
        st["results"] += [(o, None) for o in objs]
        refresh(st)
    if interesting:
        src.nontrivial(tuple(st["log"]))


def _parts(o):
    out = [o]
    if isinstance(o, dict):
        out += [v for v in o.values() if isinstance(v, (dict, bytearray))]
    return out


def _own_entries(o, op):
    """No two entries of one result are the same object."""
    if isinstance(o, dict) and len({id(v) for v in o.values() if isinstance(v, dict)}) != sum(isinstance(v, dict) for v in o.values()):
        fail(f"{op} returned a dictionary two entries of which are one object: {short(o)}")


def _distinct(a, b, op):
    for x in _parts(a):
        for y in _parts(b):
            if x is y:
                fail(f"{op} returned an object shared with an argument or an earlier result: {short(x)}")


def one_setting(src, spec, key):
    """Changes one setting of an entry in place, or puts it back to an earlier value; what is fit for it stays as likely as possible."""
    fs = spec[key]
    k = src.draw(8)
    if k <= 1:
        name, values = ("left_pad", "right_pad")[k], ("0", "F", "f", "", "1", "A")
    elif k == 2:
        name, values = "len_count", ("bytes", "nibbles")
    elif k == 3:
        name, values = "len_enc", ("b", "bcd", "ascii", "cp500")
    elif k == 4:
        name, values = "data_enc", ("b", "ascii", "cp500", "utf-8", "latin-1")
    elif k == 5:
        name, values = "len_type", (0, 1, 2, 3, 4)
    elif k == 6:
        name, values = "max_len", (fs["max_len"] + 1, max(fs["max_len"] - 1, 0), fs["max_len"] * 2, fs["max_len"] // 2, 0, 999)
    else:
        name, values = "desc", ("", "other", "Another description that is longer than thirty columns")
    if k in (0, 1, 2) and name in fs and src.chance(1, 4):
        del fs[name]
    else:
        fs[name] = src.pick(values)
    return name


def edited_setting(src):
    """The same call again and again, while single settings of what it uses change in place."""
    spec = gens.spec_for(src, 4, 20)
    for fs in spec.values():
        fs.setdefault("desc", "x")
    doc = gens.doc_for(src, spec, 4, 20)
    keys = [k for k in doc if k in spec]
    log = []
    op = src.pick(("encode", "decode", "pp", "round trip"))
    src.note(spec=copy.deepcopy(spec), doc=doc, call=op)
    key = src.pick(keys + ["p"])
    outcomes = set()
    original = copy.deepcopy(spec)
    for step in range(3 + src.draw(5)):
        todo = ["encode", "decode"] if op == "round trip" else [op]
        wire = model.encode(doc, original if src.chance(1, 2) else spec).wire
        for o in todo:
            if o == "encode":
                args = (dict(doc), spec)
            elif o == "decode":
                args = (as_input(src, wire or b""), spec)
            else:
                args = (dict(doc), spec, 30, 80)
            given = history.clone(o, args)
            got, _ = history.run(sut.iso8583, o, args)
            want, _ = history.run(fresh.package(), o, given)
            history.agree(got, want, f"{o} after the changes {log}")
            outcomes.add(repr(got))
        if src.chance(1, 4):
            key = src.pick(keys + ["p", "t", "h"])
        if src.chance(1, 4):
            spec[key].clear()
            spec[key].update(copy.deepcopy(original[key]))
            log.append(f"{key} as before")
        elif src.chance(1, 12):
            spec[key] = dict(spec[key])
            log.append(f"{key} by a copy")
        else:
            log.append(f"{key} {one_setting(src, spec, key)}")
        src.note(changes=list(log))
    if len(outcomes) > 1:
        src.nontrivial(repr(original), repr(doc), tuple(log))


def in_child(fn):
    """Result of fn run in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("value", fn())
            except engine.Violation as e:
                out = ("violation", str(e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise AssertionError("the forked process died")
    kind, value = pickle.loads(data)
    if kind == "violation":
        fail(value)
    return value


def against_fork(src):
    """As against_fresh, but the history runs in one forked process and each reference call in another, none of which has
    called the package before (this test runs first in its worker)."""
    st = start(src)
    plan = []
    n = 3 + src.draw(5)

    def whole():
        calls = []
        for _ in range(n):
            op, args = next_op(src, st)
            given = history.clone(op, args)
            got, objs = history.run(sut.iso8583, op, args)
            if got[0] != "ok":
                st["events"] += 1
            st["log"].append(op)
            st["results"] += [(o, None) for o in objs]
            calls.append((op, given, got))
        return calls, st["events"], src.choices, src.bounds

    calls, events, choices, bounds = in_child(whole)
    src.choices[:] = choices
    src.bounds[:] = bounds
    if src.rng is not None:
        src.rng.seed(repr(choices))  # the child used the same stream
    for i, (op, given, got) in enumerate(calls):
        src.note(**{f"call{i}": (op, given)})
        want = in_child(lambda: history.run(sut.iso8583, op, given)[0])
        history.agree(got, want, f"call {i} ({op}) of a history")
    if events:
        src.nontrivial(repr(calls))


def long_history(src):
    """Many calls on a few specifications, the first ones repeated at the end."""
    specs = [gens.spec_for(src, 6, 30) for _ in range(2)]
    first = []
    count = 40 + src.draw(260)
    repeat_every = 1 + src.draw(20)
    for i in range(count):
        spec = specs[src.draw(2)]
        doc = gens.doc_for(src, spec, 2, 10)
        r = model.encode(doc, spec)
        s, enc = must_encode(dict(doc), spec)
        if bytes(s) != r.wire:
            fail(f"call {i}: encode produced {short(bytes(s))}, expected {short(r.wire)}")
        expect(enc, model.doc_enc(r.parts), f"call {i}: encoded dictionary")
        dec, enc2 = must_decode(bytes(s), spec)
        expect(dec, model.doc_dec(r.parts), f"call {i}: decoded dictionary")
        if len(first) < 8:
            first.append((doc, spec, r))
        if i % repeat_every == 0:
            for doc, spec, r in first:
                s, enc = must_encode(dict(doc), spec)
                if bytes(s) != r.wire:
                    fail(f"after {i} calls encode produced {short(bytes(s))}, the first time {short(r.wire)}")
                dec, _ = must_decode(r.wire, spec)
                expect(dec, model.doc_dec(r.parts), f"decoded dictionary after {i} calls")
    src.note(specs=specs, calls=count)
    src.nontrivial(count, repr(specs))


def late_codec(src):
    """A codec that does not exist at first, is registered, and taken away again: what matters is the registry as it is."""
    name = "vp" + src.pick("abcdefgh") * (1 + src.draw(4))
    spec, doc = gens.spec_and_doc(src, most=3, dense=False, budget=40, multi=False)
    cands = [k for k in doc if k.isdigit() and not model.is_bin(spec[k])]
    if not cands:
        raise Reject("no text field")
    key = src.pick(cands)
    real = spec[key]["data_enc"]
    res = model.encode(doc, spec)
    if doc[key] == "":
        raise Reject("empty bytes decode under any codec name")
    spec[key] = dict(spec[key])  # not shared with another field
    role = src.pick(("data_enc", "len_enc"))
    if role == "len_enc" and (spec[key]["len_type"] == 0 or spec[key]["len_enc"] in ("b", "bcd")):
        role = "data_enc"
    real = spec[key][role]
    spec[key][role] = name
    note_case(src, spec, doc, res.wire, codec=name, stands_for=real)

    def find(n):
        return codecs.lookup(real) if n.replace("-", "_") == name else None

    def both(there, what):
        got = encode(dict(doc), spec)
        if there:
            if got[2] is not None or bytes(got[0]) != res.wire:
                fail(f"{what}: encode gave {outcome(got)}, expected {short(res.wire)}")
        elif got[2] is None or got[2].field != key:
            fail(f"{what}: encode gave {outcome(got)}, expected an error in field {key}")
        got = decode(res.wire, spec)
        if there:
            if got[2] is not None:
                fail(f"{what}: decode gave {outcome(got)}")
            expect(got[0], model.doc_dec(res.parts), f"{what}: decoded dictionary")
        elif got[2] is None or got[2].field != key:
            fail(f"{what}: decode gave {outcome(got)}, expected an error in field {key}")

    steps = 2 + src.draw(4)
    there = src.chance(1, 2)
    for i in range(steps):
        if there:
            codecs.register(find)
        try:
            both(there, f"step {i}, codec {'registered' if there else 'unknown'}")
        finally:
            if there:
                codecs.unregister(find)
        there = not there
    src.nontrivial(res.wire, key, role, steps)


def entries(src):
    """Results hold no object twice, and changing an entry of one changes no other."""
    spec, doc = gens.spec_and_doc(src, most=8, budget=60)
    for _ in range(1 + src.draw(4)):
        gens.twin(src, spec, doc, str(gens.field_number(src)))
    res = model.encode(doc, spec)
    if not res.ok:
        raise AssertionError(res.kind)
    note_case(src, spec, doc, res.wire)
    outs = []
    s, enc = must_encode(dict(doc), spec)
    outs.append(("encode", enc))
    dec, enc = must_decode(as_input(src, res.wire), spec)
    outs.append(("decode", enc))
    _, _, err = decode(as_input(src, res.wire + b"!"), spec)
    if err is not None:
        outs.append(("decode, failing,", err.doc_enc))
    for op, enc in outs:
        _own_entries(enc, op)
    if len({(e["len"], e["data"]) for e in outs[0][1].values()}) < len(outs[0][1]):
        src.nontrivial(bytes(s), repr(spec))


TESTS = [
    RandomTest("against-forked-process", against_fork, 240, 4000, guided=False),
    RandomTest("against-fresh-copy", against_fresh, 5000),
    RandomTest("edited-setting", edited_setting, 3000),
    RandomTest("long-history", long_history, 120, 4000),
    RandomTest("codec-registered-late", late_codec, 1600),
    RandomTest("entries", entries, 4000),
]
