import copy
import sys
import threading

from checks import history
from checks.common import *
from pbt import faults, fresh, intrude, sched, sut
from pbt.engine import RandomTest

RULE = (
    "two to four threads make one to three calls each of encode, decode or pp on their own messages, with a shared or different specifications; "
    "exactly one runs at a time and a generated schedule says after how many executed lines (or bytecodes) of the package the next one takes "
    "over; each result is compared with the call made alone by a newly executed copy of the package. A second test lets threads run freely with "
    "a tiny switch interval; a third makes calls in the midst of another in the same thread. Non-trivial: at least one call was suspended half-way while another ran; counted per distinct (calls, schedule)"
)
ASSUMPTIONS = (
    "switches happen between lines or bytecodes of the package's own Python code (calls into C are atomic under the GIL)",
    "threads do not share the dict being encoded",
)


def make_calls(src, specs, most):
    calls = []
    for _ in range(1 + src.draw(most)):
        spec = src.pick(specs)
        doc = gens.doc_for(src, spec, 4, 20)
        k = src.draw(8)
        if k <= 2:
            if src.chance(1, 8):
                doc[src.pick(list(doc))] = src.pick((None, "\ud800", ""))
            calls.append(("encode", (gens.litter(src, doc, spec), spec)))
        elif k <= 5:
            wire = model.encode(doc, spec).wire
            if src.chance(1, 8) and wire:
                wire = wire[: src.draw(len(wire))]
            calls.append(("decode", (as_input(src, wire), spec)))
        else:
            res = model.encode(doc, spec)
            given = model.doc_dec(res.parts) if k == 6 else model.doc_enc(res.parts)
            calls.append(("pp", (given, spec, *gens.widths(src))))
    return calls


def make_plan(src, most=2):
    specs = [gens.spec_for(src, 4, 30)]
    if src.chance(1, 2):
        specs.append(gens.spec_for(src, 4, 30) if src.chance(1, 2) else copy.deepcopy(specs[0]))
    for spec in specs:
        for fs in spec.values():
            fs.setdefault("desc", "A field")
    n = src.weighted(((6, 2), (2, 3), (1, 4)))
    return [make_calls(src, specs, most) for _ in range(n)]


def alone(plan):
    return [[history.run(fresh.package(), op, history.clone(op, args))[0] for op, args in calls] for calls in plan]


def compare(results, want, plan):
    for i, (r, w) in enumerate(zip(results, want)):
        if r is None:
            fail(f"thread {i} did not finish")
        kind, value = r
        if kind == "exception":
            fail(f"thread {i}: {sut.text_of_exc(value)}")
        for j, (a, b) in enumerate(zip(value, w)):
            if not same(a, b):
                fail(f"thread {i}, call {j} ({plan[i][j][0]}): got {short(a)}, alone it gives {short(b)}")


def interleaved(src):
    plan = make_plan(src)
    want = alone(plan)
    opcodes = src.chance(1, 4)
    top = src.pick((6, 20, 60, 200)) * (6 if opcodes else 1)
    schedule = [(src.draw(top), src.draw(3)) for _ in range(1 + src.draw(src.pick((2, 4, 12, 40))))]
    src.note(calls=plan, schedule=schedule, unit="bytecodes" if opcodes else "lines")
    for calls in plan:
        for op, _ in calls:
            src.label(op)
    live = [[(op, args) for op, args in calls] for calls in plan]
    fns = [lambda calls=calls: [history.run(sut.iso8583, op, args)[0] for op, args in calls] for calls in live]
    il = sched.Interleaver(fns, schedule, opcodes)
    try:
        results = il.run()
    except sched.Deadlock:
        fail("the calls block each other: one waits for something a suspended one holds")
    compare(results, want, plan)
    src.label("switches:" + ("0" if not il.switches else "1-3" if il.switches <= 3 else "4+"))
    if il.switches:
        src.nontrivial(repr(plan), repr(schedule))


def first_calls(src):
    """As interleaved, on a package that was just loaded: its very first calls overlap."""
    pkg = fresh.package()
    plan = make_plan(src, 1)
    want = alone(plan)
    schedule = [(src.draw(src.pick((6, 20, 60, 200))), src.draw(3)) for _ in range(1 + src.draw(8))]
    src.note(calls=plan, schedule=schedule)
    fns = [lambda calls=calls: [history.run(pkg, op, args)[0] for op, args in calls] for calls in plan]
    il = sched.Interleaver(fns, schedule)
    try:
        results = il.run()
    except sched.Deadlock:
        fail("the calls block each other: one waits for something a suspended one holds")
    compare(results, want, plan)
    if il.switches:
        src.nontrivial(repr(plan), repr(schedule))


def free_running(src):
    plan = make_plan(src)
    want = alone(plan)
    reps = 6
    results = [None] * len(plan)
    src.note(calls=plan)
    gate = threading.Barrier(len(plan))

    def body(i):
        try:
            gate.wait()
            out = None
            for _ in range(reps):
                out = [history.run(sut.iso8583, op, history.clone(op, args))[0] for op, args in plan[i]]
                if not all(same(a, b) for a, b in zip(out, want[i])):
                    break
            results[i] = ("value", out)
        except BaseException as e:
            results[i] = ("exception", e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(plan))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    compare(results, want, plan)
    src.nontrivial(repr(plan))


def nested(src):
    """Calls made by a signal handler, or by the specification mapping or stream, in the midst of another in the same thread."""
    outer, *inner = [calls[0] for calls in make_plan(src, 1) + make_plan(src, 1)]
    want, *want_inner = [history.run(fresh.package(), op, history.clone(op, args))[0] for op, args in (outer, *inner)]
    op, args = outer
    pkg = fresh.package()
    got = []

    def action(i):
        k = i % len(inner)
        got.append((k, history.run(pkg, *inner[k])[0]))

    if src.chance(1, 2):
        gaps = [src.draw(src.pick((4, 12, 40, 120))) for _ in range(1 + src.draw(6))]
        src.note(outer=outer, inner=inner, lines=gaps)
        src.label("nested: at lines")
        strict = False
        run = lambda: intrude.at_lines(gaps, lambda: history.run(pkg, op, args)[0], action)[0]
    else:
        n = src.draw(src.pick((4, 12, 40)))
        trigger = intrude.Trigger(n, lambda: [action(i) for i in range(len(inner))])
        src.note(outer=outer, inner=inner, access=n)
        src.label("nested: by arguments")
        strict = True
        if op == "pp" and src.chance(1, 2):
            run = lambda: print_to(pkg, intrude.TouchyStream(trigger), args)
        else:
            run = lambda: history.run(pkg, op, (args[0], intrude.touchy(args[1], trigger), *args[2:]))[0]
    try:
        result = intrude.guarded(run)
    except intrude.Blocked:
        if strict:
            fail(f"a call made in the midst of {op} blocks it")
        raise Reject("blocked")
    if not same(result, want):
        fail(f"{op} with other calls in its midst gives {short(result)}, alone {short(want)}")
    for k, res in got:
        if not same(res, want_inner[k]):
            fail(f"{inner[k][0]}, called in the midst of {op}, gives {short(res)}, alone {short(want_inner[k])}")
    if got:
        src.nontrivial(repr(outer), repr(inner), len(got))


def print_to(pkg, stream, args):
    doc, spec, desc_width, line_width = args
    r = pkg.pp(doc, spec, desc_width=desc_width, stream=stream, line_width=line_width)
    return ("ok", r, "".join(stream.out))


TESTS = [
    RandomTest("nested", nested, 3000, guided=False),
    RandomTest("first-calls", first_calls, 1600, guided=False),
    RandomTest("interleaved", interleaved, 6400, guided=False),
    RandomTest("free-running", free_running, 240, 4000, guided=False),
]
