from checks import history, mutate
from checks.common import *
from checks.c16 import make_calls
from pbt import fresh, gens, intrude
from pbt.engine import RandomTest

RULE = (
    "a call of encode, decode or pp is ended half-way by an exception: KeyboardInterrupt, MemoryError and the like at a generated line of the package, or an "
    "exception from the specification mapping, the stream or a codec at a generated access. The same and other calls made afterwards have to "
    "give what a newly executed copy of the package gives, and the arguments of the interrupted call are unchanged but for encode's bitmap entries. Non-trivial: the call was "
    "interrupted; counted per distinct (calls, place)"
)
ASSUMPTIONS = ("an interruption comes between two lines of the package or from within one of its arguments",)
ERRORS = (KeyboardInterrupt, MemoryError, SystemExit, RuntimeError, ValueError, KeyError, RecursionError, GeneratorExit, UnicodeError)


class Own(Exception):
    pass


def plan(src):
    specs = [gens.spec_for(src, 4, 30)]
    if src.chance(1, 3):
        specs.append(gens.spec_for(src, 4, 30))
    for spec in specs:
        for fs in spec.values():
            fs.setdefault("desc", "A field")
            for n in ("data_enc", "len_enc"):
                if fs[n] not in ("b", "bcd") and src.chance(1, 3) and gens.codec_exists(fs[n]) and "00".encode(fs[n]) == b"00":
                    fs[n] = "verif_touchy"
    first = make_calls(src, specs, 1)[0]
    later = make_calls(src, specs, 3)
    if src.chance(2, 3):
        later.insert(0, first)
    return first, later


def error(src):
    return src.pick(ERRORS + (Own,))


def raiser(cls):
    def action():
        raise cls("interrupted")

    return action


def unchanged(op, args, before):
    now = list(args)
    was = list(before)
    if op == "encode":
        now[0] = {k: v for k, v in args[0].items() if k not in ("p", "1", "65")}
        was[0] = {k: v for k, v in before[0].items() if k not in ("p", "1", "65")}
    for a, b in zip(now, was):
        if not same(a, b):
            fail(f"the interrupted {op} changed an argument from {short(b)} to {short(a)}")


def afterwards(pkg, later, strict):
    want = [history.run(fresh.package(), op, history.clone(op, args))[0] for op, args in later]
    for i, (op, args) in enumerate(later):
        try:
            got, _ = intrude.guarded(lambda: history.run(pkg, op, history.clone(op, args)))
        except intrude.Blocked:
            if strict:
                fail(f"call {i} after the interruption, {op}, never returns")
            raise Reject("blocked")
        if not same(got, want[i]):
            fail(f"call {i} after the interruption, {op}, gives {short(got)}; a fresh process gives {short(want[i])}")


def interrupted(src, what, cls, pkg, run, op, args, later, fired, strict):
    before = history.clone(op, args)
    try:
        intrude.guarded(run)
    except intrude.Blocked:
        raise Reject("blocked")
    except BaseException as e:
        ended = e
        src.label(f"{what}, {op} ended by {type(e).__name__}")
    else:
        ended = None
        src.label(f"{what}, {op} not ended")
    if fired() and not issubclass(cls, Exception) and type(ended) is not cls:
        fail(f"{op} turned {cls.__name__} into {ended!r}")
    unchanged(op, args, before)
    if fired():
        src.nontrivial(op, repr(args), repr(later))
    afterwards(pkg, later, strict)


def at_any_line(src):
    first, later = plan(src)
    pkg = fresh.package()
    op, args = first
    cls = src.pick((KeyboardInterrupt, MemoryError, SystemExit, Own))
    n = src.draw(src.pick((4, 20, 60, 200)))
    src.note(call=first, line=n, error=cls.__name__, later=later)
    got = [False]

    def action(i):
        got[0] = True
        raise cls("interrupted")

    interrupted(src, "line", cls, pkg, lambda: intrude.at_lines([n], lambda: call(pkg, op, args), action), op, args, later, lambda: got[0], False)


def call(pkg, op, args, stream=None):
    if op == "encode":
        return pkg.encode(*args)
    if op == "decode":
        return pkg.decode(*args)
    doc, spec, dw, lw = args
    return pkg.pp(doc, spec, desc_width=dw, stream=stream or history.Sink(), line_width=lw)


def from_arguments(src):
    first, later = plan(src)
    pkg = fresh.package()
    op, args = first
    cls = error(src)
    n = src.draw(src.pick((4, 12, 40)))
    src.note(call=first, access=n, error=cls.__name__, later=later)
    trigger = intrude.Trigger(n, raiser(cls))
    stream = None
    used = list(args)
    intrude.codec_trigger = None
    if op != "pp" and src.chance(1, 3):
        src.note(raised_by="codec")
        trigger.left = n % 4
        intrude.codec_trigger = trigger
    elif op == "pp" and src.chance(1, 2):
        stream = intrude.TouchyStream(trigger)
    else:
        used[1] = intrude.touchy(args[1], trigger)
    def run():
        try:
            call(pkg, op, used, stream)
        finally:
            intrude.codec_trigger = None

    what = "codec" if intrude.codec_trigger else "argument"
    interrupted(src, what, cls, pkg, run, op, args, later, lambda: trigger.fired, True)


def repeatedly(src):
    """Many interruptions in a row, then calls."""
    first, later = plan(src)
    pkg = fresh.package()
    op, args = first
    cls = src.pick((KeyboardInterrupt, MemoryError))
    step = 1 + src.draw(5)
    src.note(call=first, every=step, error=cls.__name__, later=later)
    n, hits = src.draw(step), 0
    while n < 400:
        there = False

        def action(i):
            nonlocal there
            there = True
            raise cls("interrupted")

        try:
            intrude.guarded(lambda: intrude.at_lines([n], lambda: call(pkg, op, history.clone(op, args)), action))
        except intrude.Blocked:
            raise Reject("blocked")
        except BaseException:
            pass
        if not there:
            break
        hits += 1
        n += step
    src.label(f"interrupted {'under 20' if hits < 20 else '20 or more'} times")
    afterwards(pkg, later, False)
    if hits:
        src.nontrivial(op, repr(args), repr(later), step)


def first_call(src):
    """The very first call of a process is interrupted."""
    pkg = fresh.package()
    first, later = plan(src)
    op, args = first
    n = src.draw(src.pick((4, 20, 60, 200)))
    src.note(call=first, line=n, later=later)
    got = [False]

    def action(i):
        got[0] = True
        raise KeyboardInterrupt

    try:
        intrude.at_lines([n], lambda: call(pkg, op, history.clone(op, args)), action)
    except BaseException:
        pass
    afterwards(pkg, later, False)
    if got[0]:
        src.nontrivial(op, repr(args), n)


TESTS = [
    RandomTest("from-arguments", from_arguments, 5000, guided=False),
    RandomTest("at-any-line", at_any_line, 6000, guided=False),
    RandomTest("first-call", first_call, 1200, guided=False),
    RandomTest("repeatedly", repeatedly, 1000, guided=False),
]
