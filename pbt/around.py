"""Surroundings in which an application may call the package. Each is a function that makes a call and returns its result."""

import asyncio
import contextvars
import decimal
import functools
import gc
import os
import random
import sys
import threading
import warnings
import weakref


def thread(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    return out[0]


def daemon_with_small_stack(fn):
    old = threading.stack_size(256 * 1024)
    try:
        return thread(fn)
    finally:
        threading.stack_size(old)


def coarse_decimals(fn):
    with decimal.localcontext(decimal.Context(prec=1, Emax=1, Emin=-1, traps=[decimal.Inexact, decimal.Rounded, decimal.FloatOperation])):
        return fn()


def traced(fn):
    old = sys.gettrace()

    def trace(frame, event, arg):
        return trace

    sys.settrace(trace)
    try:
        return fn()
    finally:
        sys.settrace(old)


def profiled(fn):
    old = sys.getprofile()
    sys.setprofile(lambda *a: None)
    try:
        return fn()
    finally:
        sys.setprofile(old)


def deep(fn, room=120):
    """With room for some 120 more frames."""

    def down(n):
        return fn() if n <= 0 else down(n - 1)

    depth, f = 0, sys._getframe()
    while f:
        depth, f = depth + 1, f.f_back
    return down(sys.getrecursionlimit() - depth - room)


def handling(fn):
    try:
        raise KeyError("2")
    except KeyError:
        return fn()


def finishing(fn):
    try:
        raise ValueError("pending")
    except ValueError:
        try:
            pass
        finally:
            return fn()


def in_generator(fn):
    def gen():
        yield fn()

    return next(gen())


def in_event_loop(fn):
    async def main():
        return fn()

    return asyncio.run(main())


def in_coroutine(fn):
    async def main():
        return fn()

    c = main()
    try:
        c.send(None)
    except StopIteration as e:
        return e.value


def in_context(fn):
    return contextvars.Context().run(fn)


def in_destructor(fn):
    out = []

    class Gone:
        def __del__(self):
            out.append(fn())

    g = Gone()
    del g
    return out[0]


def in_callback(fn):
    class Gone:
        pass

    g = Gone()
    out = []
    ref = weakref.ref(g, lambda r: out.append(fn()))
    del g
    del ref
    return out[0] if out else fn()


def in_sort(fn):
    out = []
    sorted([1], key=lambda x: out.append(fn()) or 0)
    return out[0]


def strict_warnings(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        return fn()


def no_streams(fn):
    saved = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = sys.stdout = sys.stderr = None
    try:
        return fn()
    finally:
        sys.stdin, sys.stdout, sys.stderr = saved


def no_collector(fn):
    gc.disable()
    try:
        return fn()
    finally:
        gc.enable()


def eager_collector(fn):
    old = gc.get_threshold()
    gc.set_threshold(1, 1, 1)
    try:
        return fn()
    finally:
        gc.set_threshold(*old)


def few_int_digits(fn):
    old = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(640)
    try:
        return fn()
    finally:
        sys.set_int_max_str_digits(old)


def bare_environment(fn):
    saved = dict(os.environ)
    os.environ.clear()
    try:
        return fn()
    finally:
        os.environ.update(saved)


def seeded(fn):
    state = random.getstate()
    random.seed(0)
    try:
        return fn()
    finally:
        random.setstate(state)


def no_tracebacks(fn):
    sys.tracebacklimit = 0
    try:
        return fn()
    finally:
        del sys.tracebacklimit


AROUND = (
    thread, daemon_with_small_stack, coarse_decimals, traced, profiled, deep, handling, finishing, in_generator, in_event_loop, in_coroutine, in_context, in_destructor,
    in_callback, in_sort, strict_warnings, no_streams, no_collector, eager_collector, few_int_digits, bare_environment, seeded, no_tracebacks,
)  # fmt: skip
WITHIN = tuple(f for f in AROUND if f not in (in_event_loop, daemon_with_small_stack, traced, profiled))


# Who calls: the function of the package is handed over and called from there


def _script(f, a, k):
    ns = {"__name__": "__main__", "f": f, "a": a, "k": k}
    exec(compile("out = f(*a, **k)", "<stdin>", "exec"), ns)
    return ns["out"]


def _nameless(f, a, k):
    ns = {"f": f, "a": a, "k": k}
    return eval(compile("f(*a, **k)", "<string>", "eval"), ns)


def _from_c(f, a, k):
    return next(map(functools.partial(f, **k), *[[x] for x in a]))


def _in_package(f, a, k):
    """A function of the user's own that bears the name of one of the package's modules."""
    ns = {"__name__": "iso8583.user", "__file__": "/nonexistent/iso8583/user.py", "__package__": "iso8583"}
    exec(compile("def decode(f, a, k):\n    return f(*a, **k)", "/nonexistent/iso8583/user.py", "exec"), ns)
    return ns["decode"](f, a, k)


def _test(f, a, k):
    ns = {"__name__": "tests.test_user", "__file__": "/nonexistent/tests/test_user.py"}
    exec(compile("def test_user(f, a, k):\n    return f(*a, **k)", "/nonexistent/tests/test_user.py", "exec"), ns)
    return ns["test_user"](f, a, k)


class Caller:
    """The package, called from another place."""

    def __init__(self, pkg, how):
        self.__dict__.update(DecodeError=pkg.DecodeError, EncodeError=pkg.EncodeError)
        for n in ("encode", "decode", "pp"):
            self.__dict__[n] = lambda *a, _f=getattr(pkg, n), **k: how(_f, a, k)


CALLERS = (_script, _nameless, _from_c, _in_package, _test)
