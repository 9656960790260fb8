"""Another world for the code under test: an environment in which every variable is set, arguments that hold every option,
another platform, another time. Installed in a worker process before the package is imported."""

import datetime
import os
import random
import sys
import time
import zlib

_turn = random.Random(0)


def environment():
    """Every variable is set, every option given, and the interpreter interactive."""

    class Every(type(os.environ)):
        def __getitem__(self, key):
            try:
                return super().__getitem__(key)
            except KeyError:
                if isinstance(key, str) and not key.startswith(("VERIF", "PYTHON", "LC_", "LANG", "TZ")):
                    return _value
                raise

    class Options(list):
        def __contains__(self, x):
            return True

    os.environ.__class__ = Every
    sys.argv = Options(sys.argv + ["--lax", "-v", "debug"])
    sys.ps1, sys.ps2 = ">>> ", "... "
    _each.append(_other_value)


_value = "1"


def _other_value():
    global _value
    _value = _turn.choice(("1", "1", "true", "yes", "on", "0", "40", "ascii", "x"))


def platform():
    """The names of another platform."""
    sys.platform, os.name, os.linesep = "win32", "nt", "\r\n"
    sys.maxsize = 2**31 - 1
    import platform as p

    p.system = lambda: "Windows"
    p.machine = lambda: "x86"
    p.python_implementation = lambda: "PyPy"
    os.getpid = lambda: 1
    os.cpu_count = lambda: 1
    import socket

    socket.gethostname = lambda: "prod-1"


def clock():
    """Another time at each call."""
    real = {n: getattr(time, n) for n in ("localtime", "gmtime", "strftime", "ctime", "asctime")}
    _each.append(_other_time)
    time.time = lambda: _now
    time.time_ns = lambda: int(_now * 10**9)
    time.monotonic = time.perf_counter = time.process_time = time.thread_time = lambda: _now / 7
    time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = lambda: int(_now * 10**9) // 7
    time.localtime = lambda t=None: real["localtime"](_now if t is None else t)
    time.gmtime = lambda t=None: real["gmtime"](_now if t is None else t)
    time.strftime = lambda f, t=None: real["strftime"](f, real["localtime"](_now) if t is None else t)
    time.ctime = lambda t=None: real["ctime"](_now if t is None else t)
    time.asctime = lambda t=None: real["asctime"](real["localtime"](_now) if t is None else t)
    d, t = datetime.date, datetime.datetime

    class Kind(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls.__mro__[1])

    class datetime_(t, metaclass=Kind):
        @classmethod
        def now(cls, tz=None):
            return t.fromtimestamp(_now, tz)

        @classmethod
        def today(cls):
            return t.fromtimestamp(_now)

        @classmethod
        def utcnow(cls):
            return t.fromtimestamp(_now, datetime.timezone.utc).replace(tzinfo=None)

    class date_(d, metaclass=Kind):
        @classmethod
        def today(cls):
            return d.fromtimestamp(_now)

    datetime_.__name__, date_.__name__ = "datetime", "date"
    datetime.datetime, datetime.date = datetime_, date_


_now = 1.8e9


def _other_time():
    """Any second of a hundred years, often one around midnight, a month's or year's end, or a limit of some clock."""
    global _now
    k = _turn.randrange(8)
    day = 86400
    if k == 0:
        _now = _turn.choice((0, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 10**9, 4102444800 - 1, 4102444800)) + _turn.choice((0, 0.5))
    elif k == 1:  # end of a year
        _now = time.mktime((_turn.randrange(1990, 2090), 1, 1, 0, 0, 0, 0, 0, 0)) + _turn.choice((-1, 0, -day, 3600))
    elif k == 2:  # leap day
        _now = time.mktime((4 * _turn.randrange(498, 520), 2, 29, _turn.randrange(24), 0, 0, 0, 0, 0))
    elif k == 3:  # another year, this second
        _now = 1.8e9 + _turn.randrange(60) * 365.25 * day
    else:
        _now = _turn.randrange(70 * 365 * day) + _turn.random() + 946684800


_each = []
KINDS = {"environment": environment, "platform": platform, "clock": clock}


def before_call(data):
    """The world of a call depends on nothing but the call."""
    if _each:
        _turn.seed(zlib.crc32(data))
        for fn in _each:
            fn()
