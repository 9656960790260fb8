"""The state of the process outside the arguments of a call, and what a call does to it."""

import _abc
import atexit
import builtins
import collections.abc
import codecs
import contextvars
import copyreg
import decimal
import encodings.aliases
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings

# audit events of reading or changing something outside the process's own data
_OUTSIDE = (
    "open", "os.", "shutil.", "subprocess.", "socket.", "tempfile.", "sqlite3.", "urllib.", "ctypes.", "signal.", "mmap.", "fcntl.", "syslog.", "ftplib.",
    "http.", "smtplib.", "glob.", "pathlib.", "webbrowser.", "_thread.start", "sys.settrace", "sys.setprofile", "sys.addaudithook", "sys.excepthook",
    "sys.set_asyncgen", "sys.unraisablehook", "builtins.input", "builtins.breakpoint", "time.sleep", "faulthandler.", "resource.", "pty.", "gc.",
    "cpython.run", "import", "exec", "compile", "pickle.", "marshal.",
)  # fmt: skip
_events = None


def _hook(event, args):
    if _events is not None and event.startswith(_OUTSIDE):
        _events.append((event, [repr(a)[:80] for a in args[:2]]))


sys.addaudithook(_hook)


class _Log:
    """Sees every record that is made, without being a handler (some functions act only if there are none)."""

    def __init__(self):
        self.records = []
        self.make = logging.getLogRecordFactory()

    def __call__(self, *args, **kwargs):
        record = self.make(*args, **kwargs)
        self.records.append(record.getMessage())
        return record


def _state():
    return {
        "random numbers": random.getstate(),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "limit of int digits": sys.get_int_max_str_digits(),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "threads": threading.active_count(),
        "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGUSR1)],
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook),
        "import path": list(sys.path),
        "warning filters": list(warnings.filters),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr),
        "context": list(contextvars.copy_context().items()),
        "loggers": sorted(logging.root.manager.loggerDict),
        "codec error handlers": [codecs.lookup_error(n) for n in ("strict", "ignore", "replace")],
        "builtins": sorted(vars(__import__("builtins"))),
        "umask": _umask(),
        "modules": set(sys.modules),
        "picklers": dict(copyreg.dispatch_table),
        "exit handlers": atexit._ncallbacks(),
        "disabled logging": logging.root.manager.disable,
        "levels of loggers": [(n, g.level, g.disabled, len(g.handlers)) for n, g in sorted(logging.root.manager.loggerDict.items()) if isinstance(g, logging.Logger)],
        "last error": [getattr(sys, n, None) for n in ("last_value", "last_exc", "tracebacklimit", "ps1")],
        "root logger": (logging.root.level, logging.root.disabled, list(logging.root.handlers), list(logging.root.filters)),
        "logging": (logging.raiseExceptions, logging.lastResort, logging.getLoggerClass(), logging.getLogRecordFactory(), logging.getLevelName(10)),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks), sys.dont_write_bytecode, sys.pycache_prefix),
        "callbacks of the collector": list(gc.callbacks),
        "defaults of threads": (threading.stack_size(), threading.gettrace(), threading.getprofile()),
        "timers": signal.getitimer(signal.ITIMER_REAL),
        "time zone": (time.tzname, time.timezone),
        "default decimal contexts": [repr(c) for c in (decimal.DefaultContext, decimal.BasicContext, decimal.ExtendedContext)],
        "aliases of codecs": dict(encodings.aliases.aliases),
        "default timeout of sockets": socket.getdefaulttimeout(),
        "limits": [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_STACK)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "tracing": (sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth(), sys.getdlopenflags()),
        "virtual subclasses": [len(_abc._get_dump(c)[0]) for c in (collections.abc.Mapping, collections.abc.MutableMapping, collections.abc.Sequence)],
        "frozen objects": gc.get_freeze_count(),
        "functions of builtins": dict(vars(builtins)),
    }


class _Environment(type(os.environ)):
    """Notes which variables are looked at."""

    def __getitem__(self, key):
        _looked.append(key)
        return super().__getitem__(key)

    def __iter__(self):
        _looked.append("all")
        return super().__iter__()


_looked = []


def _umask():
    try:
        with io.open("/proc/self/status") as f:
            for line in f:
                if line.startswith("Umask"):
                    return line
    except OSError:
        pass
    return None


def _undo(s):
    """What one case did to the process does not reach the next."""
    random.setstate(s["random numbers"])
    locale.setlocale(locale.LC_ALL, s["locale"])
    if dict(os.environ) != s["environment"]:
        os.environ.clear()
        os.environ.update(s["environment"])
    if os.getcwd() != s["working directory"]:
        os.chdir(s["working directory"])
    sys.setrecursionlimit(s["recursion limit"])
    sys.setswitchinterval(s["switch interval"])
    sys.set_int_max_str_digits(s["limit of int digits"])
    (gc.enable if s["garbage collector"][0] else gc.disable)()
    gc.set_threshold(*s["garbage collector"][1])
    gc.set_debug(s["garbage collector"][2])
    sys.excepthook, sys.displayhook = s["hooks"][:2]
    sys.path[:] = s["import path"]


def watch(fn, first=False):
    """(what the call did to the rest of the process as a list of texts, its result or exception). Events and new
    loggers are overlooked if it is the first call, which may import modules and codecs."""
    global _events
    out = io.StringIO()
    err = io.StringIO()
    log = _Log()
    root = logging.getLogger()
    level, handlers = root.level, list(root.handlers)
    root.handlers[:] = []
    root.setLevel(1)
    logging.setLogRecordFactory(log)
    saved = sys.stdout, sys.stderr
    seen = []
    try:
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            sys.stdout, sys.stderr = out, err
            context = decimal.getcontext().copy()
            before = _state()
            _looked.clear()
            plain, os.environ.__class__ = os.environ.__class__, _Environment
            _events = events = []
            try:
                res = ("returned", fn())
            except Exception as e:
                res = ("raised", e)
            finally:
                _events = None
                os.environ.__class__ = plain
            looked = sorted(set(map(str, _looked)))
            after = _state()
            if before != after:
                _undo(before)
                decimal.setcontext(context)
    finally:
        sys.stdout, sys.stderr = saved
        logging.setLogRecordFactory(log.make)
        root.handlers[:] = handlers
        root.setLevel(level)
    for k in before:
        if before[k] != after[k] and not (first and k in ("loggers", "levels of loggers", "modules", "picklers")):
            seen.append(f"changed the {k} of the process from {str(before[k])[:200]} to {str(after[k])[:200]}")
    if out.getvalue():
        seen.append(f"wrote {out.getvalue()[:200]!r} to standard output")
    if err.getvalue():
        seen.append(f"wrote {err.getvalue()[:200]!r} to standard error")
    seen += [f"issued the warning {str(w.message)[:200]!r}" for w in warned]
    seen += [f"logged {t[:200]!r}" for t in log.records]
    if not first:
        seen += [f"caused the event {name} {args}" for name, args in events]
        seen += [f"looked at the environment variable {name}" for name in looked]
    return seen, res
