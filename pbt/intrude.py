"""Interrupts a call of the package, or makes another one in the midst of it, in the same thread."""

import codecs
import collections.abc
import os
import signal
import sys

from pbt.engine import REPO, Reject, fail

_prefix = os.path.join(os.path.realpath(REPO), "iso8583") + os.sep
_ours = {}
_slow = True


class Blocked(BaseException):
    """The call waits for something that will never happen."""


def _is_ours(filename):
    r = _ours.get(filename)
    if r is None:
        r = _ours[filename] = os.path.realpath(filename).startswith(_prefix)
    return r


def at_lines(gaps, fn, action):
    """Executes fn; before the line of the package that comes gaps[0] lines after its first, the one gaps[1] + 1 lines
    after that and so on, action(i) is called: it may raise, or make calls of its own (which are not counted). Returns
    fn's result and how many times action was called."""
    left = gaps[0]
    at = 0

    def local(frame, event, arg):
        nonlocal left, at
        if event == "line" and at < len(gaps):
            left -= 1
            if left < 0:
                at += 1
                if at < len(gaps):
                    left = gaps[at]
                action(at - 1)
        return local

    def tracer(frame, event, arg):
        return local if at < len(gaps) and _is_ours(frame.f_code.co_filename) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn(), at
    finally:
        sys.settrace(old)


class Touchy(collections.abc.Mapping):
    """A mapping that calls action at its nth access."""

    def __init__(self, d, trigger):
        self._d, self._trigger = d, trigger

    def __getitem__(self, k):
        self._trigger()
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Trigger:
    def __init__(self, n, action):
        self.left, self.action, self.fired = n, action, False

    def __call__(self):
        if self.fired:
            return
        self.left -= 1
        if self.left < 0:
            self.fired = True
            self.action()


def touchy(spec, trigger):
    return Touchy({k: Touchy(v, trigger) for k, v in spec.items()}, trigger)


class TouchyStream:
    def __init__(self, trigger):
        self.out, self._trigger = [], trigger

    def write(self, s):
        self._trigger()
        self.out.append(s)
        return len(s)


def guarded(fn):
    """fn(), or Blocked if it makes no progress (the package waits for a lock, say)."""
    global _slow

    def ring(signum, frame):
        raise Blocked()

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, 30.0 if _slow else 1.0)
    try:
        return fn()
    except Blocked:
        _slow = False
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


codec_trigger = None


def _touch():
    if codec_trigger is not None:
        codec_trigger()


def _encode(s, errors="strict"):
    _touch()
    return codecs.latin_1_encode(s, errors)


def _decode(b, errors="strict"):
    _touch()
    return codecs.latin_1_decode(b, errors)


def _search(name):
    return codecs.CodecInfo(_encode, _decode, name=name) if name == "verif_touchy" else None


codecs.register(_search)  # latin-1 under another name, with codec_trigger called at each use
