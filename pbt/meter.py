"""Deterministic measures of what a call costs: lines of the package executed, and peak memory allocated by Python."""

import os
import sys
import tracemalloc

from pbt.engine import REPO

_prefix = os.path.join(os.path.realpath(REPO), "iso8583") + os.sep
_ours = {}


class TooMuch(BaseException):
    pass


def _is_ours(filename):
    r = _ours.get(filename)
    if r is None:
        r = _ours[filename] = os.path.realpath(filename).startswith(_prefix)
    return r


def lines(fn, most):
    """Executes fn; the number of lines of the package it ran. TooMuch if there are more than most."""
    n = 0

    def local(frame, event, arg):
        nonlocal n
        if event == "line":
            n += 1
            if n > most:
                raise TooMuch()
        return local

    def tracer(frame, event, arg):
        return local if _is_ours(frame.f_code.co_filename) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(old)
    return n


def memory(fn):
    """Executes fn; the most bytes allocated at any time over what was allocated before."""
    tracemalloc.start(1)
    try:
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        fn()
        return tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()
