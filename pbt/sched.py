"""Runs several functions in threads, one at a time, switching exactly where a schedule says: after a given number of
executed lines (or bytecodes) of the code under test. The schedule is data, so an interleaving replays exactly."""

import os
import sys
import threading

from pbt.engine import REPO, Hang

_prefix = os.path.join(os.path.realpath(REPO), "iso8583") + os.sep
_ours = {}
freed = 0  # interleavings of this process that had to be given up because the code under test uses locks


def _is_ours(filename):
    r = _ours.get(filename)
    if r is None:
        r = _ours[filename] = os.path.realpath(filename).startswith(_prefix)
    return r


class Deadlock(Exception):
    """All threads are blocked: the code under test waits for something that a suspended call holds."""


class Interleaver:
    def __init__(self, fns, schedule, opcodes=False):
        """schedule: list of (events before the switch, index of the choice among the other live threads)"""
        self.fns = fns
        self.schedule = list(schedule)
        self.opcodes = opcodes
        self.locks = [threading.Lock() for _ in fns]
        for lock in self.locks:
            lock.acquire()
        self.live = set(range(len(fns)))
        self.results = [None] * len(fns)
        self.switches = 0
        self.events = 0
        self.free = False
        self.done = threading.Event()
        self.next_switch()

    def next_switch(self):
        if self.schedule:
            self.left, self.to = self.schedule.pop(0)
        else:
            self.left, self.to = -1, 0

    def run(self, timeout=60.0):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in threads:
            t.start()
        self.locks[0].release()
        waited, seen = 0.0, -1
        global freed
        step = 0.5 if freed < 8 else 0.02
        while not self.done.wait(step):
            waited += step
            if waited > timeout:
                raise Deadlock()
            if seen == self.events and not self.free:
                # the running thread waits for a lock that a suspended one holds (or the machine is very slow):
                # from here on all threads run freely
                self.free = True
                freed += 1
                for i, lock in enumerate(self.locks):
                    if i in self.live and lock.locked():
                        try:
                            lock.release()
                        except RuntimeError:
                            pass
            seen = self.events
        for t in threads:
            t.join()
        return self.results

    def body(self, i):
        self.locks[i].acquire()
        sys.settrace(self.make_tracer(i))
        try:
            self.results[i] = ("value", self.fns[i]())
        except BaseException as e:
            self.results[i] = ("exception", e)
        finally:
            sys.settrace(None)
            self.live.discard(i)
            if self.live:
                self.hand_to(min(self.live))
            else:
                self.done.set()

    def make_tracer(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.tick(i)
            return local

        def tracer(frame, event, arg):
            if _is_ours(frame.f_code.co_filename):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return tracer

    def tick(self, i):
        self.events += 1
        if self.left < 0 or self.free:
            return
        self.left -= 1
        if self.left >= 0:
            return
        others = sorted(self.live - {i})
        to = others[self.to % len(others)] if others else None
        self.next_switch()
        if to is None:
            return
        self.switches += 1
        self.hand_to(to)
        if not self.free:
            self.locks[i].acquire()

    def hand_to(self, i):
        try:
            self.locks[i].release()
        except RuntimeError:
            pass  # released already, when all threads were set free
