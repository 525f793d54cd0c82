"""
Deterministic scheduling of real threads: exactly one of them (the holder of the baton) runs at any time, and it can lose
the baton only at a preemption point, i.e. before any line (or bytecode instruction) of the library, as the schedule says.
"""
import ctypes
import os
import random
import sys
import threading

from . import loader

_poll = ctypes.CDLL(None).poll


class _pollfd(ctypes.Structure):
    _fields_ = [('fd', ctypes.c_int), ('events', ctypes.c_short), ('revents', ctypes.c_short)]


class Sched:
    """
    :param switches: [[task, step, other]]: before its step number `step` the task `task` hands over to `other`
    :param every: alternatively, switch to a random other task after a random number of about `every` steps
    """
    def __init__(self, switches=(), every=0, seed=0, opcodes=False, stall=3.0):
        self.switches = {}
        for task, step, other in switches:
            self.switches.setdefault((task, int(step)), other)
        self.every, self.rng = every, random.Random(seed)
        self.next = self.gap() if every else -1
        self.opcodes = opcodes
        self.stall = stall
        self.steps = 0
        self.nswitch = 0
        self.watchdog = 0
        self.per = []
        self.cur = None
        self.log = []

    def gap(self):
        return 1 + int(self.rng.expovariate(1 / self.every))

    def run(self, tasks):
        """-> [('ok', value) | ('exc', exception)] per task."""
        n = len(tasks)
        self.results = [None] * n
        self.alive = [True] * n
        self.per = [0] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        r, self.done = os.pipe()
        threads = [threading.Thread(target=self.body, args=(k, fn), daemon=True) for k, fn in enumerate(tasks)]
        for t in threads:
            t.start()
        self.cur = self.rng.randrange(n) if self.every else 0
        self.sems[self.cur].release()
        last, idle = -1, 0
        fd = _pollfd(r, 1, 0)
        while not _poll(ctypes.byref(fd), 1, 200):  # real time, without asking the (simulated) clock
            if self.steps != last:
                last, idle = self.steps, 0
                continue
            idle += .2
            if idle >= self.stall:
                # the holder of the baton waits for something another task has (a lock): let that run
                others = [k for k in range(n) if self.alive[k] and k != self.cur]
                if others:
                    self.watchdog += 1
                    self.cur = others[self.watchdog % len(others)]
                    self.sems[self.cur].release()
                idle = 0
        for t in threads:
            t.join()
        os.close(r)
        os.close(self.done)
        return self.results

    def body(self, k, fn):
        self.sems[k].acquire()
        try:
            sys.settrace(self.trace)
            try:
                self.results[k] = ('ok', fn())
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            self.results[k] = ('exc', e)
        self.alive[k] = False
        rest = [j for j in range(len(self.alive)) if self.alive[j]]
        if rest:
            self.cur = rest[self.rng.randrange(len(rest))] if self.every else rest[0]
            self.sems[self.cur].release()
        else:
            os.write(self.done, b'x')

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(loader.SRC):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local
        return None

    def local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point()
        return self.local

    def point(self):
        me = self.cur
        self.steps += 1
        self.per[me] += 1
        to = None
        if self.every:
            self.next -= 1
            if self.next <= 0:
                self.next = self.gap()
                others = [j for j in range(len(self.alive)) if self.alive[j] and j != me]
                if others:
                    to = others[self.rng.randrange(len(others))]
        elif (me, self.per[me]) in self.switches:
            to = self.switches[me, self.per[me]] % len(self.alive)
            if not self.alive[to] or to == me:
                others = [j for j in range(len(self.alive)) if self.alive[j] and j != me]
                to = others[to % len(others)] if others else None
        if to is not None:
            self.nswitch += 1
            self.log.append((me, self.per[me], to))
            self.cur = to
            self.sems[to].release()
            self.sems[me].acquire()
            self.cur = me
