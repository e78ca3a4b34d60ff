"""Stateless, exhaustive exploration of the real soil code.

An *execution* is a deterministic function of a *task* (a small scenario description, JSON) and a list
of integer *choices*: every source of nondeterminism of the scenario (what an agent does when it is
activated, which operation is applied next, every answer of the model's random number generator, which
task ends first, where a crash happens) is a call to ``Chooser.choose(n)``. ``explore`` runs the
scenario for **all** choice lists (depth-first over the choice tree), and compares each execution with a
reference model, step by step.
"""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold in this execution."""


class Divergence(Exception):
    """Replaying a prefix of choices did not lead to the same choice points."""


class Hang(BaseException):
    """An execution used up its time."""


class Prune(Exception):
    """This choice list does not describe a scenario of interest (e.g., a duplicate)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Chooser:
    __slots__ = ("prefix", "trace", "log")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.trace = []
        self.log = []

    def choose(self, n, label=None):
        """Pick one of ``range(n)``. All of them are explored."""
        if n <= 1:
            return 0
        i = len(self.trace)
        c = 0
        if i < len(self.prefix):
            pn, c = self.prefix[i]
            if pn != n:
                raise Divergence(f"choice {i} ({label}) has {n} alternatives, it had {pn} before")
        self.trace.append((n, c))
        return c

    def pick(self, options, label=None):
        o = options[self.choose(len(options), label)]
        return o

    def note(self, *what):
        """Readable account of the execution, for counterexamples."""
        self.log.append(" ".join(str(i) for i in what))


class ScriptedRandom(random.Random):
    """A random number generator whose answers are choices of the explorer.

    ``uniform`` is the list of values that random() may return; if it is None, random() returns a
    value that is different from all the previous ones, and the position it has among them is a
    choice (any of them in the first three draws; the first or the last one, afterwards).
    """

    rotate = False  # Only explore the rotations of a list in a shuffle (any element may be the first or the last one)

    def __init__(self, chooser, uniform=(0.0, 0.5, 0.999999)):
        self._ch = chooser
        self._uniform = uniform
        self._drawn = []
        self.calls = 0
        super().__init__(0)

    def seed(self, *args, **kwargs):
        pass

    def random(self):
        self.calls += 1
        if self._uniform is not None:
            return self._uniform[self._ch.choose(len(self._uniform), "random")]
        d = self._drawn
        if len(d) <= 2:
            pos = self._ch.choose(len(d) + 1, "random-order")
        else:
            pos = self._ch.choose(2, "random-order") * len(d)
        lo = d[pos - 1] if pos > 0 else 0.0
        hi = d[pos] if pos < len(d) else 1.0
        v = (lo + hi) / 2
        d.insert(pos, v)
        return v

    def shuffle(self, x):
        if not self.rotate:
            return super().shuffle(x)
        self.calls += 1
        i = self._ch.choose(len(x), "rotate")
        x[:] = x[i:] + x[:i]

    def _randbelow(self, n):
        self.calls += 1
        return self._ch.choose(n, "randbelow")

    def getrandbits(self, k):
        self.calls += 1
        return self._ch.choose(min(2 ** k, 4), "getrandbits")


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.maxdepth = 0
        self.pruned = 0
        self.capped = 0
        self.sample = None

    def state(self, *obj):
        self.states.add(digest(obj))

    def outcome(self, *obj):
        self.outcomes.add(digest(obj))

    def merge(self, other):
        self.executions += other.executions
        self.transitions += other.transitions
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.maxdepth = max(self.maxdepth, other.maxdepth)
        self.pruned += other.pruned
        self.capped += other.capped


class Ctx:
    """What a scenario gets: the chooser and the statistics"""

    def __init__(self, chooser, stats, task, scratch=None):
        self.ch = chooser
        self.stats = stats
        self.task = task
        self.choose = chooser.choose
        self.pick = chooser.pick
        self.note = chooser.note
        self.state = stats.state
        self.outcome = stats.outcome
        self.scratch = scratch

    def step(self, n=1):
        self.stats.transitions += n


def _alarm(signum, frame):
    raise Hang("the execution did not end in time")


@contextlib.contextmanager
def watchdog(cpu, wall):
    old1 = signal.signal(signal.SIGVTALRM, _alarm)
    old2 = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGVTALRM, old1)
        signal.signal(signal.SIGALRM, old2)


_LOGGERS = None


def forget_loggers():
    """Every environment creates loggers, which are never deleted"""
    global _LOGGERS
    loggers = logging.Logger.manager.loggerDict
    if _LOGGERS is None:
        _LOGGERS = set(loggers)
    if len(loggers) > len(_LOGGERS) + 2000:
        for k in list(loggers):
            if k not in _LOGGERS:
                del loggers[k]
        for v in loggers.values():
            if isinstance(v, logging.PlaceHolder):
                v.loggerMap.clear()


def run_once(scenario, task, prefix, stats, cpu=15, wall=300, scratch=None):
    """One execution. Returns (chooser, problem or None)."""
    forget_loggers()
    ch = Chooser(prefix)
    ctx = Ctx(ch, stats, task, scratch)
    problem = None
    sink = io.StringIO()
    try:
        with watchdog(cpu, wall), contextlib.redirect_stdout(sink):
            scenario(ctx)
    except Prune:
        stats.pruned += 1
    except Violation as ex:
        problem = str(ex)
    except Divergence as ex:
        problem = f"the execution is not reproducible: {ex}"
    except Hang:
        problem = "the execution did not end (time limit of one execution exceeded)"
    except RecursionError as ex:
        problem = f"unexpected RecursionError: {ex}"
    except (Exception, SystemExit) as ex:
        tb = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-6:])
        problem = f"unexpected {type(ex).__name__}: {ex}\n{tb}"
    stats.executions += 1
    stats.maxdepth = max(stats.maxdepth, len(ch.trace))
    if problem is None and len(ch.trace) < len(prefix):
        problem = (f"the execution is not reproducible: it ended after {len(ch.trace)} choices, "
                   f"and {len(prefix)} were expected")
    return ch, problem


def explore(scenario, task, stats, limit=None, scratch=None, cpu=15, wall=300, root=(), deadline=None):
    """Run all the executions of a scenario. Returns a counterexample or None.

    After the deadline (which is never reached in the unchanged tree), the exploration is abandoned, and counted as such"""
    prefix = [tuple(i) for i in root]
    fixed = len(prefix)
    while True:
        ch, problem = run_once(scenario, task, prefix, stats, cpu=cpu, wall=wall, scratch=scratch)
        if problem is not None:
            return dict(task=task, choices=[list(i) for i in ch.trace], problem=problem, log=ch.log[-200:])
        if stats.sample is None or (ch.log and len(ch.trace) > len(stats.sample["choices"])
                                    and len(ch.trace) < 40):
            stats.sample = dict(task=task, choices=[c for (_, c) in ch.trace], log=ch.log[:60])
        trace = ch.trace
        while len(trace) > fixed and trace[-1][1] + 1 >= trace[-1][0]:
            trace.pop()
        if len(trace) <= fixed:
            return None
        n, c = trace.pop()
        prefix = trace + [(n, c + 1)]
        if (limit and stats.executions >= limit) or (deadline is not None and time.time() > deadline):
            stats.capped += 1
            return None


def split(scenario, task, depth, scratch=None):
    """Divide the exploration of a task: one root (list of the first choices) per subtree."""
    roots = []
    prefix = []
    stats = Stats()
    while True:
        ch, problem = run_once(scenario, task, prefix, stats, scratch=scratch)
        head = ch.trace[:depth]
        roots.append(list(head))
        if problem is not None:
            # It will be found again by the task of this root
            return roots
        while head and head[-1][1] + 1 >= head[-1][0]:
            head.pop()
        if not head:
            return roots
        n, c = head.pop()
        prefix = head + [(n, c + 1)]
