"""Helpers to build small worlds whose nondeterminism is controlled by the explorer"""
import math

import mesa
import soil
from soil import agents, environment
from soil import time as stime

from .core import ScriptedRandom

INF = float("inf")


class CUR:
    """What the (cached) classes of the current execution refer to"""
    ctx = None
    uniform = None
    world = None


_CACHE = {}


def scripted(base, ctx, uniform=(0.0, 0.5, 0.999999)):
    """A subclass of an environment whose random numbers are choices of the explorer"""
    CUR.ctx = ctx
    CUR.uniform = uniform
    if base in _CACHE:
        return _CACHE[base]

    class Scripted(base):
        def __new__(cls, *args, **kwargs):
            self = super().__new__(cls, *args, **kwargs)
            self.random = ScriptedRandom(CUR.ctx.ch, CUR.uniform)
            return self

    Scripted.__name__ = base.__name__
    _CACHE[base] = Scripted
    return Scripted


def pq(shuffle):
    class PQ(stime.PQueueActivation):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, shuffle=shuffle, **kwargs)
    return PQ


SCHEDULERS = {
    "timed": stime.TimedActivation,
    "shuffled": stime.ShuffledTimedActivation,
    "ordered": stime.OrderedTimedActivation,
    "pq": pq(True),
    "pq-ordered": pq(False),
}


def close(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-12, abs_tol=0.0)
