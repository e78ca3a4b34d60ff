"""C22: work that is distributed among processes."""
import itertools
import logging
import multiprocessing
import os
import time as clock

from soil import utils
from mc.core import Violation, check, same, Prune
from mc.world import CUR


class Boom(Exception):
    pass


class Two(Exception):
    """It cannot be copied to another process in the usual way"""
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Local(Exception):
    def __init__(self, a):
        super().__init__(a)
        self.function = lambda: a


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


FAILURES = {  # How an item fails -> what the log has to say
    "plain": "Boom",
    "cause": "Boom",
    "key": "KeyError",
    "stop": "StopIteration",
    "two": "Two",
    "local": "Local",
    "exit": "SystemExit",
    "interrupt": "KeyboardInterrupt",
    "generator": "GeneratorExit",
}


TURN = None  # Whose turn it is to end


def work(item, order=(), failing=(), value=None, mode=None):
    """Ends when it is its turn: the order in which the items end is controlled"""
    if order:
        limit = clock.time() + 3
        while TURN.value < order.index(item):
            if clock.time() > limit:
                break  # This order is not possible with the way in which the items are distributed
            clock.sleep(0.0005)
    try:
        if item in failing:
            if mode == "cause":
                try:
                    raise Boom(item)
                except Boom as ex:
                    raise ValueError("other") from ex
            if mode == "key":
                return {}[item]
            if mode == "stop":
                raise StopIteration(item)
            if mode == "two":
                raise Two(item, 1)
            if mode == "local":
                raise Local(item)
            if mode == "exit":
                raise SystemExit(item)
            if mode == "interrupt":
                raise ValueError("other") from KeyboardInterrupt(item)
            if mode == "generator":
                raise ValueError("other") from GeneratorExit(item)
            raise Boom(item)
        if value == "none":
            return None
        if value == "exception-like":
            return ("Exception", item)
        return (item, value, os.getpid())
    finally:
        if order:
            with TURN.get_lock():
                TURN.value += 1


def feasible(order, n, p):
    """Items are taken in order: an item cannot end before it is taken"""
    if p >= n:
        return True
    running, nxt = list(range(p)), p
    for i in order:
        if i not in running:
            return False
        running.remove(i)
        if nxt < n:
            running.append(nxt)
            nxt += 1
    return True


def parallel(ctx):
    global TURN
    task = ctx.task
    n, p = task["n"], task["p"]
    items = list(range(n))
    orders = [o for o in itertools.permutations(items) if feasible(o, n, p)] or [()]
    order = ctx.pick(orders)
    failing = tuple(i for i in items if ctx.choose(2))
    mode = ctx.pick(list(FAILURES)) if failing and task.get("modes") else "plain"
    value = task.get("value", "v")
    ctx.note(f"{n} items, {p} processes, they end in the order {order}, {failing} fail")
    ctx.step()
    TURN = multiprocessing.Value("i", 0)
    iterable = items if task.get("iterable") != "generator" else (i for i in items)
    got = []
    log = Log()
    logger = logging.getLogger("soil")
    quiet = logging.root.handlers[:]
    logging.root.handlers[:] = []
    logger.addHandler(log)
    try:
        for r in utils.run_parallel(work, iterable, num_processes=p, order=order, failing=failing, value=value, mode=mode):
            got.append(r)
    finally:
        logger.removeHandler(log)
        logging.root.handlers[:] = quiet
    reported = [l for l in log.lines if FAILURES[mode] in l]
    same(len(reported), len(failing), "items that fail which are reported in the log")
    ok = [i for i in items if i not in failing]
    if value == "none":
        same(got, [None] * len(ok), "results")
    elif value == "exception-like":
        same(sorted(got), [("Exception", i) for i in ok], "results")
    else:
        same(sorted((a, b) for (a, b, _) in got), [(i, value) for i in ok], "results")
        check(all(pid != os.getpid() for (_, _, pid) in got), "the items were not distributed")
    for c in multiprocessing.active_children():
        c.terminate()
        c.join()
    ctx.state(order, failing)
    ctx.outcome(len(got))


def serial(ctx):
    """In the same process: in order, and the exceptions are raised"""
    n = ctx.choose(4)
    items = list(range(n))
    failing = tuple(i for i in items if ctx.choose(2))
    debug = ctx.choose(2)
    p = ctx.pick([1, 2]) if debug else 1
    stop = ctx.choose(n + 1)
    ctx.note(items, failing, "SOIL_DEBUG" if debug else "", p, "consumed", stop)
    ctx.step()
    started = []

    def func(i, **kw):
        started.append(i)
        return work(i, **kw)
    old = os.environ.pop("SOIL_DEBUG", None)
    if debug:
        os.environ["SOIL_DEBUG"] = "true"
    try:
        it = iter(utils.run_parallel(func, iter(items), num_processes=p, failing=failing, value="v"))
        same(started, [], "items started before they are needed")
        for i in range(stop):
            try:
                r = next(it)
            except Boom as ex:
                same(ex.args, (i,), "item that fails")
                check(i in failing, "the item {} should not fail", i)
                break
            check(i not in failing, "the failure of {} was ignored", i)
            same(r, (i, "v", os.getpid()), "result")
            same(started, items[:i + 1], "items started")
        else:
            if stop == n:
                same(list(it), [], "more results")
    finally:
        os.environ.pop("SOIL_DEBUG", None)
        if old is not None:
            os.environ["SOIL_DEBUG"] = old
    ctx.state(n, failing, stop, p)
    ctx.outcome(len(started))


LISTS = {
    "equal": [0, 0], "some": [2, 1, 1, 2, 2, 3], "none": [None, None], "lists": [[1], [1], [2, [3]]], "kinds": [1, 1.0, True, "1"],
    "many": list(range(1100)), "text": ["", "a", "a b"], "big": ["x" * 100000, "y"],
}


def same_item(item):
    return ("item", item)


def lists(ctx):
    """Items of any kind (also equal ones), and any number of them"""
    items = LISTS[ctx.task["items"]]
    p = ctx.pick([1, 2, 3])
    iterable = ctx.pick([list, iter, tuple])(items)
    ctx.note(ctx.task["items"], p)
    ctx.step(len(items))
    got = list(utils.run_parallel(same_item, iterable, num_processes=p))
    for c in multiprocessing.active_children():
        c.terminate()
        c.join()
    want = [("item", i) for i in items]
    if p == 1:
        same(repr(got)[:2000], repr(want)[:2000], "results")
    same(sorted(map(repr, got)), sorted(map(repr, want)), "results, in any order")
    ctx.state(ctx.task["items"], p)
    ctx.outcome(len(got))


SCENARIOS = {"parallel": parallel, "serial": serial, "lists": lists}
CPU_LIMIT = 60
WALL_LIMIT = 120


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="serial")
    for items in LISTS:
        yield dict(scenario="lists", items=items)
    for n in range(0, 4):
        for p in (2, 3):
            yield dict(scenario="parallel", n=n, p=p, split=1 if n > 2 else 0)
    for value in ("none", "exception-like"):
        yield dict(scenario="parallel", n=2, p=2, value=value, iterable="generator")
    yield dict(scenario="parallel", n=2, p=2, modes=True)
    yield dict(scenario="parallel", n=3, p=2, modes=True, split=2)
    if big:
        for p in (2, 3, 4):
            yield dict(scenario="parallel", n=4, p=p, split=2)
        yield dict(scenario="parallel", n=3, p=3, modes=True, split=1)


BOUNDS = {
    "quick": "0-3 items, 2-3 real processes, every order in which the items can end and every subset of items that fail (in 9 ways); "
             "8 lists of up to 1100 items (some of them equal) with 1-3 processes; 0-3 items in the same process, every subset that fails, and every number of results consumed",
    "thorough": "as quick, with 4 items and 2-4 processes",
}
ASSUMPTIONS = ["items are given to the processes in order (as multiprocessing.Pool does)"]
