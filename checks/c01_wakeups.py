"""C01: every agent is activated exactly when it asked to be."""
from itertools import product

from soil import time as stime
from mc.core import Violation, check, same
from mc.world import SCHEDULERS, INF, scripted, close
from .sched import World

KINDS = ["plain", "gen", "genret", "fsm", "fsm2", "async", "agent", "mesa"]


def wake(ctx):
    World(ctx, ctx.task).run()


def table(ctx):
    """More agents, whose delays follow a fixed table"""
    task = ctx.task
    n, a, b, m, unit = task["n"], task["a"], task["b"], task["m"], task["unit"]

    class Table(World):
        def act(self, agent):
            uid = agent.unique_id
            now = self.env.schedule.time
            ctx.step()
            if uid not in self.pending or not close(self.pending[uid], now):
                raise Violation(f"agent {uid} was activated at {now}, instead of at {self.pending.get(uid)}")
            self.log.append((now, uid))
            del self.pending[uid]
            self.counts[uid] = k = self.counts.get(uid, -1) + 1
            if k >= task["rounds"]:
                return INF
            d = ((uid * a + k * b) % m + 1) * unit
            self.expect(uid, now + d)
            if task.get("spawn") and k == 1 and uid < n:
                self.add(None if uid % 2 else now + unit * 3)
            return d

        counts = {}
        limit_agents = 1000
    w = Table(ctx, dict(task, k=n * (task["rounds"] + 1) * 3, menu="ints", whens=[None] * n, max_agents=1000,
                       random=task["a"]))  # A fixed order: the point here is the size of the queue
    w.counts = {}
    w.run()
    total = {}
    for (t, uid) in w.log:
        total[uid] = total.get(uid, 0) + 1
    check(all(v == task["rounds"] + 1 for v in total.values()), "activations by agent: {}", total)
    check(len(total) == len(w.agents), "some agents were never activated")
    ctx.state(w.log)


SCENARIOS = {"wake": wake, "table": table}


def tasks(tier):
    big = tier == "thorough"
    fixed = ["ordered", "pq-ordered"]
    random = ["timed", "pq"]

    def t(sched, kind, menu, whens, k, **kw):
        return dict(scenario="wake", sched=sched, kind=kind, menu=menu, whens=whens, k=k + (1 if big else 0),
                    split=2, **kw)
    two = [None, None]
    # every kind of agent and scheduler
    for kind in KINDS:
        for s in fixed:
            yield t(s, kind, "ints", two, 5)
            yield t(s, kind, "dyn", two, 4, max_agents=4)
        for s in random:
            yield t(s, kind, "ints2", two, 3)
            yield t(s, kind, "dyn", two, 2 if s == "pq" else 3, max_agents=4)
        yield t("shuffled", kind, "ints2", two, 2)
        # agents that are taken out of the schedule
        for s in fixed:
            yield t(s, kind, "unschedule", two, 3, max_agents=3)
            yield t(s, kind, "unschedule", [None, 1, None], 2, max_agents=4)
        for s in random:
            yield t(s, kind, "unschedule", two, 2, max_agents=3)
        # agents that come back
        for s in fixed:
            yield t(s, kind, "return", [None, 1], 4)
            yield t(s, kind, "return", [None, 1, None], 3)
        for s in random:
            yield t(s, kind, "return", [None, 1], 2)
        # schedulers that are created with their agents
        for s in fixed + random:
            yield t(s, kind, "end", [None, None], 2, given=True)
        # agents that fail, in a model that is used afterwards
        for s in fixed:
            yield t(s, kind, "fail", [None] * 3, 3, max_agents=4)
            yield t(s, kind, "fail2", [None, 1, None], 3)
        for s in random:
            yield t(s, kind, "fail", [None] * 3, 2 if s == "timed" else 1, max_agents=4)
    # more agents
    for s in fixed:
        yield t(s, "plain", "ints2", [None] * 3, 7)
        yield t(s, "plain", "ints", [None] * 4, 5)
        yield t(s, "plain", "dyn2", [None, None, 1], 5, max_agents=6)
        yield t(s, "gen", "dyn2", [None, None, 1], 4, max_agents=6)
        yield t(s, "plain", "ints2", [None] * 3, 6, full=True)
    yield t("timed", "plain", "ints2", [None] * 3, 4)
    yield t("pq", "plain", "ints2", [None] * 3, 3)
    yield t("timed", "plain", "dyn2", [None, None, 1], 3, max_agents=5)
    yield t("pq", "plain", "dyn2", [None, None, 1], 2, max_agents=5)
    # fractions, big and small values
    for kind in ("plain", "gen", "fsm"):
        for s in fixed:
            yield t(s, kind, "frac", two, 4)
            yield t(s, kind, "frac2", [None, 0.1], 5)
            yield t(s, kind, "past", [None, 1], 4)
        for s in random:
            yield t(s, kind, "frac", two, 2)
            yield t(s, kind, "past", [None, 1], 2)
    for kind in ("plain", "gen", "fsm", "async", "agent"):
        for s in fixed:
            yield t(s, kind, "tiny", two, 4 if kind == "plain" else 3)
            yield t(s, kind, "near", [None, 1e-6], 4 if kind == "plain" else 3)
            yield t(s, kind, "precise", two, 4 if kind == "plain" else 3)
        for s in random:
            yield t(s, kind, "tiny", two, 2)
            yield t(s, kind, "near", [None, 1e-6], 2)
    # first activation times
    for s in fixed + random:
        for whens in product([None, 0, 1, 2.5], repeat=3):
            yield t(s, "plain", "end", whens, 2 if s in fixed else 1)
        for whens in ([3, 2, 1], [5, None, 2.5], [0.5, 0.25, 0.75], [2, 2, 1], [7], [1e9, 1], [1 / 3, 1e-7], [0.1234567891, None], [1e-9, 2 / 3, 1e5 + 1 / 3]):
            yield t(s, "gen", "ints2", whens, 3 if s in fixed else 2)
    # default interval
    for s in SCHEDULERS:
        for interval in (0.5, 2, 3.0):
            for how in ("class_attrs", "params"):
                yield dict(scenario="wake", sched=s, kind="plain", menu="default", whens=[None, None],
                           interval=interval, k=3, **{how: dict(default_interval=interval)})
    # bigger queues
    for s in SCHEDULERS:
        for (n, a, b, m) in [(7, 3, 5, 4), (12, 7, 3, 5), (12, 5, 1, 11), (25, 1, 3, 7), (40, 11, 7, 13)]:
            for unit in (1, 0.1):
                for spawn in (False, True):
                    yield dict(scenario="table", sched=s, kind="plain", n=n, a=a, b=b, m=m, unit=unit,
                               rounds=8 if big else 5, spawn=spawn)


BOUNDS = {
    "quick": "2-3 initial agents (up to 5 with the ones created on the fly), 3-7 activations with a free choice of "
             "action, 5 schedulers, 8 kinds of agents, all activation orders, agents that raise exceptions (and the model goes on); plus fixed tables with 7-40 agents",
    "thorough": "as quick, with one more free activation per world",
}
ASSUMPTIONS = ["delays are taken from the menus in checks/sched.py",
               "agents that ask to be activated never again are not added again"]
