"""C02: time only moves forward, straight to the next pending activation; order within an instant."""
import math
from itertools import permutations, product

from soil import agents, environment
from soil import time as stime
from mc.core import Chooser, Ctx, Stats, Violation, check, same
from mc.world import SCHEDULERS, INF, CUR, scripted, close
from .sched import World


class Clock(World):
    """Adds the conditions on the clock and the order to the reference model"""
    seen = None

    def order_check(self, uid, now):
        check(now == self.now0, "the clock changed from {} to {} in the middle of a step", self.now0, now)
        check(not self.log or now >= self.log[-1][0], "activation at {} after one at {}", now, self.log[-1:])
        due = [i for (i, w) in self.pending.items() if close(w, now)]
        sched = self.task["sched"]
        if len({self.pending[i] for i in due}) > 1:
            return  # Different times, which a rounding error might turn into one
        if sched == "ordered":
            first = min(due, key=lambda i: self.seq[i])
            same(uid, first, f"agent activated at {now}, in order of request among {sorted(due)}")
        elif sched == "pq-ordered":
            same(uid, min(due), f"agent activated at {now}, in order of id among {sorted(due)}")

    def after_step(self, prev, t, n):
        env = self.env
        pend = sorted(self.pending.values())
        ghosts = self.phantoms
        if pend:
            # straight to the next activation (those of dead agents may count)
            ok = close(t, pend[0]) or any(close(t, g) for g in ghosts if g <= pend[0])
            check(ok, "after a step at {}, the clock shows {}; the next activation is at {}", prev, t, pend[0])
            check(env.running, "the model stopped with pending activations")
        elif not [g for g in ghosts if g > prev or close(g, prev)]:
            check(not env.running, "there are no pending activations, and the model is still running at {}", t)
        same(env.now, t, "time of the environment")
        if len(self.log) > n:
            times = {x[0] for x in self.log[n:]}
            same(len(times), 1, "number of different times in one step")
        self.now0 = t


def clock(ctx):
    Clock.now0 = 0
    w = Clock(ctx, ctx.task)
    w.run()


def _inner(f):
    """All the executions of f, inside of this execution"""
    prefix = []
    results = []
    while True:
        ch = Chooser(prefix)
        results.append(f(ch))
        tr = ch.trace
        while tr and tr[-1][1] + 1 >= tr[-1][0]:
            tr.pop()
        if not tr:
            return results
        n, c = tr.pop()
        prefix = tr + [(n, c + 1)]


def perms(ctx):
    """With shuffling, every order of the agents that share an instant is possible, and none is repeated"""
    task = ctx.task
    n = task["n"]

    def once(ch):
        c = Ctx(ch, Stats(), dict(task))

        class W(World):
            def do(self, agent, action, now):
                if self.round.get(agent.unique_id, 0) >= task["rounds"] - 1:
                    return INF
                self.round[agent.unique_id] = self.round.get(agent.unique_id, 0) + 1
                self.expect(agent.unique_id, now + 1)
                return None
        W.round = {}
        w = W(c, dict(task, k=1000, menu="one", whens=[None] * n))
        w.run()
        ctx.step(len(w.log))
        order = tuple(u for (_, u) in w.log)
        ctx.state(order)
        return order

    from . import sched
    sched.MENUS["one"] = [("none",)]
    got = _inner(once)
    ids = list(range(n))
    every = [sum(p, ()) for p in product(list(permutations(ids)), repeat=task["rounds"])]
    if task["sched"] == "pq":
        same(set(x[:n] for x in got), set(permutations(ids)), "possible orders of the first activations")
    else:
        same(set(got), set(every), "possible orders of activation")
    ctx.outcome(len(got))


def crowd(ctx):
    """Many agents in an instant are also shuffled: every execution that differs from a base one in a single random choice"""
    task = ctx.task
    n = task["n"]

    def once(prefix):
        ch = Chooser(prefix)
        env = scripted(environment.BaseEnvironment, Ctx(ch, Stats(), dict(task)), uniform=None)(schedule_class=SCHEDULERS[task["sched"]])
        order = []

        class A(agents.BaseAgent):
            def step(self):
                order.append(self.unique_id)
                return INF
        for i in range(n):
            env.add_agent(A)
        while env.running:
            env.step()
        ctx.step(len(order))
        same(sorted(order), list(range(n)), "agents activated")
        return tuple(order), list(ch.trace)

    base, trace = once([])
    orders = {base}
    for (i, (options, c)) in enumerate(trace):
        for alt in range(1, options):
            if n > 25 and alt not in (1, options // 2, options - 1):
                continue
            got, _ = once(trace[:i] + [(options, alt)])
            ctx.state(got)
            orders.add(got)
    if n <= 25:
        check(len({o[0] for o in orders}) == n or len({o[-1] for o in orders}) == n,
              "there are agents that are neither the first one nor the last one in any order: first {}, last {}", {o[0] for o in orders}, {o[-1] for o in orders})
    check(len(orders) >= n, "only {} different orders of {} agents", len(orders), n)
    ctx.outcome(len(orders))


def lockstep(ctx):
    """A lock-stepped scheduler executes in each step exactly the activations of one interval"""
    task = ctx.task
    interval = task["interval"]
    env = scripted(environment.BaseEnvironment, ctx, uniform=None)(schedule_class=SCHEDULERS[task["sched"]])
    inner = env.schedule
    lock = stime.Lockstepper(inner) if interval == 1 and task["n"] != 2 else stime.Lockstepper(inner, interval)
    log = []
    pending = {}
    left = [task["k"]]

    class A(agents.BaseAgent):
        def step(self):
            t = inner.time
            uid = self.unique_id
            ctx.step()
            check(uid in pending and pending[uid] == t, "agent {} activated at {}, pending: {}", uid, t, pending)
            log.append((t, uid))
            left[0] -= 1
            d = ctx.pick(task["menu"]) if left[0] >= 0 else INF
            ctx.note(f"t={t}: agent {uid} returns {d}")
            pending.pop(uid)
            if d != INF:
                pending[uid] = t + (d or 1)
            ctx.state(sorted(pending.items()), left[0])
            return d

    for i in range(task["n"]):
        a = A(unique_id=i, model=env)
        lock.add(a)
        pending[i] = 0
    for k in range(1, task["steps"] + 1):
        n = len(log)
        lock.step()
        end = k * interval
        same(lock.time, end, "time of the lock-stepped scheduler")
        same(lock.steps, k, "steps of the lock-stepped scheduler")
        for (t, uid) in log[n:]:
            check(end - interval <= t < end, "agent {} activated at {} in the step that ends at {}", uid, t, end)
        late = {u: w for (u, w) in pending.items() if w < end}
        check(not late, "activations missing in the step that ends at {}: {}", end, late)
        same(lock.get_agent_count(), task["n"], "number of agents")
    ctx.outcome(log)


IDS = [10, 9, 2, 100, 0, 33]

SCENARIOS = {"clock": clock, "perms": perms, "crowd": crowd, "lockstep": lockstep}


def tasks(tier):
    big = tier == "thorough"

    def t(sched, kind, menu, whens, k, **kw):
        return dict(scenario="clock", sched=sched, kind=kind, menu=menu, whens=whens, k=k + (1 if big else 0),
                    split=2, **kw)
    for s in ("ordered", "pq-ordered"):
        yield t(s, "plain", "ints", [None] * 2, 6)
        yield t(s, "plain", "ints2", [None] * 3, 7)
        yield t(s, "plain", "ints2", [None] * 4, 6)
        for kind in ("plain", "gen", "fsm2", "agent"):
            yield t(s, kind, "dyn", [None, None], 4 if kind != "agent" else 3)
            yield t(s, kind, "past", [None, 1], 4)
            yield t(s, kind, "frac", [None, None], 3)
            yield t(s, kind, "precise", [None, None], 4 if kind != "agent" else 3)
            yield t(s, kind, "return", [None, 1], 4 if kind != "agent" else 3)
            yield t(s, kind, "end", [None, None, 2], 4)
            yield t(s, kind, "die", [None, None], 4 if kind != "agent" else 3)
        for whens in product([None, 0, 1, 2.5], repeat=3):
            yield t(s, "plain", "end", whens, 2)
        yield t(s, "plain", "dyn2", [None, 2, 1, None], 4, max_agents=6)
        yield t(s, "plain", "dyn", [None] * 3, 3, ids=IDS, max_agents=5)
        yield t(s, "plain", "ints", [None, 2, None, 1], 4, ids=IDS)
        yield t(s, "plain", "ints2", [None] * 12, 3, max_agents=16)
        yield t(s, "gen", "end", [None] * 11, 2, ids=list(range(1000, 0, -91)), max_agents=16)
    for s in ("timed", "pq", "shuffled"):
        k = 2 if s == "pq" else 3
        for kind in ("plain", "gen"):
            yield t(s, kind, "ints2", [None] * 2, k + 1)
            yield t(s, kind, "dyn", [None, None], k)
            yield t(s, kind, "past", [None, 1], k)
            yield t(s, kind, "frac", [None, None], 2)
            yield t(s, kind, "end", [None, None, 2], k)
        yield t(s, "plain", "ints2", [None, None, None], k)
    for (n, rounds) in ((1, 2), (2, 3), (3, 2), (4, 1)) + (((4, 2), (5, 1)) if big else ()):
        for s in ("timed", "shuffled"):
            for kind in ("plain", "mesa"):
                yield dict(scenario="perms", sched=s, kind=kind, n=n, rounds=rounds)
    for n in (1, 2, 3):
        yield dict(scenario="perms", sched="pq", kind="plain", n=n, rounds=1)
    for n in (6, 9, 17, 25, 60) + ((120,) if big else ()):
        for s in ("timed", "shuffled", "pq"):
            yield dict(scenario="crowd", sched=s, n=n)
    for s in ("ordered", "pq-ordered", "timed"):
        for interval in (1, 2, 0.5, 5):
            yield dict(scenario="lockstep", sched=s, interval=interval, n=0, menu=[None], k=0, steps=3)
            yield dict(scenario="lockstep", sched=s, interval=interval, n=2, menu=[None, 0.5, 2, 3, INF],
                       k=4 if s != "timed" else 3, steps=10, split=1)


BOUNDS = {
    "quick": "2-4 initial agents, 2-7 activations with a free choice of action, 5 schedulers, all shuffles; orders of up "
             "to 4 agents in an instant, and of crowds of 6-60 agents with one free random choice; lock-step with 4 intervals and 10 steps",
    "thorough": "as quick, with one more free activation, and orders of up to 5 agents",
}
ASSUMPTIONS = ["the clock may stop at the time that an agent that is now dead had asked for"]
