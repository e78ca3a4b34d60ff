"""The world used to check the schedulers (C01, C02, C03): agents whose behaviour is a choice.

The reference model is a dictionary with the pending activation of each agent.
"""
import random

import mesa
import soil
from soil import agents, environment
from soil import time as stime

from mc.core import Violation, check, same, Prune
from mc.world import SCHEDULERS, INF, CUR, scripted, close

# What an agent may do when it is activated: (name, argument)
MENUS = {
    "ints": [("none",), ("num", 1), ("num", 2), ("num", 3)],
    "ints2": [("none",), ("num", 2), ("num", 5)],
    "frac": [("none",), ("num", 0.1), ("num", 0.25), ("delay", 0.3), ("num", 1e-7), ("num", 1000000.5),
             ("at", 2), ("num", 0), ("num", 1.5)],
    "frac2": [("num", 0.1), ("delay", 0.2), ("num", 0.30000000000000004), ("at", 0.5), ("num", 1 / 3)],
    "tiny": [("none",), ("delay", 1e-4), ("num", 1e-9), ("delay", 1e-9), ("at", 3e-5), ("num", 0.0004999), ("delay", 1e-3)],
    "near": [("num", 1), ("num", 1.0005), ("delay", 0.99999), ("at", 1.00001), ("delay", 1 + 1e-9)],
    "past": [("none",), ("num", -1), ("at", -2), ("num", 0), ("num", 2.5), ("delay", -0.5)],
    "dyn": [("none",), ("num", 2), ("spawn", None), ("spawn", 1.5), ("spawn", -3), ("die",), ("kill",), ("inf",)],
    "dyn2": [("num", 2), ("spawn", None), ("spawn", 3), ("die-silent",), ("kill-all",), ("inf-delay",)],
    "die": [("none",), ("num", 2), ("die",), ("die-silent",), ("kill",), ("kill-all",), ("spawn", None)],
    "replace": [("none",), ("replace",), ("rebirth",), ("kill",), ("num", 2)],
    "end": [("none",), ("num", 2), ("inf",), ("die",)],
    "default": [("none",), ("num", 0), ("num", 1)],
    "fail": [("none",), ("num", 2), ("fail",), ("fail-spawn",), ("interrupt",)],
    "fail2": [("none",), ("num", 2), ("fail",), ("kill",), ("die",)],
    "return": [("num", 2), ("unschedule",), ("return", None), ("return", 1), ("return", 2.5), ("pause", None), ("pause", 2)],
    "precise": [("num", 1), ("num", 1 + 2.0 ** -36), ("delay", 1 - 2.0 ** -36), ("num", 2), ("delay", 2.0 ** -36)],
    "unschedule": [("none",), ("num", 2), ("unschedule",), ("unschedule-self",), ("add-twice",), ("spawn", None)],
}


class Failed(Exception):
    pass


class Interrupted(BaseException):
    pass


class World:
    def __init__(self, ctx, task):
        self.ctx = ctx
        self.task = task
        self.left = task["k"]
        self.menu = MENUS[task["menu"]]
        self.pending = {}       # unique_id -> time of its next activation
        self.dead = set()
        self.away = set()       # agents that were taken out of the schedule
        self.failed = set()     # agents that raised an exception: they may be activated again, or not
        self.phantoms = []      # pending activations of dead agents
        self.agents = {}
        self.log = []           # (time, unique_id) of each activation
        self.sequence = 0
        self.seq = {}           # order in which pending activations were requested
        self.limit_agents = task.get("max_agents", 4)
        sched = SCHEDULERS[task["sched"]]
        full = task.get("full", task["kind"] == "agent")
        base = scripted(environment.Environment if full else environment.BaseEnvironment, ctx, uniform=None)
        params = dict(task.get("params", {}))
        ns = dict(task.get("class_attrs", {}))
        cls = type("World", (base,), ns) if ns else base
        self.interval = task.get("interval", 1)
        self.env = cls(schedule_class=sched, **params)
        if "random" in task:
            self.env.random = random.Random(task["random"])
        CUR.world = self
        kind = task["kind"]
        if kind not in _CLASSES:
            _CLASSES[kind] = agent_class(kind)
        self.cls = _CLASSES[kind]
        for when in task["whens"]:
            self.add(when)
        if task.get("given"):  # A scheduler that is created with its agents
            self.pending = {i: 0 for i in self.agents}
            self.env.schedule = sched(self.env, agents=list(self.agents.values()))

    # --- reference model
    def add(self, when=None):
        env = self.env
        now = env.schedule.time
        ids = self.task.get("ids")
        uid = ids[len(self.agents)] if ids else None
        if when is None:
            a = env.add_agent(self.cls, unique_id=uid) if ids else env.add_agent(self.cls)
            want = now
        else:
            a = self.cls(unique_id=env.next_id() if uid is None else uid, model=env)
            env.schedule.add(a, when=when)
            want = max(now, when)
        self.agents[a.unique_id] = a
        self.expect(a.unique_id, want)
        return a

    def expect(self, uid, when):
        if when == INF:
            self.pending.pop(uid, None)
            return
        self.pending[uid] = when
        self.sequence += 1
        self.seq[uid] = self.sequence

    def killed(self, uid):
        self.dead.add(uid)
        if uid in self.pending:
            self.phantoms.append(self.pending.pop(uid))

    def act(self, agent):
        """Called by the agents, when they are activated"""
        uid = agent.unique_id
        now = self.env.schedule.time
        ctx = self.ctx
        ctx.step()
        ctx.note(f"t={now}: agent {uid} is activated")
        if uid in self.failed:
            return INF
        if uid in self.dead:
            raise Violation(f"agent {uid} was activated at {now}, after its death (or its removal from the schedule)")
        if uid not in self.pending:
            raise Violation(f"agent {uid} was activated at {now}, without a pending activation")
        if not close(self.pending[uid], now):
            raise Violation(f"agent {uid} was activated at {now}, instead of at {self.pending[uid]}")
        if hasattr(agent, "now"):
            same(agent.now, now, f"time seen by agent {uid}")
        self.order_check(uid, now)
        del self.pending[uid]
        self.log.append((now, uid))
        self.left -= 1
        if self.left < 0:
            action = ("inf",)
        else:
            action = ctx.pick(self.menu)
        ctx.note(f"      action {action}")
        res = self.do(agent, action, now)
        ctx.state(sorted(self.pending.items()), sorted(self.dead), self.left, now, uid)
        return res

    def order_check(self, uid, now):
        pass

    def do(self, agent, action, now):
        uid = agent.unique_id
        kind, *args = action
        if kind == "none":
            self.expect(uid, now + self.interval)
            return None
        if kind in ("num", "delay", "at"):
            d = args[0]
            self.expect(uid, now + (d if d > 0 else self.interval))
            if kind == "num":
                return d
            if kind == "delay":
                return agent.delay(d) if hasattr(agent, "delay") else d
            return agent.at(now + d) if hasattr(agent, "at") else d
        if kind in ("fail", "fail-spawn", "interrupt"):
            if kind == "fail-spawn":
                if len(self.agents) >= self.limit_agents:
                    raise Prune()
                self.add()
            self.failed.add(uid)
            raise Interrupted() if kind == "interrupt" else Failed()
        if kind == "inf":
            return INF
        if kind == "inf-delay":
            return stime.Delay(INF)
        if kind == "spawn":
            if len(self.agents) >= self.limit_agents:
                raise Prune()
            self.add(None if args[0] is None else now + args[0])
            self.expect(uid, now + 2)
            return 2
        if kind == "unschedule":
            # Another agent is taken out of the schedule
            others = [i for i in self.agents if i != uid and i not in self.dead]
            if not others:
                raise Prune()
            o = self.ctx.pick(others)
            env = self.env
            env.schedule.remove(self.agents[o])
            self.killed(o)
            self.away.add(o)
            self.expect(uid, now + self.interval)
            return None
        if kind in ("return", "pause"):
            # An agent comes back to the schedule (or it leaves and comes back)
            others = [i for i in self.agents if i != uid and (i in self.away if kind == "return" else i not in self.dead)]
            if not others:
                raise Prune()
            o = self.ctx.pick(others)
            when = None if args[0] is None else now + args[0]
            if kind == "pause":
                self.env.schedule.remove(self.agents[o])
                self.killed(o)
            self.away.discard(o)
            self.dead.discard(o)
            if when is None:
                self.env.schedule.add(self.agents[o])
            else:
                self.env.schedule.add(self.agents[o], when=when)
            self.expect(o, now if when is None else when)
            self.expect(uid, now + 2)
            return 2
        if kind == "unschedule-self":
            self.env.schedule.remove(agent)
            self.killed(uid)
            return 1
        if kind == "add-twice":
            others = [i for i in self.agents if i not in self.dead and (i == uid or i in self.pending)]
            o = self.ctx.pick(others)
            try:
                self.env.schedule.add(self.agents[o])
            except Exception:
                pass
            else:  # It was an error when this was written
                raise Prune()
            self.expect(uid, now + self.interval)
            return None
        if not hasattr(agent, "die"):
            raise Prune()
        if kind == "replace":
            # Another agent dies, and a new one is born
            others = [i for i in self.agents if i != uid and i not in self.dead]
            if not others or len(self.agents) >= self.limit_agents:
                raise Prune()
            self.agents[others[0]].die()
            self.killed(others[0])
            self.add()
            self.expect(uid, now + self.interval)
            return None
        if kind == "rebirth":
            if len(self.agents) >= self.limit_agents:
                raise Prune()
            self.add()
            r = agent.die()
            self.killed(uid)
            return r
        if kind == "die":
            r = agent.die()
            self.killed(uid)
            return r
        if kind == "die-silent":
            agent.die()
            self.killed(uid)
            return 1
        if kind in ("kill", "kill-all"):
            others = [i for i in self.agents if i != uid and i not in self.dead]
            if not others:
                raise Prune()
            if kind == "kill":
                others = [self.ctx.pick(others)]
            for o in others:
                self.agents[o].die()
                self.killed(o)
            self.expect(uid, now + self.interval)
            return None
        raise AssertionError(action)

    # --- driver
    def run(self):
        env = self.env
        prev = env.schedule.time
        idle = 0
        extra = 0
        steps = 0
        limit = 4 * (self.task["k"] + len(self.task["whens"]) + 8) + 20
        while True:
            if not self.pending:
                extra += 1
                if extra > 3:
                    break
            elif not env.running:
                raise Violation(f"the model stopped with pending activations: {self.pending}")
            n = len(self.log)
            failures = len(self.failed)
            try:
                env.step()
            except (Failed, Interrupted):  # Whoever runs the model goes on
                check(len(self.failed) == failures + 1, "unexpected failure")
            else:
                same(len(self.failed), failures, "agents that failed, and their errors were not raised")
            steps += 1
            self.ctx.step()
            t = env.schedule.time
            check(t >= prev, "the clock went back from {} to {}", prev, t)
            late = {k: w for (k, w) in self.pending.items() if w < t and not close(w, t)}
            check(not late, "activations were missed: {} (the time is {})", late, t)
            if len(self.log) == n and t == prev and self.pending:
                raise Violation(f"a step at {t} neither activated agents nor advanced the clock")
            self.after_step(prev, t, n)
            prev = t
            check(steps < limit, "the world did not end after {} steps", steps)
        self.ctx.outcome(self.log)

    def after_step(self, prev, t, n):
        pass


_CLASSES = {}


def agent_class(kind):
    if kind == "plain":
        class Plain(agents.BaseAgent):
            def step(self):
                return CUR.world.act(self)
        return Plain
    if kind == "gen":
        class Gen(agents.BaseAgent):
            def step(self):
                while True:
                    yield CUR.world.act(self)
        return Gen
    if kind == "genret":
        class GenRet(agents.BaseAgent):
            def step(self):
                yield CUR.world.act(self)
                return CUR.world.act(self)
        return GenRet
    if kind == "async":
        class Async(agents.BaseAgent):
            async def step(self):
                while True:
                    r = CUR.world.act(self)
                    await stime.Delay(CUR.world.interval if r is None else r)
        return Async
    if kind == "fsm":
        class Fsm(agents.FSM):
            @agents.state(default=True)
            def one(self):
                return CUR.world.act(self)
        return Fsm
    if kind == "fsm2":
        class Fsm2(agents.FSM):
            @agents.state(default=True)
            def one(self):
                r = CUR.world.act(self)
                return r if isinstance(r, tuple) else (self.two, r)

            @agents.state
            def two(self):
                r = CUR.world.act(self)
                if isinstance(r, tuple):  # Only times can be yielded
                    return r
                yield r
                r = CUR.world.act(self)
                return r if isinstance(r, tuple) else (self.one, r)
        return Fsm2
    if kind == "agent":
        class Full(agents.Agent):
            @agents.state(default=True)
            def one(self):
                return CUR.world.act(self)
        return Full
    if kind == "mesa":
        class Vanilla(mesa.Agent):
            def step(self):
                return CUR.world.act(self)
        return Vanilla
    raise AssertionError(kind)
