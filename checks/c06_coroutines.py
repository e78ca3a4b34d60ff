"""C06: generators and coroutines are resumed where they were suspended."""
import types

from soil import agents, environment
from soil import time as stime
from mc.core import Violation, check, same
from mc.world import INF, CUR, scripted, close


class Boom(Exception):
    pass


class BadBoom(BaseException):
    pass


class Mirror:
    """What the program of one agent should be doing"""

    def __init__(self, uid):
        self.uid = uid
        self.runs = 0
        self.local = None      # copy of the local variables of the current run
        self.where = "start"   # where it should be when it is activated
        self.nested = None


class St:
    def __init__(self, ctx, task):
        self.ctx = ctx
        self.task = task
        self.left = task["k"]
        self.m = {}
        self.expected = {}
        self.tick = 0

    # --- called by the agents
    def enter(self, agent):
        m = self.m[agent.unique_id]
        check(m.where == "start", "agent {} started its program from the beginning, and it should have resumed from {}",
              m.uid, m.where)
        m.runs += 1
        m.local = []
        return m

    def at(self, agent, local, tag):
        """The program is at a given point, with its local variables"""
        m = self.m[agent.unique_id]
        check(m.where in (tag, "any"), "agent {} resumed at {}, instead of at {}", m.uid, tag, m.where)
        check(self.tick > m.tick, "agent {} went past {} without being suspended", m.uid, tag)
        same(local, m.local, f"local variables of agent {m.uid}")

    def choose(self, agent, local, nested):
        m = self.m[agent.unique_id]
        self.ctx.step()
        if self.left <= 0:
            return "halt"
        self.left -= 1
        a = self.ctx.pick(self.task["menu"])
        local.append((a, self.left))
        m.local = list(local)
        self.ctx.note(f"   agent {m.uid} run {m.runs}: {a}")
        self.ctx.state([(x.where, x.runs, x.local) for x in self.m.values()], a)
        return a

    def suspend(self, agent, tag, value):
        m = self.m[agent.unique_id]
        m.where = tag
        m.tick = self.tick
        self.expected[m.uid] = value

    def finish(self, agent, value):
        m = self.m[agent.unique_id]
        m.where = "start"
        m.local = None
        self.expected[m.uid] = value


def body(self):
    """The program, as a generator"""
    st = CUR.st
    st.enter(self)
    local = []
    while True:
        a = st.choose(self, local, False)
        if a == "yield":
            st.suspend(self, "A", None)
            r = yield
            check(r is None, "the agent received {}", r)
            st.at(self, local, "A")
        elif a == "num":
            st.suspend(self, "B", 2.0)
            yield 2
            st.at(self, local, "B")
        elif a == "delay":
            st.suspend(self, "C", 3.0)
            yield self.delay(3)
            st.at(self, local, "C")
        elif a in ("zero", "past"):
            d = 0 if a == "zero" else -1.5
            st.suspend(self, "Z", d)
            yield self.delay(d)
            st.at(self, local, "Z")
        elif a == "sub":
            r = yield from sub(self, local)
            same(r, ("result", len(local)), "result of a nested generator")
        elif a == "wait":  # More than one suspension in a nested generator
            for i in range(2):
                st.suspend(self, ("W", i), 1.5)
                yield 1.5
                st.at(self, local, ("W", i))
        elif a == "return":
            st.finish(self, None)
            return
        elif a == "return-num":
            st.finish(self, 4.0)
            return 4
        elif a == "raise":
            st.finish(self, Boom)
            raise Boom()
        elif a == "interrupt":
            st.finish(self, Boom)
            raise BadBoom()
        elif a == "catch":
            try:
                raise Boom()
            except Boom:
                st.suspend(self, "E", 1.0)
                yield 1
                st.at(self, local, "E")
        elif a == "halt":
            st.finish(self, INF)
            return INF


def sub(self, local):
    st = CUR.st
    try:
        st.suspend(self, "S", 1.0)
        yield 1
        st.at(self, local, "S")
        return ("result", len(local))
    except GeneratorExit:
        raise


async def asub(self, local):
    st = CUR.st
    st.suspend(self, "S", 1.0)
    await self.delay(1)
    st.at(self, local, "S")
    return ("result", len(local))


async def abody(self):
    st = CUR.st
    st.enter(self)
    local = []
    while True:
        a = st.choose(self, local, False)
        if a == "yield":
            st.suspend(self, "A", 1.0)
            await self.delay()
            st.at(self, local, "A")
        elif a == "num":
            st.suspend(self, "B", 2.0)
            await self.at(self.now + 2)
            st.at(self, local, "B")
        elif a == "delay":
            st.suspend(self, "C", 3.0)
            await stime.Delay(3)
            st.at(self, local, "C")
        elif a in ("zero", "past"):
            d = 0 if a == "zero" else -1.5
            st.suspend(self, "Z", d)
            await self.delay(d)
            st.at(self, local, "Z")
        elif a == "sub":
            r = await asub(self, local)
            same(r, ("result", len(local)), "result of a nested coroutine")
        elif a == "wait":
            for i in range(2):
                st.suspend(self, ("W", i), 1.5)
                await self.delay(1.5)
                st.at(self, local, ("W", i))
        elif a == "return":
            st.finish(self, None)
            return
        elif a == "return-num":
            st.finish(self, 4.0)
            return 4
        elif a == "raise":
            st.finish(self, Boom)
            raise Boom()
        elif a == "interrupt":
            st.finish(self, Boom)
            raise BadBoom()
        elif a == "catch":
            try:
                raise Boom()
            except Boom:
                st.suspend(self, "E", 1.0)
                await self.delay(1)
                st.at(self, local, "E")
        elif a == "halt":
            st.finish(self, INF)
            return INF


class Gen(agents.BaseAgent):
    def step(self):
        yield from body(self)
        CUR.never = True


class GenDirect(agents.BaseAgent):
    step = body


class Inherited(GenDirect):
    other = 3


class Overriding(agents.CounterModel):
    step = body


class Async(agents.BaseAgent):
    step = abody


class NetGen(agents.NetworkAgent):
    step = body


class Evented(agents.EventedAgent):
    step = abody


class FsmGen(agents.FSM):
    @agents.state(default=True)
    def one(self):
        r = yield from body(self)
        return r


class FsmAsync(agents.FSM):
    @agents.state(default=True)
    async def one(self):
        return await abody(self)


class FsmFull(agents.Agent):
    one = agents.state("one", default=True)(body)


class FsmInherited(FsmAsync):
    pass


KINDS = {c.__name__: c for c in (GenDirect, Inherited, Overriding, Async, NetGen, Evented, FsmGen, FsmAsync, FsmFull,
                                 FsmInherited)}


def direct(ctx):
    """Agents are stepped by hand, in any order"""
    task = ctx.task
    st = CUR.st = St(ctx, task)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))()
    ags = [env.add_agent(KINDS[k]) for k in task["kinds"]]
    for a in ags:
        st.m[a.unique_id] = Mirror(a.unique_id)
    for _ in range(task["steps"]):
        a = ctx.pick(ags)
        ctx.note(f"step agent {a.unique_id}")
        st.expected.clear()
        st.tick += 1
        try:
            r = a.step()
        except (Boom, BadBoom):
            r = Boom
        same(list(st.expected), [a.unique_id], "agents that were executed")
        want = st.expected[a.unique_id]
        if isinstance(want, (int, float)) and want <= 0:  # The default interval
            check(r is None or (r is not Boom and float(r) <= 0), "the step of agent {} returned {!r}, expected {!r}", a.unique_id, r, want)
        elif want is Boom or r is Boom or want is None:
            check(r is want or (want is None and not r), "the step of agent {} returned {!r}, expected {!r}", a.unique_id, r, want)
        else:
            check(r is not None and float(r) == want, "the step of agent {} returned {!r}, expected {!r}", a.unique_id, r, want)
    ctx.outcome([(m.where, m.runs, m.local) for m in st.m.values()])


def scheduled(ctx):
    """Agents are activated by the scheduler of the environment"""
    task = ctx.task
    st = CUR.st = St(ctx, task)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
    ags = [env.add_agent(KINDS[k]) for k in task["kinds"]]
    pending = {}
    for a in ags:
        st.m[a.unique_id] = Mirror(a.unique_id)
        pending[a.unique_id] = 0.0
    while env.running:
        now = env.now
        st.expected.clear()
        st.tick += 1
        due = sorted(k for (k, v) in pending.items() if v == now)
        raised = False
        try:
            env.step()
        except Boom:
            raised = True
        ran = sorted(st.expected)
        wanted = Boom in st.expected.values()
        same(raised, wanted, "an exception of the program reached the caller")
        if raised:
            check(set(ran) <= set(due), "agents {} were activated at {}; {} were due", ran, now, due)
            ctx.outcome("raised", now, ran)
            return
        same(ran, due, f"agents activated at {now}")
        for (k, v) in st.expected.items():
            del pending[k]
            if v != INF:
                pending[k] = now + (v if v and v > 0 else 1)
        if pending:
            same(env.now, min(pending.values()), "time of the next activation")
    ctx.outcome([(m.where, m.runs, m.local) for m in st.m.values()])


def illegal(ctx):
    """Steps that mix async and yield, or that are not functions, are rejected when the class is defined"""
    ctx.step()
    base = ctx.pick([agents.BaseAgent, agents.NetworkAgent, agents.EventedAgent, agents.FSM, agents.Agent])
    kind = ctx.pick(["asyncgen", "value"])
    ctx.state(base.__name__, kind)

    async def asyncgen(self):
        yield 1
    try:
        type(base)("Bad", (base,), {"step": asyncgen if kind == "asyncgen" else 3})
    except ValueError:
        return
    raise Violation("an illegal step function was accepted")


SCENARIOS = {"direct": direct, "scheduled": scheduled, "illegal": illegal}
MENU = ["yield", "num", "delay", "sub", "return", "return-num", "raise", "catch", "wait", "zero"]


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="illegal")
    for k in KINDS:
        yield dict(scenario="direct", kinds=[k], menu=MENU, k=4 + big, steps=6 + big, split=2)
        yield dict(scenario="direct", kinds=[k, k], menu=["yield", "num", "sub", "return", "raise", "wait", "interrupt"], k=3 + big, steps=4 + big, split=3)
        yield dict(scenario="scheduled", kinds=[k, k], menu=MENU, k=3 + big, split=2)
        yield dict(scenario="scheduled", kinds=[k, k, k], menu=["yield", "sub", "return-num", "wait", "past"], k=4 + big, split=2)
    names = list(KINDS)
    for (a, b) in zip(names, names[3:] + names[:3]):
        yield dict(scenario="direct", kinds=[a, b, a], menu=["num", "sub", "return"], k=3 + big, steps=4, split=3)


BOUNDS = {
    "quick": "1-3 agents of 10 kinds, programs with 3-4 free choices among 11 constructs, all the interleavings of up to 6 "
             "activations; activation by hand and by a scheduler",
    "thorough": "as quick, with one more choice and one more activation",
}
ASSUMPTIONS = ["after an exception, an agent that is activated again starts its program from the beginning"]
