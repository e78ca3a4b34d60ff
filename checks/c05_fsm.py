"""C05: state machines follow their transitions."""
from itertools import product

from soil import agents, environment
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted, close, SCHEDULERS

STATES = ["a", "b", "longer_state"]

# What a state function may return: name -> (value, next state or None, delay or None).
# ``t`` is the name of the target state
FORMS = {
    "none": lambda ag, t: (None, None, None),
    "bound": lambda ag, t: (getattr(ag, t), t, None),
    "name": lambda ag, t: (t, t, None),
    "unbound": lambda ag, t: (getattr(type(ag), t), t, None),
    "bound-num": lambda ag, t: ((getattr(ag, t), 2), t, 2),
    "name-num": lambda ag, t: ((t, 2.5), t, 2.5),
    "list": lambda ag, t: ([getattr(ag, t), 3], t, 3),
    "state-delay": lambda ag, t: (getattr(ag, t).delay(2), t, 2),
    "state-at": lambda ag, t: (getattr(ag, t).at(ag.now + 3), t, 3),
    "state-delay-obj": lambda ag, t: ((getattr(ag, t), ag.delay(4)), t, 4),
    "name-none": lambda ag, t: ((t, None), t, None),
    "none-num": lambda ag, t: ((None, 2), None, 2),
    "none-none": lambda ag, t: ((None, None), None, None),
    "num": lambda ag, t: (3, None, 3),
    "float": lambda ag, t: (0.5, None, 0.5),
    "delay": lambda ag, t: (ag.delay(1.5), None, 1.5),
    "at": lambda ag, t: (ag.at(ag.now + 2), None, 2),
    "never": lambda ag, t: ((getattr(ag, t), INF), t, INF),
    "name-never": lambda ag, t: ((t, ag.delay(INF)), t, INF),
    "zero": lambda ag, t: ((t, 0), t, None),
}
TARGETLESS = {"none", "none-num", "none-none", "num", "float", "delay", "at"}
BAD = {
    "unknown": lambda ag: "nope",
    "unknown-pair": lambda ag: ("nope", 1),
    "object-pair": lambda ag: (object(), 1),
    "empty": lambda ag: ("", 1),
}


class St:
    pass


def run(self, name):
    return CUR.st.act(self, name)


def plain(name):
    def f(self):
        return run(self, name)
    f.__name__ = name
    return f


def gen(name):
    def f(self):
        r = run(self, name)
        yield CUR.st.wait(self, name)
        CUR.st.resumed(self, name)
        return r
    f.__name__ = name
    return f


def coro(name):
    async def f(self):
        r = run(self, name)
        await self.delay(CUR.st.wait(self, name))
        CUR.st.resumed(self, name)
        return r
    f.__name__ = name
    return f


MAKERS = {"plain": plain, "gen": gen, "async": coro}


def make(base, kinds, default):
    ns = {}
    for (n, k) in zip(STATES, kinds):
        ns[n] = agents.state(default=(n == default))(MAKERS[k](n)) if k != "named" else None
    # Names may be different from the name of the function
    ns["renamed"] = agents.state("other")(plain("other"))
    return type(base)("Machine", (base,), ns)


_CLS = {}


def program(ctx):
    task = ctx.task
    st = CUR.st = St()
    key = (task["base"], tuple(task["kinds"]), task["default"])
    if key not in _CLS:
        _CLS[key] = make(getattr(agents, task["base"]), task["kinds"], task["default"])
    cls = _CLS[key]
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=SCHEDULERS[task.get("sched", "ordered")])
    start = task.get("start")
    names = STATES + ["other"]
    left = [task["k"]]
    cur = {}
    pending = {}
    inside = {}
    ags = {}

    def act(agent, name):
        uid = agent.unique_id
        ctx.step()
        check(uid in cur, "unknown agent")
        same(name, cur[uid], f"state executed by agent {uid} at {agent.now}")
        same(agent.state_id, name, f"state id of agent {uid} during its activation")
        check(close(pending[uid], agent.now), "agent {} was activated at {}, instead of at {}", uid, agent.now, pending[uid])
        left[0] -= 1
        if left[0] < 0:
            val, target, delay = INF, None, INF
        else:
            f = ctx.pick(task["forms"])
            if f == "die":
                target, delay = "dead", INF
                val = agent.die()
                ctx.note(f"t={agent.now}: {uid} in {name} dies")
            elif f == "spawn":
                if len(ags) >= task["n"] + 2:
                    raise Prune()
                s = ctx.pick(names + [None])
                (val, target, delay) = (None, None, None)
                ctx.note(f"t={agent.now}: {uid} in {name} creates an agent in {s}")
                born(s)
            elif f in TARGETLESS:
                (val, target, delay) = FORMS[f](agent, None)
                ctx.note(f"t={agent.now}: {uid} in {name} returns {f}")
            else:
                t = ctx.pick(names)
                if f == "unbound" and t == "other":
                    raise Prune()
                (val, target, delay) = FORMS[f](agent, t)
                ctx.note(f"t={agent.now}: {uid} in {name} returns {f} to {t}")
        kind = kindof(name)
        inside[uid] = (name, target, delay)
        if kind == "plain":
            resumed(agent, name)
        ctx.state(sorted(cur.items()), sorted(pending.items()), left[0])
        return val

    def kindof(name):
        return task["kinds"][STATES.index(name)] if name in STATES else "plain"

    def wait(agent, name):
        if not agent.alive:
            inside.pop(agent.unique_id)
            pending.pop(agent.unique_id)
            return 1.25
        pending[agent.unique_id] = agent.now + 1.25
        return 1.25

    def resumed(agent, name):
        uid = agent.unique_id
        check(uid in inside and inside[uid][0] == name, "agent {} resumed state {}", uid, name)
        if kindof(name) != "plain":
            check(close(pending[uid], agent.now), "agent {} was resumed at {}, instead of at {}", uid, agent.now, pending[uid])
        (_, target, delay) = inside.pop(uid)
        if target is not None:
            cur[uid] = target
        pending.pop(uid)
        if delay != INF:
            pending[uid] = agent.now + (delay or 1)

    def born(s):
        a = env.add_agent(cls, **({} if s is None else {"state_id": s}))
        ags[a.unique_id] = a
        cur[a.unique_id] = s or task["default"]
        pending[a.unique_id] = env.now
        same(a.state_id, s or task["default"], f"initial state of agent {a.unique_id}, created at {env.now}")

    st.act, st.wait, st.resumed = act, wait, resumed
    for i in range(task["n"]):
        kw = {}
        if start == "name":
            s = ctx.pick(names)
            kw["state_id"] = s
        elif start == "unbound":
            s = ctx.pick(STATES)
            kw["state_id"] = getattr(cls, s)
        else:
            s = task["default"]
        a = env.add_agent(cls, **kw)
        ags[a.unique_id] = a
        cur[a.unique_id] = s
        pending[a.unique_id] = 0.0
        same(a.state_id, s, f"initial state of agent {a.unique_id}")
    steps = 0
    while env.running:
        steps += 1
        check(steps < 60, "the run does not end")
        env.step()
        for (uid, a) in ags.items():
            if a.alive:
                same(a.state_id, cur[uid], f"state of agent {uid} after a step")
        late = {k: w for (k, w) in pending.items() if w < env.now and not close(w, env.now)}
        check(not late, "activations were missed: {}", late)
        for s in names:
            want = sorted(u for u in cur if ags[u].alive and cur[u] == s)
            same(sorted(x.unique_id for x in env.get_agents(state_id=s)), want, f"agents in state {s}")
    ctx.outcome(sorted(cur.items()), env.now)


def invalid(ctx):
    """Unknown states are rejected, and the agent remains in its state"""
    task = ctx.task
    st = CUR.st = St()
    cls = make(getattr(agents, task["base"]), ["plain"] * 3, "a")
    env = scripted(environment.Environment, ctx, uniform=(0.0,))()
    cur = ["a"]
    todo = [None]
    ran = [0]

    def act(agent, name):
        same(name, cur[0], "state executed")
        ran[0] += 1
        return todo[0]

    st.act = act
    how = ctx.pick(["step", "construct", "set"])
    ctx.step()
    if how == "construct":
        bad = ctx.pick(["nope", "", "aa"] if task["base"] == "FSM" else ["nope", "aa"])
        try:
            env.add_agent(cls, state_id=bad)
        except ValueError:
            return
        raise Violation(f"an agent was created in the unknown state {bad!r}")
    a = env.add_agent(cls)
    other = env.add_agent(cls)
    for k in range(task["k"]):
        op = ctx.pick(["good"] + sorted(BAD)) if how == "step" else ctx.pick(["good", "unknown", "object", "time"])
        ctx.step()
        ctx.state(cur, how, k)
        ctx.note(how, op)
        if how == "step":
            if op == "good":
                t = ctx.pick(STATES)
                todo[0] = t
                a.step()
                cur[0] = t
            else:
                n = ran[0]
                todo[0] = BAD[op](a)
                try:
                    a.step()
                except ValueError:
                    pass
                else:
                    raise Violation(f"returning {todo[0]!r} from a state was accepted")
                same(ran[0], n + 1, "number of activations")
        elif how == "set":
            if op == "good":
                t = ctx.pick(STATES)
                if env.now > 0:
                    try:
                        a.set_state(t)
                    except ValueError:
                        pass
                    else:
                        raise Violation("the state was changed after the start of the simulation")
                else:
                    a.set_state(t)
                    cur[0] = t
            elif op == "time":
                todo[0] = None
                if env.now == 0:
                    cur0 = cur[0]
                    # the other agent is in state a
                    st.act = lambda agent, name: None
                    env.step()
                    st.act = act
            else:
                try:
                    a.set_state("nope" if op == "unknown" else object())
                except ValueError:
                    pass
                else:
                    raise Violation("an unknown state was accepted")
        same(a.state_id, cur[0], "state of the agent")
        same(other.state_id, "a", "state of another agent")
        todo[0] = None
    n = ran[0]
    a.step()
    same(ran[0], n + 1, "number of activations")
    same(a.state_id, cur[0], "final state")
    ctx.outcome(how, cur)


def hierarchy(ctx):
    """States are inherited, overridden and added by subclasses"""
    task = ctx.task
    st = CUR.st = St()
    names = ["a", "b"] + (["c"] if task["levels"] > 1 else [])
    base = getattr(agents, task["base"])
    classes = []
    expected = []   # per class: (states -> tag of the function, default)
    cls, states, default = base, {}, None
    for lvl in range(task["levels"]):
        ns = {}
        mine = None
        for n in names:
            c = ctx.choose(3) if lvl > 0 else ctx.choose(2) + 1
            if c == 0:
                continue
            if c == 2:
                if mine is not None:
                    raise Prune()
                mine = n
            tag = f"{n}@{lvl}"
            alias = task.get("alias")
            if alias is None:
                ns[n] = agents.state(default=(c == 2))(tagged(tag, n))
            else:
                # The name of the state is not that of its function
                f = f"on_{n}" if alias == "same" else f"on_{n}_{lvl}"
                ns[f] = agents.state(n, default=(c == 2))(tagged(tag, f))
            states = dict(states, **{n: tag})
        if task.get("plain_default") and mine is None and lvl == task["levels"] - 1 and ns:
            # the other way to mark a default state
            n = sorted(ns)[0]
            ns[n] = agents.default_state(ns[n])
            mine = n
        if mine is not None:
            default = mine
        cls = type(cls)(f"Level{lvl}", (cls,), ns)
        classes.append(cls)
        expected.append((dict(states), default))
    ctx.step()
    ctx.note([(c.__name__, e) for (c, e) in zip(classes, expected)])
    log = []
    st.act = lambda agent, tag: log.append(tag)
    order = list(range(len(classes)))
    if ctx.choose(2):
        order.reverse()
    for i in order:
        (states, default) = expected[i]
        env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
        same(sorted(s for s in classes[i].states() if s != "dead"), sorted(states), f"states of {classes[i]}")
        if default is None:
            try:
                env.add_agent(classes[i])
            except ValueError:
                pass
            else:
                raise Violation(f"an agent without a default state was created: {states}")
        else:
            a = env.add_agent(classes[i])
            same(a.state_id, default, "default state")
            log.clear()
            env.step()
            same(log, [states[default]], "function executed for the default state")
        for s in states:
            env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
            a = env.add_agent(classes[i], state_id=s)
            log.clear()
            env.step()
            same(log, [states[s]], f"function executed for the state {s}")
            ctx.step()
        ctx.state(sorted(states.items()), default)
    ctx.outcome(expected)


def tagged(tag, n):
    def f(self):
        return CUR.st.act(self, tag)
    f.__name__ = n
    return f


def mixin(ctx):
    """States of two parents, with different names"""
    st = CUR.st = St()
    log = []
    st.act = lambda agent, tag: log.append(tag)
    d1, d2, own = ctx.choose(2), ctx.choose(2), ctx.choose(4)
    flip = ctx.choose(2)
    A = type(agents.FSM)("A", (agents.FSM,), {"a": agents.state(default=bool(d1))(tagged("a@A", "a"))})
    B = type(agents.FSM)("B", (agents.FSM,), {"b": agents.state(default=bool(d2))(tagged("b@B", "b"))})
    ns = {}
    if own:
        n = {1: "a", 2: "b", 3: "c"}[own]
        ns[n] = agents.state(default=True)(tagged(f"{n}@C", n))
    bases = (B, A) if flip else (A, B)
    C = type(agents.FSM)("C", bases, dict(ns))
    states = {"a": "a@A", "b": "b@B"}
    states.update({n: f"{n}@C" for n in ns})
    if own:
        default = next(iter(ns))
    elif d1 and d2:
        default = None  # not specified
    else:
        default = "a" if d1 else ("b" if d2 else None)
        if default is None:
            env = environment.Environment()
            try:
                env.add_agent(C)
            except ValueError:
                return
            raise Violation("an agent without a default state was created")
    ctx.step()
    ctx.state(d1, d2, own, flip)
    for s in list(states) + [None]:
        env = scripted(environment.Environment, ctx, uniform=(0.0,))()
        if s is None:
            if default is None:
                continue
            a = env.add_agent(C)
            same(a.state_id, default, "default state")
            s = default
        else:
            a = env.add_agent(C, state_id=s)
        log.clear()
        env.step()
        same(log, [states[s]], f"function executed for {s}")


SHAPES = {  # The parents of each class
    "two": {"A": "", "B": "", "C": "AB"}, "diamond": {"P": "", "A": "P", "B": "P", "C": "AB"}, "grandparent": {"P": "", "A": "P", "B": "", "C": "AB"},
    "grandparent2": {"P": "", "A": "", "B": "P", "C": "AB"}, "deep": {"P": "", "A": "P", "C": "A"}, "shared": {"P": "", "A": "P", "B": "P", "C": "A", "D": "CB"},
}


def lattice(ctx):
    """Several parents, with states and default states in common: the usual order of inheritance"""
    st = CUR.st = St()
    log = []
    st.act = lambda agent, tag: log.append(tag)
    real, plain, own = {}, {}, {}
    shape = SHAPES[ctx.task["shape"]]
    for (i, (name, parents)) in enumerate(shape.items()):
        last = i == len(shape) - 1
        (states, default) = ctx.pick([("", None), ("a", None), ("a", "a"), ("b", None), ("b", "b"), ("ab", "a"), ("ab", "b")] if not last else [("", None), ("a", None), ("b", "b")])
        ns = {n: agents.state(default=n == default)(tagged(f"{n}@{name}", n)) for n in states}
        plain[name] = type(name, tuple(plain[p] for p in parents), {})
        own[plain[name]] = (name, states, default)
        real[name] = type(agents.FSM)(name, tuple(real[p] for p in parents) or (agents.FSM,), ns)
        ctx.note(name, parents, states, default)
    ctx.step()
    for name in shape:
        want, default = {}, None
        for c in reversed(plain[name].__mro__[:-1]):
            (n, states, d) = own[c]
            want.update({s: f"{s}@{n}" for s in states})
            default = d or default
        env = scripted(environment.Environment, ctx, uniform=(0.0,))()
        if default is None:
            if want:
                try:
                    env.add_agent(real[name])
                except ValueError:
                    pass
                else:
                    raise Violation("an agent without a default state was created")
        else:
            a = env.add_agent(real[name])
            same(a.state_id, default, f"default state of {name}")
            env.step()
            same(log, [want[default]], f"function executed for the default state of {name}")
            log.clear()
        for s in want:
            env = scripted(environment.Environment, ctx, uniform=(0.0,))()
            env.add_agent(real[name], state_id=s)
            env.step()
            same(log, [want[s]], f"function executed for the state {s} of {name}")
            log.clear()
        ctx.state(sorted(want.items()), default)
    ctx.outcome(len(want))


SCENARIOS = {"lattice": lattice, "program": program, "invalid": invalid, "hierarchy": hierarchy, "mixin": mixin}


def tasks(tier):
    big = tier == "thorough"
    for shape in SHAPES:
        if big or shape != "shared":
            yield dict(scenario="lattice", shape=shape, split=2)
    forms = list(FORMS) + ["die"]
    simple = ["none", "bound", "name", "name-num", "num", "state-delay", "die"]
    P = ["plain"] * 3
    for base in ("FSM", "Agent"):
        yield dict(scenario="program", base=base, kinds=P, default="a", n=1, k=2 + big, forms=forms, split=2)
        yield dict(scenario="program", base=base, kinds=["plain", "gen", "async"], default="a", n=1, k=2 + big, forms=forms, split=2)
        yield dict(scenario="program", base=base, kinds=["gen", "async", "plain"], default="b", n=1, k=2 + big, forms=forms, split=2)
        yield dict(scenario="program", base=base, kinds=["async", "plain", "gen"], default="longer_state", n=1, k=2, forms=forms, split=2)
        yield dict(scenario="program", base=base, kinds=["plain", "gen", "plain"], default="a", n=2, k=3, forms=simple, split=3)
        for start in ("name", "unbound"):
            yield dict(scenario="program", base=base, kinds=P, default="a", n=2, k=2, forms=simple, start=start, split=2)
            yield dict(scenario="program", base=base, kinds=["gen", "plain", "async"], default="b", n=1, k=2, forms=simple, start=start)
        for s in ("pq-ordered", "timed"):
            yield dict(scenario="program", base=base, kinds=["plain", "gen", "async"], default="a", n=2, k=2, forms=simple, sched=s, split=2)
        yield dict(scenario="invalid", base=base, k=3 + big)
        for levels in (1, 2) + ((3,) if big else ()):
            yield dict(scenario="hierarchy", base=base, levels=levels, split=2)
            yield dict(scenario="hierarchy", base=base, levels=levels, plain_default=True, split=2)
            for alias in ("same", "different"):
                yield dict(scenario="hierarchy", base=base, levels=levels, alias=alias, split=2)
    if not big:
        yield dict(scenario="hierarchy", base="FSM", levels=3, split=4)
    yield dict(scenario="program", base="FSM", kinds=P, default="a", n=1, k=4, forms=["none", "bound", "name-num", "num"], split=2)
    for base in ("FSM", "Agent"):
        for kinds in (P, ["plain", "gen", "async"]):
            yield dict(scenario="program", base=base, kinds=kinds, default="a", n=1, k=3, forms=["none", "bound", "num", "spawn"], split=2)
    yield dict(scenario="mixin")


BOUNDS = {
    "quick": "4 states (plain, generator and coroutine functions), 1-2 agents, 2-4 activations with a free choice among 19 "
             "kinds of results and 4 target states; hierarchies of 1-3 classes with 2-3 states each, and of 3-4 classes with several parents; 3 operations with unknown states",
    "thorough": "as quick, with one more free activation, and more hierarchies",
}
ASSUMPTIONS = ["when two parents define a state with the same name, or both have a default one, the outcome is not specified"]
