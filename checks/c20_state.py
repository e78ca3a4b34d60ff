"""C20: the state of agents and environments."""
import itertools
import logging

import networkx as nx
from soil import agents, environment
from mc.core import Violation, check, same, Prune
from mc.world import scripted, CUR, INF

NOTHING = "<nothing>"


class S:
    pass


BASES = {
    "base": (agents.BaseAgent,),
    "network": (agents.NetworkAgent,),
    "fsm": (agents.FSM,),
    "evented": (agents.EventedAgent,),
    "agent": (agents.Agent,),
    "mixed": (agents.FSM, agents.NetworkAgent),
}


def body(kind):
    ns = {}
    if kind in ("fsm", "agent", "mixed"):
        @agents.default_state
        @agents.state
        def idle(self):
            return INF
        ns["idle"] = idle
    else:
        ns["step"] = lambda self: INF
    return ns


def init(self):
    """Remembers everything that was there when it was called"""
    CUR.st.inits.append((self, {k: getattr(self, k, NOTHING) for k in ("x", "y", "unique_id", "alive", "name")},
                         getattr(self, "node_id", NOTHING), getattr(self, "state_id", NOTHING), self.model is CUR.st.env or CUR.st.env is None))


class Plain(environment.Environment):
    pass


VALUES = [NOTHING, None, 0, 1, "", "text", [], [1, [2]], {"a": [1]}, False]


def precedence(ctx):
    """Where the initial value of an attribute comes from"""
    task = ctx.task
    kind = task["kind"]
    st = CUR.st = S()
    st.inits = []
    st.env = None
    base_default = ctx.pick(VALUES)
    how = ctx.choose(3) if base_default is not NOTHING else 0  # attribute, defaults, or w()
    override = ctx.pick([NOTHING, None, 0, "sub", [5]])
    model = ctx.pick([NOTHING, None, 0, "model", False, len])
    where = ctx.choose(2) if model is not NOTHING else 0  # class of the environment, or parameter
    given = ctx.pick([NOTHING, None, 0, "given", len])
    ctx.note(f"{kind}: default {base_default!r} ({['attribute', 'defaults', 'w'][how]}), redefined as {override!r}, in the model {model!r} "
             f"({['class', 'parameter'][where]}), argument {given!r}")
    ctx.step()
    ns = dict(body(kind), init=init)
    kwargs = {}
    if base_default is not NOTHING and how == 0:
        ns["x"] = base_default
    elif base_default is not NOTHING and how == 1:
        ns["defaults"] = {"x": base_default}
    cls = type(agents.BaseAgent)("One", BASES[kind], ns) if kind in ("base", "network", "evented") else type(agents.FSM)("One", BASES[kind], ns)
    if base_default is not NOTHING and how == 2:
        cls = cls.w(x=base_default)
        same(cls.__name__, "One", "name of a customized class")
    sub = cls
    if override is not NOTHING:
        sub = type(cls)("Sub", (cls,), {"x": override})
    ecls = Plain
    params = {}
    if model is not NOTHING:
        if where == 0:
            ecls = type("Env", (Plain,), {"x": model})
        else:
            params["x"] = model
    env = scripted(ecls, ctx, uniform=(0.0,))(**params) if kind != "network" else ecls(**params)
    st.env = env
    if given is not NOTHING:
        kwargs["x"] = given
    default = override if override is not NOTHING else base_default
    if given is not NOTHING:
        want = given
    elif default is not NOTHING and model is not NOTHING and model is not None:
        want = model  # The values of the model replace the defaults of the class
    else:
        want = default
    made = [env.add_agent(sub, **kwargs), env.add_agent(sub, y=7, **kwargs)]
    if override is not NOTHING:
        other = env.add_agent(cls)
        w2 = base_default
        if w2 is not NOTHING and model is not NOTHING and model is not None:
            w2 = model
        same(getattr(other, "x", NOTHING), w2, "value in the base class")
        st.inits.pop()
    for (i, a) in enumerate(made):
        got = getattr(a, "x", NOTHING)
        check(type(got) is type(want) and got == want, "the initial value is {!r}, expected {!r}", got, want)
        same(getattr(a, "y", NOTHING), 7 if i else NOTHING, "other attribute")
        same(a.get("y", "default"), 7 if i else "default", "get() of the other attribute")
        check(a.model is env and a.alive is True and a.unique_id == i, "basic attributes: {} {}", a.alive, a.unique_id)
        same(a.name, f"{sub.__name__}[{i}]", "name")
    # init is called once, when everything is in place
    same([i[0] for i in st.inits], made, "agents initialized")
    for (i, (a, seen, node, state, m)) in enumerate(st.inits):
        same(seen, {"x": want, "y": 7 if i else NOTHING, "unique_id": i, "alive": True, "name": a.name}, "attributes seen by init()")
        if kind in ("network", "agent", "mixed"):
            same(node, a.node_id, "node seen by init()")
        if kind in ("fsm", "agent", "mixed"):
            same(state, "idle", "state seen by init()")
        check(m, "the model is not available in init()")
    # The defaults are not shared
    if isinstance(want, (list, dict)) and want is not given:
        same(want, override if override is not NOTHING else base_default, "default")
        a, b = made
        check(a.x is not b.x, "two agents share the default")
        a.x.append(1) if isinstance(a.x, list) else a.x.update(z=1)
        if want:
            (a.x[1] if isinstance(a.x, list) and len(a.x) > 1 and isinstance(a.x[1], list) else a.x if isinstance(a.x, list) else a.x["a"]).append(3)
        keep = [] if want == [] else want
        c = env.add_agent(sub)
        check(repr(b.x) == repr(want) and repr(c.x) == repr(want), "changing the default in an agent affected others: {} {}", b.x, c.x)
    ctx.state(kind, repr(base_default), repr(override), repr(model), repr(given))
    ctx.outcome(repr(want))


def inheritance(ctx):
    """Several bases: the value is the one of the first class in the usual order"""
    kind = ctx.task["kind"]
    st = CUR.st = S()
    st.inits, st.env = [], None
    meta = type(BASES[kind][0])
    rooted = ctx.choose(2)
    root = meta("Root", BASES[kind], dict(body(kind), x="root") if rooted else body(kind))
    names = ["A", "B", "C"][:ctx.task["n"]]
    mid = []
    text = []
    for n in names:
        own = ctx.choose(3)
        ns = {} if own == 0 else {"x": n} if own == 1 else {"defaults": {"x": n}}
        parents = [root] + [m for m in mid]
        p = parents[ctx.choose(len(parents))]
        mid.append(meta(n, (p,), ns))
        text.append((n, p.__name__, own))
    last = ctx.choose(2)
    order = list(itertools.permutations(range(len(mid)), 2))[ctx.choose(len(mid) * (len(mid) - 1))]
    try:
        cls = meta("Last", tuple(mid[i] for i in order), {"x": "last"} if last else {})
    except TypeError:
        raise Prune()
    ctx.note(text, [mid[i].__name__ for i in order], last)
    ctx.step()
    want = NOTHING
    for c in cls.__mro__:
        if c is cls and last:
            want = "last"
            break
        if c.__name__ in [t[0] for t in text if t[2]]:
            want = c.__name__
            break
        if c is root and rooted:
            want = "root"
            break
    env = Plain()
    a = env.add_agent(cls)
    same(getattr(a, "x", NOTHING), want, f"value inherited ({[c.__name__ for c in cls.__mro__][:5]})")
    ctx.state(text, order, bool(last))
    ctx.outcome(want)


class Walker(agents.BaseAgent):
    x = 1

    def step(self):
        return INF


class Machine(agents.Agent):
    x = 1

    @property
    def computed(self):
        return [self.unique_id, "computed"]

    @property
    def broken(self):
        raise AttributeError("not yet")

    @agents.state(default=True)
    def only(self):
        return INF


def views(obj, names):
    """Items and attributes are the same"""
    for q in names:
        there = hasattr(obj, q)
        same(q in obj, there, f"{q} is in the dictionary")
        try:
            got = obj[q]
        except KeyError:
            check(not there, "the attribute {} is missing in the dictionary", q)
            same(obj.get(q, "default"), getattr(getattr(obj, "model", None), q, "default"), f"get({q})")
        else:
            check(there, "{} is in the dictionary, but it is not an attribute", q)
            same(got, getattr(obj, q), f"item {q}")
            same(obj.get(q, "default"), got, f"get({q})")


def mapping(ctx):
    """An agent (or an environment) is a dictionary of its state"""
    task = ctx.task
    env = type("Env", (Plain,), {"z": "of the model"})()
    what = task["what"]
    obj = env if what == "env" else env.add_agent(Walker if what == "agent" else Machine)
    if what == "env":
        obj.x = 1
    base = {k: v for (k, v) in vars(obj).items() if not k.startswith("_") and not (what != "env" and k in ("model", "logger"))}
    ref = dict(base)
    for n in range(task["len"]):
        op = ctx.pick(task["ops"])
        k = ctx.pick(["x", "y"])
        ctx.note(op, k)
        ctx.step()
        if op == "set":
            v = [n]
            obj[k] = v
            ref[k] = v
        elif op == "attr":
            setattr(obj, k, n)
            ref[k] = n
        elif op == "none":
            obj[k] = None
            ref[k] = None
        elif op == "del":
            try:
                del obj[k]
            except (KeyError, AttributeError):
                check(k not in ref, "{} could not be removed", k)
            else:
                check(k in ref, "{} was removed, but it was not there", k)
                del ref[k]
        elif op == "private":
            setattr(obj, "_" + k, 1)
        elif op == "update":
            obj.update({k: n, "q": n})
            ref.update({k: n, "q": n})
        elif op == "pop":
            same(obj.pop(k, "none"), ref.pop(k, "none"), f"pop({k})")
        elif op == "setdefault":
            same(obj.setdefault(k, n), ref.setdefault(k, n), f"setdefault({k})")
        # Compare
        same(sorted(obj.keys()), sorted(ref), "keys")
        same(len(obj), len(ref), "length")
        for q in ("x", "y", "q"):
            same(q in obj, q in ref, f"{q} is there")
            same(obj.get(q, "none"), ref.get(q, "none"), f"get({q})")
            same(hasattr(obj, q), q in ref, f"attribute {q}")
            try:
                got = obj[q]
            except KeyError:
                check(q not in ref, "{} is missing", q)
            else:
                check(q in ref and got is ref[q], "{} is {!r}", q, got)
        check("missing" not in obj and obj.get("missing") is None and obj.get("missing", 3) == 3, "an attribute that does not exist")
        try:
            obj["missing"]
        except KeyError:
            pass
        else:
            raise Violation("an attribute that does not exist")
        views(obj, ["now", "step", "unique_id", "name", "alive", "id_", "G", "node_id", "node", "state_id", "only", "dead", "computed", "broken",
                    "schedule", "datacollector", "random", "agents", "init"])
        if what != "env":
            same(dict(obj.items()), ref, "items")
            same(dict(obj), ref, "dictionary")
            same(sorted(obj), sorted(ref), "iterator")
            same(sorted(map(repr, obj.values())), sorted(map(repr, ref.values())), "values")
            same(obj.get("z"), "of the model", "get() of an attribute of the model")
            same(dict(obj.items(keys=["x"])), {"x": ref.get("x")}, "items with some keys")
            same(dict(obj.items(skip=["x", "y"])), {k: v for (k, v) in ref.items() if k not in ("x", "y")}, "items without some keys")
            for q in ref:
                check(repr(q) in str(obj), "{} is not in the description: {}", q, obj)
        ctx.state(sorted(ref), op)
    ctx.outcome(sorted(ref))


def hashes(ctx):
    """Agents can be used in sets and as keys, whatever their state is"""
    env = Plain()
    made = [env.add_agent(Walker) for i in range(2)] + [Plain().add_agent(Walker)]
    h = [hash(a) for a in made]
    s = {a: i for (i, a) in enumerate(made[:2])}
    for n in range(3):
        a = ctx.choose(2)
        op = ctx.pick(["x", "list", "die", "other"])
        ctx.step()
        ctx.note(op, a)
        if op == "x":
            made[a].x += 1
        elif op == "list":
            made[a].y = [1]
        elif op == "die":
            made[a].die()
        else:
            made[a].friend = 3
        same([hash(b) for b in made], h, "hashes")
        same([s[b] for b in made[:2]], [0, 1], "agents used as keys")
        check(made[0] != made[1] and made[0] == made[0], "two agents of an environment are equal")
        check(made[0] != made[2] and len({made[0], made[2]}) == 2 and made[2] not in s, "agents of two environments are equal")
        ctx.state(op, a, n)
    ctx.outcome(0)


class Boxes(environment.Environment):
    """When everything is ready"""
    x = 1
    y = [1]
    z = "class"

    def init(self):
        st = CUR.st
        st.inits.append(self)
        st.seen = ({k: self.get(k, NOTHING) for k in ("x", "y", "z", "w")}, sorted(map(str, self.G.nodes)), len(list(self.get_agents())), self.now,
                   len(self.datacollector.model_vars["time"]) if "time" in self.datacollector.model_vars else 0)
        if st.add:
            self.add_agent(Walker)


def env_state(ctx):
    """The parameters of an environment, and when init is called"""
    st = CUR.st = S()
    st.inits = []
    params = {}
    for k in ("x", "y", "w"):
        v = ctx.pick([NOTHING, None, 0, "given"])
        if v is not NOTHING:
            params[k] = v
    topo = ctx.choose(3)
    kw = {}
    if topo:
        kw["topology"] = nx.path_graph(2)
    if topo == 2:
        kw["agent_class"] = agents.Ticker if ctx.choose(2) else "Ticker"
    if ctx.choose(2):
        kw["agents"] = dict(agent_classes=[Walker], k=2)
    st.add = ctx.choose(2)
    run = ctx.choose(2)
    ctx.note(params, sorted(kw), "init" if run else "no init")
    ctx.step()
    env = Boxes(init=bool(run), id="named", **params, **kw)
    want = {"x": params.get("x", 1), "y": params.get("y", [1]), "z": "class", "w": params.get("w", NOTHING)}
    same({k: env.get(k, NOTHING) for k in want}, want, "attributes of the environment")
    n = (2 if topo == 2 else 0) + (2 if "agents" in kw else 0)
    same(len(list(env.get_agents())), n + (1 if run and st.add else 0), "agents")
    same((env.id, env.now, env.running), ("named", 0, True), "environment")
    if run:
        same(st.inits, [env], "calls to init()")
        same(st.seen[0], want, "attributes seen by init()")
        same(st.seen[1:4], (["0", "1"] if topo else [], n, 0), "network, agents and time seen by init()")
        same(st.seen[4], 0, "rows collected before init()")
        same(env.datacollector.model_vars["agent_count"], [n + (1 if st.add else 0)], "rows collected after init()")
    else:
        same(st.inits, [], "calls to init()")
    ctx.state(sorted(params.items(), key=repr), sorted(kw), st.add, run)
    ctx.outcome(n)


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


def logs(ctx):
    """Messages of agents and environments, with any level"""
    env = Plain(id="logged")
    a = env.add_agent(Walker)
    h = Handler()
    log = logging.getLogger("soil")
    old = log.level, list(log.handlers), log.propagate
    log.handlers = [h]
    log.propagate = False
    try:
        level = ctx.pick([logging.DEBUG, logging.INFO, logging.WARNING])
        log.setLevel(level)
        who = ctx.pick([a, env])
        how = ctx.pick(["info", "debug", "log"])
        if who is env and how != "log":
            raise Prune()
        args = ctx.pick([["text"], ["text", 1, None], ["100% {}"]])
        kw = ctx.pick([{}, {"foo": 1}, {"ab": "x", "c": [1]}])
        ctx.note(level, type(who).__name__, how, args, kw)
        ctx.step()
        getattr(who, how)(*args, **kw)
        used = logging.DEBUG if how == "debug" else logging.INFO
        if used < level:
            same(h.records, [], "messages")
        else:
            same(len(h.records), 1, "messages")
            (lv, msg) = h.records[0]
            same(lv, used, "level")
            for t in args:
                check(str(t) in msg, "{!r} is not in the message {!r}", t, msg)
            for (k, v) in kw.items():
                check(f"{k}={v}" in msg, "{}={} is not in the message {!r}", k, v, msg)
        ctx.state(level, how, args, sorted(kw))
        ctx.outcome(len(h.records))
    finally:
        log.setLevel(old[0])
        log.handlers = old[1]
        log.propagate = old[2]


SCENARIOS = {"precedence": precedence, "inheritance": inheritance, "mapping": mapping, "hashes": hashes, "env": env_state, "logs": logs}


def tasks(tier):
    big = tier == "thorough"
    for kind in BASES:
        yield dict(scenario="precedence", kind=kind, split=1)
    for kind in ("base", "fsm", "agent"):
        yield dict(scenario="inheritance", kind=kind, n=2)
        yield dict(scenario="inheritance", kind=kind, n=3, split=2)
    ops = ["set", "attr", "none", "del", "private", "update", "pop", "setdefault"]
    yield dict(scenario="mapping", what="agent", ops=ops, len=3 + big, split=2)
    yield dict(scenario="mapping", what="machine", ops=ops, len=2 + big, split=1)
    yield dict(scenario="mapping", what="env", ops=ops[:5], len=3 + big, split=2)
    yield dict(scenario="hashes", split=1)
    yield dict(scenario="env", split=2)
    yield dict(scenario="logs")


BOUNDS = {
    "quick": "6 kinds of agents, with 10 defaults defined in 3 ways, 5 values in a subclass, 5 in the model (in 2 ways) and 4 as arguments; hierarchies with "
             "2-3 classes in any order; sequences of 3 operations out of 8 on the state of an agent or an environment; environments with any subset of "
             "3 parameters with 3 values, networks and agents; messages with 3 levels",
    "thorough": "as quick, with sequences of 4 operations",
}
ASSUMPTIONS = ["a value of the model that is None does not replace the default of the agents"]
