"""C13: iterations, configurations and simulations do not affect each other."""
import contextlib
import io
import os
from copy import deepcopy

import networkx as nx
from soil import agents, environment, simulation
from soil import time as stime
from soil.decorators import report
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR


class S:
    pass


class Member(agents.Agent):
    things = []
    table = {"k": [1]}
    count = 0
    defaults = {"history": [0]}

    @agents.state(default=True)
    def first(self):
        CUR.st.act(self)
        return None

    @agents.state
    def second(self):
        CUR.st.act(self)
        return None


class Loner(agents.EventedAgent):
    things = []

    def step(self):
        while True:
            CUR.st.act(self)
            yield 1


class World(environment.Environment):
    shared = None

    def init(self):
        st = CUR.st
        st.snaps.append(snapshot(self, "created"))
        if len(self.G):
            self.populate_network(Member)
        self.add_agent(Member)
        self.add_agent(Loner)
        st.snaps[-1] = (st.snaps[-1], snapshot(self, "populated"))
        st.envs.append(self)
        for op in st.in_init:
            mutate(self, op)


def plain(v):
    return {k: x for (k, x) in v.items() if k != "agent"}


def snapshot(env, what):
    """What a model sees when it starts"""
    agents_ = []
    for a in env.get_agents():
        agents_.append((a.unique_id, type(a).__name__, a.name, list(a.things) if hasattr(a, "things") and isinstance(a.things, list) else None,
                        deepcopy(getattr(a, "table", None)), getattr(a, "count", None), deepcopy(getattr(a, "history", None)),
                        getattr(a, "state_id", None), getattr(a, "extra", None), len(getattr(a, "_inbox", ()))))
    return dict(
        now=env.now, steps=env.schedule.steps, running=env.running,
        nodes=sorted((str(n), sorted(plain(d).items())) for (n, d) in env.G.nodes(data=True)),
        graph=sorted(env.G.graph.items()),
        edges=sorted((str(u), str(v), sorted(d.items())) for (u, v, d) in env.G.edges(data=True)),
        holders=sorted((str(n), getattr(d.get("agent"), "unique_id", None)) for (n, d) in env.G.nodes(data=True)),
        reporters=sorted(env.datacollector.model_reporters), areporters=sorted(env.datacollector.agent_reporters),
        rows={k: list(v) for (k, v) in env.datacollector.model_vars.items()},
        tables={k: {c: list(x) for (c, x) in v.items()} for (k, v) in env.datacollector.tables.items()},
        agents=agents_,
        extra=getattr(env, "extra", None),
        random=None if what == "populated" else env.random.getstate() if False else None,
    )


def mutate(env, op, agent=None):
    members = [a for a in env.get_agents() if isinstance(a, Member)]
    a = agent if isinstance(agent, Member) else (members[0] if members else None)
    G = env.G
    if op == "graph-node":
        G.add_node(f"extra{len(G)}", color="red")
    elif op == "graph-attr":
        for n in G.nodes:
            G.nodes[n]["visited"] = True
        for (u, v) in G.edges:
            G.edges[u, v]["weight"] = 9
        G.graph["touched"] = True
    elif op == "graph-nested" and len(G):
        pass
    elif op == "graph-remove" and len(members) > 1:
        members[-1].die()
    elif op == "graph-edge" and len(members) > 1:
        members[0].add_edge(members[1], kind="new")
    elif op == "defaults" and a is not None:
        a.things.append(1)
        a.table["k"].append(2)
        a.table["new"] = 3
        a.history.append(1)
        a.count += 5
        a.extra = 1
    elif op == "reporter":
        env.add_model_reporter("late", lambda m: 1)
        env.datacollector.model_vars["late"].extend([None] * (len(env.datacollector.model_vars["time"])))
    elif op == "agent-reporter":
        env.add_agent_reporter("late", lambda a: 1)
    elif op == "env":
        env.extra = [1]
        env.running = env.running
    elif op == "state" and a is not None:
        if env.now == 0:
            a.set_state("second")
    elif op == "birth":
        env.add_node(Member)
        env.add_agent(Loner)
    elif op == "message":
        env.broadcast("hello")
    elif op == "table":
        env.datacollector.add_table_row("log", {"who": 1, "what": "x"})
    elif op == "random":
        env.random.random()


OPS = ["graph-node", "graph-attr", "graph-remove", "graph-edge", "defaults", "agent-reporter", "env", "state", "birth", "message", "table", "random"]


def topology(kind):
    if kind == "graph":
        G = nx.path_graph(3)
        G.nodes[0]["color"] = "blue"
        G.edges[0, 1]["weight"] = 2
        return G
    if kind == "digraph":
        return nx.DiGraph([("a", "b"), ("b", "c")])
    if kind == "dict":
        return nx.node_link_data(nx.path_graph(3))
    return None


def frozen(G):
    if isinstance(G, nx.Graph):
        return (sorted((str(n), sorted(d.items())) for (n, d) in G.nodes(data=True)),
                sorted((str(u), str(v), sorted(d.items())) for (u, v, d) in G.edges(data=True)), sorted(G.graph.items()))
    return repr(G)


def iterations(ctx):
    task = ctx.task
    st = CUR.st = S()
    st.snaps, st.envs = [], []
    ops = [o for o in [ctx.pick(["none"] + OPS) for _ in range(task["k"])] if o != "none"]
    where = ctx.pick(["init", "step"])
    ctx.note(ops, where)
    st.in_init = ops if where == "init" else []
    G = topology(task["topology"])
    before = frozen(G)

    def act(agent):
        ctx.step()
        if where == "step" and agent.now == 0 and agent.unique_id == 0:
            for o in ops:
                mutate(agent.model, o, agent)
    st.act = act
    model_reporters = {"total": lambda m: m.count_agents()}
    agent_reporters = {"count": "count"}
    tables = {"log": ["who", "what"]}
    params = {"topology": G} if G is not None else {}
    if task.get("pr"):
        params["agent_reporters"] = {"extra": "extra"}
        params["model_reporters"] = {"other": lambda m: 2}
    rep = (dict(model_reporters), dict(agent_reporters), deepcopy(tables), dict(params), {k: dict(v) for (k, v) in params.items() if k.endswith("reporters")})
    kw = dict(name="s", model=World, model_reporters=model_reporters, agent_reporters=agent_reporters, tables=tables,
              max_time=2, dump=False, exporters=[], parameters=params)
    how = task["how"]
    if how == "iterations":
        simulation.Simulation(iterations=3, **kw).run()
    elif how == "runs":
        sim = simulation.Simulation(**kw)
        sim.run()
        sim.run()
        simulation.Simulation(**kw).run()
    elif how == "matrix":
        kw["parameters"] = {}
        simulation.Simulation(matrix={k: [v, v] for (k, v) in params.items()} or {"z": [1, 2]}, **kw).run()
    elif how == "envs":
        # Without a simulation, all of them alive at once
        es = []
        for i in range(2):
            e = World(model_reporters=model_reporters, agent_reporters=agent_reporters, tables=tables,
                      **{k: v for (k, v) in params.items() if k == "topology"})
            es.append(e)
        for _ in range(2):
            for e in es:
                e.step()
        e = World(model_reporters=model_reporters, agent_reporters=agent_reporters, tables=tables,
                  **{k: v for (k, v) in params.items() if k == "topology"})
        e.step()
    same(len(st.snaps) >= 2, True, "more than one environment")
    for (i, (created, populated)) in enumerate(st.snaps[1:], 1):
        for (w, x, y) in (("created", created, st.snaps[0][0]), ("populated", populated, st.snaps[0][1])):
            for key in y:
                if key == "agents" or key == "holders":
                    continue
                same(x[key], y[key], f"{key} of environment {i} when it was {w}")
            same(sorted(x["agents"], key=lambda z: z[0]), sorted(y["agents"], key=lambda z: z[0]), f"agents of environment {i} when it was {w}")
            same(sorted(str(z[1]) for z in x["holders"]), sorted(str(z[1]) for z in y["holders"]), f"agents in the nodes of environment {i} when it was {w}")
    first = st.envs[0]
    for e in st.envs[1:]:
        check(e.G is not first.G, "two environments share their network")
        check(not {id(a) for a in e.get_agents()} & {id(a) for a in first.get_agents()}, "two environments share agents")
        check(all(a.model is e for a in e.get_agents()), "an agent of another environment")
        for (n, d) in e.G.nodes(data=True):
            check(d.get("agent") is None or d["agent"].model is e, "the network of an environment has an agent of another one")
        same({k: list(v) for (k, v) in e.datacollector.model_vars.items()}.keys(), first.datacollector.model_vars.keys(), "reporters")
    same(frozen(G), before, "the topology of the user, afterwards")
    same((model_reporters, agent_reporters, tables), rep[:3], "the reporters and tables of the user, afterwards")
    same(params, rep[3], "the parameters of the user, afterwards")
    same({k: v for (k, v) in params.items() if k.endswith("reporters")}, rep[4], "the reporters in the parameters, afterwards")
    ctx.state(ops, where, how)
    ctx.outcome(repr(st.snaps[0]))


def agents_isolated(ctx):
    """Agents of the same class (or of a subclass) in the same environment do not share their attributes"""
    st = CUR.st = S()
    st.act = lambda a: None
    st.snaps, st.envs, st.in_init = [], [], []
    env = environment.Environment(topology=nx.path_graph(2))
    Sub = type(Member)("Sub", (Member,), {"things": [7], "more": {"x": []}})
    custom = Member.w(things=[5])
    base = {Member: dict(things=[], table={"k": [1]}, history=[0], count=0), Sub: dict(things=[7], table={"k": [1]}, history=[0], more={"x": []}, count=0),
            custom: dict(things=[5], table={"k": [1]}, history=[0], count=0)}
    want = []
    ags = []
    for _ in range(ctx.task["k"]):
        ctx.step()
        op = ctx.pick(["new", "new-sub", "new-custom"] + [("touch", i) for i in range(len(ags))] + [("set", i) for i in range(len(ags))])
        ctx.note(op)
        if op in ("new", "new-sub", "new-custom"):
            c = {"new": Member, "new-sub": Sub, "new-custom": custom}[op]
            ags.append(env.add_agent(c))
            want.append(deepcopy(base[c]))
        elif op[0] == "touch":
            a, w = ags[op[1]], want[op[1]]
            for d in (w, a):
                d["things"].append(len(ags))
                d["table"]["k"].append(1)
                d["history"].append(4)
                if "more" in d:
                    d["more"]["x"].append(2)
        else:
            a, w = ags[op[1]], want[op[1]]
            a.things = w["things"] = ["new"]
            want[op[1]]["things"] = ["new"]
            a.count += 1
            w["count"] += 1
        for (a, w) in zip(ags, want):
            for (k, v) in w.items():
                same(a[k], v, f"attribute {k} of agent {a.unique_id}")
        ctx.state(repr(want))
    ctx.outcome(repr(want))


def star(n=3, **kw):
    return nx.star_graph(n)


def ring(n=3, **kw):
    return nx.cycle_graph(n)


class Free(environment.Environment):
    amount = 0
    extra = None

    def init(self):
        CUR.st.envs.append(self)
        self.add_agent(Member, **(self.extra or {}))


GENERATORS = {"star": star, "ring": ring, "path": "path_graph", "complete": nx.complete_graph}


def reused(ctx):
    """The same dictionaries are given to several environments (or simulations): they are not modified, and each
    environment gets what it was given, regardless of the previous ones"""
    task = ctx.task
    st = CUR.st = S()
    st.act = lambda a: None
    st.envs = []
    net = dict(n=4)
    extra = dict(name="x", count=3)
    params = dict(network_params=net, extra=extra)
    keep = deepcopy(params)
    want = []
    for i in range(task["k"]):
        ctx.step()
        gen = ctx.pick(sorted(GENERATORS))
        how = ctx.pick(["env", "sim", "matrix", "in-params", "defaults"])
        ctx.note(gen, how)
        g = GENERATORS[gen]
        n = {"star": 5, "ring": 4, "path": 4, "complete": 4}[gen]
        m = {"star": 4, "ring": 4, "path": 3, "complete": 6}[gen]
        if how == "env":
            Free(network_generator=g, **params)
        elif how == "sim":
            simulation.Simulation(name="s", model=Free, parameters=dict(params, network_generator=g), max_time=1, dump=False, exporters=[]).run()
        elif how == "matrix":
            simulation.Simulation(name="s", model=Free, matrix=dict(network_generator=[g, g], network_params=[net]),
                                  max_time=1, dump=False, exporters=[]).run()
        elif how == "in-params":
            own = dict(net, generator=g)
            Free(network_params=own, extra=extra)
            same(own, dict(net, generator=g), "parameters of the network, afterwards")
        else:
            Free(amount=7)
            n, m = 0, 0
        while len(want) < len(st.envs):
            want.append((n, m, 7 if how == "defaults" else 0))
        same(params, keep, "the dictionaries of the user, afterwards")
    for (i, (e, (n, m, c))) in enumerate(zip(st.envs, want)):
        agents_in = 1
        same((len(e.G) if n else None, len(e.G.edges), e.amount), (n or None, m, c), f"nodes and links of the network of environment {i}, and its parameter")
        same(e.count_agents(), agents_in, "agents")
        (a,) = e.get_agents()
        same((a.count, a.history), (3 if e.extra else 0, [0]), "attributes of the agent")
        a.history.append(1)
    same(GENERATORS["complete"], nx.complete_graph, "generators")
    ctx.state(want)
    ctx.outcome(want)


# --- Any environment (or simulation) after, or at the same time as, any other one

class Idle(agents.BaseAgent):
    """Without a default interval of its own"""
    pace = None
    tags = None
    amount = 1
    nested = {"a": [1]}

    def step(self):
        self.amount += self.random.random()
        self.nested["a"].append(self.now)
        return self.pace


class Moving(agents.FSM):
    hops = 0

    @agents.state(default=True)
    def here(self):
        self.hops += 1
        return self.there

    @agents.state
    def there(self):
        yield 2
        self.hops += 10
        return self.here


class Stuck(Moving):
    @agents.state
    def there(self):
        self.hops += 100


class Late(Moving):
    @agents.state(default=True)
    def later(self):
        return self.there.delay(3)


class Chatty(agents.EventedAgent):
    heard = 0

    def on_receive(self, msg, sender=None):
        self.heard += msg

    def step(self):
        self.process_messages()
        self.model.broadcast(self.unique_id + 1, sender=self)


class Mortal(agents.NetworkAgent):
    age = 0

    def step(self):
        self.age += 1
        if self.age > 1 + self.unique_id:
            self.die()
        elif self.random.random() < 0.5:
            self.model.add_node(type(self))


class Reporting(environment.Environment):
    bonus = 1

    @report
    @property
    def wealth(self):
        return self.bonus * self.count_agents()

    def init(self):
        self.add_agent(Idle)


class Slow(environment.Environment):
    schedule_class = stime.PQueueActivation
    default_interval = 3


def tell(env):
    """Everything that can be seen of an environment"""
    dc = env.datacollector
    return repr((env.id, env.now, env.running, env.schedule.steps, {k: list(v) for (k, v) in dc.model_vars.items()}, dict(dc._agent_records),
                 {k: dict(v) for (k, v) in dc.tables.items()}, sorted(dc.model_reporters), sorted(dc.agent_reporters),
                 [(a.unique_id, type(a).__name__, getattr(a, "state_id", None), [(k, v) for (k, v) in a.items() if isinstance(v, (int, float, str, list, dict, tuple, type(None)))])
                  for a in env.get_agents()],
                 [(n, plain(d), getattr(d.get("agent"), "unique_id", None)) for (n, d) in env.G.nodes(data=True)], sorted(map(str, env.G.edges(data=True))), env.random.random()))


def by_hand(cls, fill, steps=4, **kw):
    def f():
        env = cls(**kw)
        fill(env)
        yield
        for _ in range(steps):
            env.step()
            yield
        return tell(env)
    return f


def simulated(run=None, **kw):
    def f():
        sim = simulation.Simulation(name="s", max_time=4, dump=False, exporters=kw.pop("exporters", []), **kw)
        yield
        before = {k: repr(v) for (k, v) in vars(sim).items() if not k.startswith("_")}
        envs = sim.run(**(run or {}))
        first = [tell(e) for e in envs]
        yield
        same({k: repr(v) for (k, v) in vars(sim).items() if k in before}, before, "the simulation, after it is run")
        return first + [tell(e) for e in sim.run()]
    return f


def many(*classes, **kw):
    def fill(env):
        for c in classes:
            env.add_agent(c, **kw)
    return fill


def people(cls):
    return lambda env: env.populate_network(cls)


class Full(environment.Environment):
    def init(self):
        self.add_agents([Idle, Chatty], k=3)
        self.populate_network([Mortal, Moving2])


class Moving2(agents.Agent, Moving):
    pass


SISA = {k: 0.3 for k in ("neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob",
                         "discontent_neutral", "discontent_content", "content_discontent", "content_neutral", "standard_variance", "variance_d_c", "variance_c_d")}
E = environment.Environment
CONFIGS = {
    "plain": by_hand(E, many(Idle, Idle)),
    "interval": by_hand(E, many(Idle, Idle), default_interval=2),
    "interval-pq": by_hand(E, many(Idle), default_interval=0.5, schedule_class=stime.PQueueActivation),
    "pq": by_hand(E, many(Idle, Idle), schedule_class=stime.PQueueActivation),
    "ordered": by_hand(E, many(Idle, Moving, Idle), schedule_class=stime.OrderedTimedActivation),
    "slow": by_hand(Slow, many(Idle, Stuck)),
    "given": by_hand(E, many(Idle, pace=2, tags=["x"], amount=7)),
    "model": by_hand(E, many(Idle), pace=3, tags="model", amount=50),
    "custom": by_hand(E, many(Idle.w(pace=5, amount=3), Idle)),
    "moving": by_hand(E, many(Moving, Moving)),
    "stuck": by_hand(E, many(Stuck, Late, Moving)),
    "state": by_hand(E, many(Late, state_id="here")),
    "chatty": by_hand(E, many(Chatty, Chatty, Idle)),
    "mortal": by_hand(E, people(Mortal), topology=nx.path_graph(3)),
    "generated": by_hand(E, people(Mortal), network_generator="erdos_renyi_graph", network_params=dict(n=4, p=0.5)),
    "sisa": by_hand(E, people(agents.SISaModel), topology=nx.path_graph(3), **SISA),
    "reported": by_hand(Reporting, many(Idle), seed="other", agent_reporters={"amount": "amount"}, tables={"t": ["a"]}),
    "reported-bonus": by_hand(Reporting, many(), bonus=5),
    "simulation": simulated(model=Full, parameters=dict(topology=nx.path_graph(2)), iterations=2),
    "seed": simulated(model=Full, parameters=dict(topology=nx.path_graph(2)), seed="mine"),
    "limits": simulated(model=Full, parameters=dict(topology=nx.path_graph(2)), run=dict(max_steps=1, iterations=2)),
    "matrix": simulated(model=Reporting, matrix=dict(bonus=[2, 3], default_interval=[1, 2])),
    "reporters": simulated(model=Reporting, model_reporters=dict(now="now"), agent_reporters=dict(x=lambda a: a.amount), parameters=dict(agent_reporters=dict(p="pace"))),
    "exporter": simulated(model=Reporting, exporters=["csv", "default"], backup=True),
}


def alone(name):
    """The result of a configuration in a process of its own, in which nothing else has been run"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out = repr(finish(CONFIGS[name]()))
        except BaseException as ex:
            out = f"ERROR {type(ex).__name__}: {ex}"
        with os.fdopen(w, "wb") as f:
            f.write(out.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read().decode()
    os.waitpid(pid, 0)
    return out


def finish(g):
    while True:
        try:
            next(g)
        except StopIteration as ex:
            return ex.value


_ALONE = {}


def prepare():
    """In the main process, before anything is run"""
    for name in CONFIGS:
        if name not in _ALONE:
            _ALONE[name] = alone(name)


def together(ctx):
    prepare()
    task = ctx.task
    names = [task["first"]] + [ctx.pick(sorted(CONFIGS)) for _ in range(task["k"] - 1)]
    ctx.note(names, task["how"])
    results = []
    if task["how"] == "after":
        for n in names:
            ctx.step()
            results.append(finish(CONFIGS[n]()))
    else:
        running = [(i, CONFIGS[n]()) for (i, n) in enumerate(names)]
        results = [None] * len(names)
        while running:
            for (i, g) in list(running):
                ctx.step()
                try:
                    next(g)
                except StopIteration as ex:
                    results[i] = ex.value
                    running.remove((i, g))
    for (i, (n, got)) in enumerate(zip(names, results)):
        want = _ALONE[n]
        check(not want.startswith("ERROR"), "{}: {}", n, want)
        if repr(got) != want:
            raise Violation(f"results of {n!r} ({task['how']} {names[:i] + names[i + 1:]}): {difference(repr(got), want)}")
    ctx.state(names, task["how"])
    ctx.outcome(names[-1], results[-1])


def difference(a, b):
    i = next((i for (i, (x, y)) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"got ...{a[max(0, i - 60):i + 60]}..., alone ...{b[max(0, i - 60):i + 60]}..."


SCENARIOS = {"iterations": iterations, "agents": agents_isolated, "reused": reused, "together": together}


def tasks(tier):
    big = tier == "thorough"
    for how in ("iterations", "runs", "matrix", "envs"):
        for t in ("graph", "digraph", "dict", "none"):
            yield dict(scenario="iterations", how=how, topology=t, k=2 if t == "graph" or big else 1, split=1)
        yield dict(scenario="iterations", how=how, topology="graph", k=1 + big, pr=True, split=1)
    yield dict(scenario="agents", k=4 + big, split=1)
    yield dict(scenario="reused", k=2 + big, split=2)
    prepare()
    for how in ("after", "interleaved"):
        for first in sorted(CONFIGS):
            yield dict(scenario="together", how=how, first=first, k=2 + big)


BOUNDS = {
    "quick": "all the sequences of 2 changes (out of 12) made by each environment, when it starts or from an agent; 3 iterations, runs, "
             "configurations or simultaneous environments; 4 kinds of topology; 4 operations on agents of a class and its subclasses; every pair of 24 configurations, one after the other and step by step, compared with the same one in a process of its own",
    "thorough": "as quick, with sequences of 2 changes for every topology, 5 operations, and every three of the 24 configurations",
}
ASSUMPTIONS = ["values in the parameters (other than the topology and the reporters) that the model modifies in place are shared, as in Python"]
