"""C26: models and agents of mesa work with soil, and the other way around."""
import itertools
import os
import tempfile

import mesa
import networkx as nx
from mesa.datacollection import DataCollector
from mesa.time import BaseScheduler, RandomActivation, RandomActivationByType

from soil import agents, analysis, environment, simulation
from mc.core import ScriptedRandom, Violation, check, same
from mc.world import CUR, INF, SCHEDULERS, close

VANILLA = {"base": BaseScheduler, "random": RandomActivation, "bytype": RandomActivationByType}
ALL = dict(VANILLA, **SCHEDULERS)


class S:
    pass


def delay(uid, k):
    """What the agent uid asks for in its activation number k"""
    table = CUR.st.delays
    return table[(uid + k) % len(table)]


def lives(uid):
    """How many activations the agent has (it dies in the last one)"""
    table = CUR.st.lives
    return table[uid % len(table)]


def activated(agent):
    """Called in each activation. Returns whether it is the last one, and the delay"""
    st = CUR.st
    k = st.counts.get((agent.model, agent.unique_id), 0)
    st.counts[(agent.model, agent.unique_id)] = k + 1
    sch = agent.model.schedule
    agent.n = k + 1
    st.log.append((id(agent.model), sch.steps, float(sch.time), agent.unique_id, agent.random.random() if not st.scripted else None))
    now = getattr(agent, "now", None)
    if isinstance(agent, agents.BaseAgent):
        same(now, sch.time, "time, according to the agent")
        check(agent.alive, "a dead agent was activated")
    check(k < lives(agent.unique_id), "agent {} was activated {} times", agent.unique_id, k + 1)
    return k + 1 == lives(agent.unique_id), delay(agent.unique_id, k)


class Mesa(mesa.Agent):
    """A regular agent of mesa, with the usual constructor"""

    def __init__(self, unique_id, model, wealth=1):
        super().__init__(unique_id, model)
        self.n = 0
        self.wealth = wealth

    def step(self):
        last, d = activated(self)
        if last:
            self.model.schedule.remove(self)
        return d


class MesaKw(Mesa):
    """One that accepts more attributes"""

    def __init__(self, unique_id, model, **kwargs):
        super().__init__(unique_id, model)
        for (k, v) in kwargs.items():
            setattr(self, k, v)


class Silent(Mesa):
    """One whose step returns nothing, as in mesa"""

    def step(self):
        super().step()


class Plain(agents.BaseAgent):
    n = 0

    def step(self):
        last, d = activated(self)
        return self.die() if last else d


class Gen(agents.BaseAgent):
    n = 0

    def step(self):
        while True:
            last, d = activated(self)
            if last:
                self.die()
                return
            yield d


class Async(agents.BaseAgent):
    n = 0

    async def step(self):
        while True:
            last, d = activated(self)
            if last:
                self.die()
                return
            await self.delay(d if d is not None else 1)


class Machine(agents.FSM):
    n = 0
    turn = 0

    @agents.default_state
    @agents.state
    def odd(self):
        self.turn += 1
        last, d = activated(self)
        same(self.turn % 2, 1, "parity in the state odd")
        if last:
            return self.die()
        return self.even if d is None else self.even.delay(d)

    @agents.state
    def even(self):
        self.turn += 1
        last, d = activated(self)
        same(self.turn % 2, 0, "parity in the state even")
        if last:
            return self.die()
        return self.odd if d is None else (self.odd, self.at(self.now + d))


class Evented(agents.EventedAgent):
    n = 0

    def step(self):
        last, d = activated(self)
        return self.die() if last else d


KINDS = {c.__name__: c for c in (Mesa, MesaKw, Silent, Plain, Gen, Async, Machine, Evented)}


# Models

class Model(mesa.Model):
    """A regular model of mesa. The constructors of the subclasses only know about their own parameters"""

    def setup(self, N, stop):
        st = CUR.st
        mesa.Model.__init__(self)
        if st.scripted:
            self.random = ScriptedRandom(CUR.st.ctx.ch, None)
        self.N, self.stop = N, stop
        self.schedule = st.scheduler(self)
        for i in range(N):
            self.schedule.add(st.classes[i % len(st.classes)](i, self))
        st.built.append((self, N, stop))
        if st.collect:
            self.datacollector = DataCollector(model_reporters={"steps": lambda m: m.schedule.steps, "left": lambda m: len(m.schedule.agents)},
                                               **({"agent_reporters": {"n": "n"}} if st.collect == "agents" else {}))

    def step(self):
        st = CUR.st
        if st.collect:
            self.datacollector.collect(self)
        self.schedule.step()
        if self.stop is not None and self.schedule.steps >= self.stop:
            self.running = False


class Strict(Model):
    def __init__(self, N=2, stop=None):
        self.setup(N, stop)


class Required(Model):
    def __init__(self, N, stop):
        self.setup(N, stop)


class Seeded(Model):
    def __init__(self, N=2, stop=None, seed=None):
        self.setup(N, stop)
        self.given = seed


class Named(Model):
    def __init__(self, id, N=2, stop=None, *, logger=None):
        self.setup(N, stop)
        self.id = id
        self.logger = logger


class Kwargs(Model):
    def __init__(self, N=2, stop=None, **kwargs):
        self.setup(N, stop)
        self.kwargs = kwargs


class Args(Model):
    def __init__(self, *args, N=2, stop=None):
        same(args, (), "positional arguments of the model")
        self.setup(N, stop)


MODELS = {c.__name__: c for c in (Strict, Required, Seeded, Named, Kwargs, Args)}


def reference(task, classes, n, limit, stop, max_time=None):
    """What the model does: list of (step, time, agents activated), and the state at the end"""
    soil = task["sched"] in SCHEDULERS
    ids = list(range(n)) if isinstance(n, int) else list(n)
    counts = dict.fromkeys(ids, 0)
    alive = list(ids)
    wake = dict.fromkeys(ids, 0)
    out = []
    steps, time, running = 0, 0, True
    while True:
        if not running or (limit is not None and steps >= limit) or (max_time is not None and time >= max_time):
            return out, steps, time, sorted(alive), counts, running
        if soil:
            if time == INF:
                return out, steps, time, sorted(alive), counts, False
            now = [u for u in alive if close(wake[u], time)]
        else:
            now = list(alive)
        out.append((steps, time, sorted(now)))
        for u in now:
            d = delay(u, counts[u])
            kind = classes[u] if isinstance(classes, dict) else classes[u % len(classes)]
            if kind == "Silent" or d is None:
                d = 1
            counts[u] += 1
            wake[u] = time + d
            if counts[u] == lives(u):
                alive.remove(u)
        steps += 1
        if soil:
            time = min((wake[u] for u in alive), default=INF)
            if time == INF:
                running = False
        else:
            time += 1
        if stop is not None and steps >= stop:
            running = False


def compare(st, model, want, what):
    """The activations of a model are the ones expected"""
    out, steps, time, alive, counts, running = want
    mine = [e for e in st.log if e[0] == id(model)]
    got = []
    for (key, group) in itertools.groupby(mine, key=lambda e: (e[1], e[2])):
        group = list(group)
        uids = [e[3] for e in group]
        check(len(set(uids)) == len(uids), "{}: agents activated twice in a step: {}", what, uids)
        if st.task["sched"] == "base":
            same(uids, sorted(uids), f"{what}: order of activation")
        got.append((key[0], key[1], sorted(uids)))
    # A step without agents leaves no trace
    expected = [o for o in out if o[2]]
    same([(g[0], g[2]) for g in got], [(e[0], e[2]) for e in expected], f"{what}: agents activated in each step")
    check(all(close(g[1], e[1]) for (g, e) in zip(got, expected)), "{}: times of the steps: {}, expected {}", what, got, expected)
    same(model.schedule.steps, steps, f"{what}: number of steps")
    check(close(model.schedule.time, time), "{}: final time {}, expected {}", what, model.schedule.time, time)
    same(sorted(a.unique_id for a in model.schedule.agents), alive, f"{what}: agents left")
    same({u: st.counts.get((model, u), 0) for u in counts}, counts, f"{what}: activations of each agent")
    same(model.running, running, f"{what}: running")
    for a in model.schedule.agents:
        same(a.n, counts[a.unique_id], f"{what}: attribute of the agent {a.unique_id}")


def begin(ctx, scripted=False):
    st = CUR.st = S()
    st.ctx, st.task = ctx, ctx.task
    st.scripted = scripted
    st.counts, st.log, st.built = {}, [], []
    st.scheduler = ALL[ctx.task["sched"]]
    st.classes = [KINDS.get(k) for k in ctx.task["kinds"]]
    st.collect = None
    return st


def by_hand(ctx):
    """The schedulers and agents of soil in a regular model, step by step"""
    task = ctx.task
    st = begin(ctx, scripted=task.get("scripted", False))
    st.delays = ctx.pick(task["delays"])
    st.lives = ctx.pick(task["lives"])
    n = ctx.pick(task["n"])
    stop = ctx.pick([None, 2])
    limit = task["steps"]
    ctx.note(f"{n} agents {task['kinds']} with {task['sched']}: delays {st.delays}, lives {st.lives}, stop {stop}")
    m = Strict(n, stop)
    for i in range(limit):
        if not m.running:
            break
        m.step()
        ctx.step()
    compare(st, m, reference(task, task["kinds"], n, limit, stop), "by hand")
    ctx.state(sorted(st.counts.values()), m.schedule.time)
    ctx.outcome([e[1:4] for e in st.log])


def simulated(ctx):
    """A regular model, in a simulation"""
    task = ctx.task
    st = begin(ctx)
    st.delays = ctx.pick(task["delays"])
    st.lives = ctx.pick(task["lives"])
    n, stop = ctx.pick(task["n"]), ctx.pick([None, 2])
    max_steps, max_time = ctx.pick([(0, None), (1, None), (3, None), (None, 2), (5, 3), (2, 5)])
    iterations = ctx.pick([1, 2])
    how = ctx.pick(["parameters", "matrix"])
    cls = MODELS[task["model"]]
    if how == "parameters":
        given = dict(parameters={"N": n, "stop": stop})
        configs = [(n, stop)]
    else:
        given = dict(matrix={"N": [n, n + 1], "stop": [stop]})
        configs = [(n, stop), (n + 1, stop)]
    ctx.note(f"{cls.__name__} with {given}, {iterations} iterations, {task['kinds']} with {task['sched']}, max_steps {max_steps}, max_time {max_time}, "
             f"delays {st.delays}, lives {st.lives}")
    logs = []
    for seed in ("one", "one", "two"):
        st.counts, st.log, st.built = {}, [], []
        sim = simulation.Simulation(name="mesa", model=cls, seed=seed, iterations=iterations, max_steps=max_steps, max_time=max_time, dump=False, exporters=[],
                                    **given)
        res = sim.run()
        ctx.step(len(res))
        want = [c for c in configs for _ in range(iterations)]
        same([b[1:] for b in st.built], want, "parameters of the models")
        same(len(res), len(want), "number of results")
        for (i, (r, b)) in enumerate(zip(res, st.built)):
            check(r is b[0], "result {} is not the model that was run", i)
            check(type(r) is cls, "the result {} is a {}", i, type(r))
            compare(st, r, reference(task, task["kinds"], b[1], max_steps, b[2], max_time), f"model {i}")
        if task["model"] == "Named":
            same([r.id for r in res], [str(i) for _ in configs for i in range(iterations)], "identifiers given to the models")
        ids = {id(b[0]): i for (i, b) in enumerate(st.built)}
        logs.append([(ids[e[0]],) + e[1:] for e in st.log])
    same(logs[1], logs[0], "random numbers of another run with the same seed")
    if logs[0]:
        check([e[-1] for e in logs[0]] != [e[-1] for e in logs[2]], "the same random numbers with another seed")
        draws = [[e[-1] for e in logs[0] if e[0] == i] for i in range(iterations)]
        check(iterations < 2 or draws[0] != draws[1], "the same random numbers in two iterations")
    ctx.state(configs, iterations, [e[1:4] for e in logs[0]])
    ctx.outcome(len(logs[0]))


def unknown(ctx):
    """A parameter that the model does not have is not ignored"""
    st = begin(ctx)
    st.delays, st.lives = [None, 2], [2, 3]
    cls = MODELS[ctx.task["model"]]
    given = ctx.pick([{"N": 1, "stop": None, "M": 3}, {"N": 1, "stop": None, "n": 1}])
    how = ctx.pick(["parameters", "matrix"])
    ctx.note(cls.__name__, how, given)
    ctx.step()
    args = dict(parameters=given) if how == "parameters" else dict(matrix={k: [v] for (k, v) in given.items()})
    try:
        (res,) = simulation.Simulation(name="mesa", model=cls, max_steps=1, dump=False, exporters=[], **args).run()
    except TypeError:
        check(cls is not Kwargs, "the parameters were rejected")
    else:
        check(cls is Kwargs, "the parameters {} are not those of {}, and they were ignored", given, cls.__name__)
        (name,) = set(given) - {"N", "stop"}
        same(res.kwargs.get(name), given[name], f"value of {name}")
    ctx.state(given, how)
    ctx.outcome(cls is Kwargs)


def exported(ctx):
    """The data of a regular model is exported"""
    task = ctx.task
    st = begin(ctx)
    st.delays, st.lives = [None, 2], [2, 3]
    st.collect = ctx.pick([None, "model", "agents"])
    n = ctx.pick([1, 2])
    iterations = ctx.pick([1, 2])
    exporters = ctx.pick([["default"], ["SQLite"], ["default", "csv"], ["csv", "summary"]])
    cls = MODELS[task["model"]]
    ctx.note(f"{cls.__name__}({n}), {iterations} iterations, collecting {st.collect}, exported with {exporters}")
    out = tempfile.mkdtemp(dir=ctx.scratch)
    sim = simulation.Simulation(name="exp", model=cls, iterations=iterations, max_steps=3, dump=True, outdir=out, overwrite=True, exporters=exporters,
                                parameters={"N": n, "stop": None})
    res = sim.run()
    ctx.step(len(res))
    same(len(res), iterations, "number of results")
    for (i, r) in enumerate(res):
        compare(st, r, reference(task, task["kinds"], n, 3, None), f"model {i}")
    model = {}
    agent = {}
    for (i, r) in enumerate(res):
        if st.collect:
            for (k, (s, l)) in enumerate(zip(r.datacollector.model_vars["steps"], r.datacollector.model_vars["left"])):
                model[(str(i), k)] = (s, l)
            if st.collect == "agents":
                for recs in r.datacollector._agent_records.values():
                    for (s, u, v) in recs:
                        agent[(str(i), s, u)] = v
    base = os.path.join(out, "exp")
    if "csv" in exporters:
        import csv
        for i in range(iterations):
            path = os.path.join(base, f"{i}.env.csv")
            if not st.collect:
                check(not os.path.exists(path), "there are data of a model that has none")
                continue
            with open(path) as f:
                rows = [r for r in csv.DictReader(f)]
            same([(int(r["step"]), int(r["steps"]), int(r["left"])) for r in rows],
                 [(k[1],) + v for (k, v) in sorted(model.items()) if k[0] == str(i)], f"rows of the iteration {i}, in the CSV file")
    if "default" in exporters or "SQLite" in exporters:
        import sqlite3
        db = sqlite3.connect(os.path.join(base, "exp.sqlite"))
        tables = {r[0] for r in db.execute("select name from sqlite_master where type='table'")}
        same([r[0] for r in db.execute("select count(*) from configuration")], [1], "simulations in the database")
        same(sorted(db.execute("select iteration_id, key, value from parameters")),
             sorted([(str(i), k, v) for i in range(iterations) for (k, v) in (("N", str(n)), ("stop", db.execute("select value from parameters where key='stop'").fetchone()[0]))]),
             "parameters in the database")
        if st.collect:
            same({(r[0], r[1]): (r[2], r[3]) for r in db.execute("select iteration_id, step, steps, left from env")}, model, "data of the models, in the database")
        else:
            check("env" not in tables, "there are data of models that have none")
        if st.collect == "agents":
            same({(r[0], r[1], r[2]): r[3] for r in db.execute("select iteration_id, step, agent_id, n from agents")}, agent, "data of the agents, in the database")
            dfs = analysis.read_sql(os.path.join(base, "exp.sqlite"))
            same(len(dfs.env), len(model), "rows of the models, read back")
            same(len(dfs.agents), len(agent), "rows of the agents, read back")
        db.close()
    ctx.state(st.collect, n, iterations, exporters)
    ctx.outcome(sorted(model.items()))


# Mesa agents in the environments of soil

class Neighbor(agents.NetworkAgent):
    """An agent of soil that looks at its neighbors, whatever they are"""
    n = 0

    def step(self):
        last, d = activated(self)
        G = self.model.G
        want = [G.nodes[k]["agent"] for k in G.neighbors(self.node_id) if G.nodes[k].get("agent") is not None]
        live = [a for a in want if any(a is b for b in self.model.schedule.agents)]
        same(sorted(a.unique_id for a in self.get_neighbors()), sorted(a.unique_id for a in live), f"neighbors of {self.unique_id}")
        same(self.count_neighbors(agent_class=mesa.Agent), len(live), f"neighbors of {self.unique_id} that are agents")
        same(self.count_neighbors(agent_class=Mesa), sum(isinstance(a, Mesa) for a in live), f"neighbors of {self.unique_id} that are regular agents")
        same(sorted(a.unique_id for a in self.get_neighbors(n=1)), sorted(a.unique_id for a in live if a.n == 1), f"neighbors of {self.unique_id} with n=1")
        return self.die() if last else d


class World(environment.Environment):
    pass


GRAPHS = {"path": nx.path_graph(3), "star": nx.star_graph(2), "two": nx.empty_graph(2)}


def mixed(ctx):
    """Regular agents in an environment, possibly among agents of soil"""
    task = ctx.task
    st = begin(ctx)
    st.delays, st.lives = ctx.pick(task["delays"]), ctx.pick(task["lives"])
    kinds = [dict(KINDS, Neighbor=Neighbor)[k] for k in task["kinds"]]
    how = task["how"]
    gname = ctx.pick(sorted(GRAPHS))
    G = GRAPHS[gname].copy()
    name = ctx.pick(["Mesa", "MesaKw"]) if "Mesa" in task["kinds"] else None
    cls = [KINDS[name] if k is Mesa else k for k in kinds]
    ctx.note(f"{[c.__name__ for c in cls]} in {gname} with {how}, delays {st.delays}, lives {st.lives}")
    sched = SCHEDULERS[task["sched"]]
    kw = dict(schedule_class=sched, model_reporters={"left": lambda m: len(m.schedule.agents)}, agent_reporters={"n": "n"})
    extra = ctx.pick([{}, {"wealth": 3}]) if how != "agent_class" else {}
    if how == "agent_class":
        env = World(topology=G, agent_class=cls[0], **kw)
    elif how == "populate":
        env = World(topology=G, **kw)
        env.populate_network(cls, **extra)
    elif how == "populate-none":
        env = World(**kw)
        env.create_network(G)
        env.populate_network(cls, **extra)
    elif how == "add_node":
        env = World(topology=G, **kw)
        for i in range(len(GRAPHS[gname]) + 1):
            env.add_node(cls[i % len(cls)], **extra)
        same(len(env.G), len(GRAPHS[gname]) + 1, "number of nodes")
    elif how == "node_id":
        env = World(topology=G, **kw)
        for (i, k) in enumerate(sorted(G)):
            env.add_node(cls[i % len(cls)], node_id=k, **extra)
    elif how == "add_agent":
        env = World(**kw)
        for c in cls:
            env.add_agent(c, **extra)
    elif how == "add_agents":
        env = World(**kw)
        env.add_agents(cls, k=3, **extra)
    elif how == "agents":
        env = World(agents=dict(agent_classes=cls, k=3, **extra), **kw)
    made = list(env.schedule.agents)
    network = how not in ("add_agent", "add_agents", "agents")
    check(len({a.unique_id for a in made}) == len(made), "identifiers: {}", sorted(a.unique_id for a in made))
    for a in made:
        same(getattr(a, "wealth", "nothing"), extra.get("wealth", 1 if isinstance(a, Mesa) else "nothing"), f"attribute given to the agent {a.unique_id}")
    check(all(type(a) in cls for a in made), "types of the agents: {}", made)
    if network:
        same(len(made), len(env.G), "number of agents")
        where = {k: env.agent_for_node_id(k) for k in env.G}
        same(sorted(a.unique_id for a in where.values()), sorted(a.unique_id for a in made), "agents in the nodes")
        for (k, a) in where.items():
            check(a in made, "the agent in {} is not in the schedule", k)
            if type(a) not in (Mesa, Silent):
                same(a.node_id, k, f"node of the agent {a.unique_id}")
        same(sorted(a.unique_id for a in env.network_agents), sorted(a.unique_id for a in made), "agents in the network")
    task2 = dict(task, sched=task["sched"])
    for i in range(task["steps"]):
        if not env.running:
            break
        env.step()
        ctx.step()
        left = list(env.schedule.agents)
        same(sorted(a.unique_id for a in env), sorted(a.unique_id for a in left), "agents of the environment")
        same(env.count_agents(agent_class=mesa.Agent), len(left), "agents")
        same(env.count_agents(agent_class=Mesa), sum(isinstance(a, Mesa) for a in left), "regular agents")
        same(sorted(a.unique_id for a in env.get_agents(n=1)), sorted(a.unique_id for a in left if a.n == 1), "agents with n=1")
        for a in left:
            check(env.agent(unique_id=a.unique_id) is a, "agent {}, by its identifier", a.unique_id)
    order = {a.unique_id: type(a).__name__ for a in made}
    want = reference(task2, order, sorted(order), task["steps"], None)
    compare(st, env, want, "environment")
    # Data
    df = env.agent_df(steps=True)
    got = {(int(s), int(u)): v for ((s, u), v) in df["n"].items()}
    out = want[0]
    counts = dict.fromkeys(order, 0)
    alive = set(counts)
    expected = {}
    first = 0 if how in ("agent_class", "agents") else 1
    for s in range(env.schedule.steps + 1):
        if s >= first:
            expected.update({(s, u): counts[u] for u in alive})
        if s < len(out):
            for u in out[s][2]:
                counts[u] += 1
                if counts[u] == lives(u):
                    alive.discard(u)
    same(got, expected, "data of the agents")
    ctx.state(order, st.delays, st.lives)
    ctx.outcome([e[1:4] for e in st.log])


class Batched(environment.Environment):
    k = 1
    extra = 0

    def init(self):
        self.add_agents(Plain, k=self.k)
        self.add_agent_reporter("n")
        self.add_model_reporter("extra")


def batch(ctx):
    """An environment, with the batch runner of mesa"""
    task = ctx.task
    st = begin(ctx)
    st.delays, st.lives = ctx.pick(task["delays"]), ctx.pick(task["lives"])
    ks = ctx.pick([[1], [2, 1]])
    extra = ctx.pick([[0], [4, 5]])
    iterations = ctx.pick([1, 2])
    steps = ctx.pick([1, 2, 3])
    ctx.note(f"k {ks}, extra {extra}, {iterations} iterations of {steps} steps, delays {st.delays}, lives {st.lives}")
    rows = mesa.batch_run(Batched, {"k": ks, "extra": extra}, iterations=iterations, max_steps=steps, number_processes=1, data_collection_period=1, display_progress=False)
    ctx.step(len(rows))
    got = sorted((r["k"], r["extra"], r["iteration"], r["Step"], r.get("AgentID"), r.get("n"), r["agent_count"], float(r["time"])) for r in rows)
    want = []
    for (k, e, i) in itertools.product(ks, extra, range(iterations)):
        # The runner takes one more step than asked, and does not use the data after the last one
        out, done, time, alive, counts, running = reference(dict(task), ["Plain"], k, steps + 1, None)
        counts = dict.fromkeys(range(k), 0)
        left = set(counts)
        for (s, now, who) in out:
            if left:
                want += [(k, e, i, s, u, counts[u], len(left), float(now)) for u in left]
            else:
                want.append((k, e, i, s, None, None, 0, float(now)))
            for u in who:
                counts[u] += 1
                if counts[u] == lives(u):
                    left.discard(u)
    same(got, sorted(want), "rows of the batch")
    ctx.state(ks, extra, iterations, steps, st.delays, st.lives)
    ctx.outcome(got)


SOURCE = """
import mesa
from mesa.time import {sched} as Scheduler
from soil import Simulation


class Walker(mesa.Agent):
    n = 0

    def step(self):
        self.n += 1


class Regular(mesa.Model):
    def __init__(self, N=2):
        super().__init__()
        self.N = N
        self.schedule = Scheduler(self)
        for i in range(N):
            self.schedule.add(Walker(i, self))

    def step(self):
        self.schedule.step()
"""


def files(ctx):
    """Regular models in the files of the simulations"""
    sched = ctx.pick(["BaseScheduler", "RandomActivation"])
    how = ctx.pick(["python", "yaml"])
    n, iterations, steps = ctx.pick([1, 3]), ctx.pick([1, 2]), ctx.pick([0, 2])
    ctx.note(f"{n} agents with {sched}, {iterations} iterations of {steps} steps, from {how}")
    folder = tempfile.mkdtemp(dir=ctx.scratch)
    path = os.path.join(folder, "regular_model.py")
    config = f"name='regular', model=Regular, parameters=dict(N={n}), iterations={iterations}, max_steps={steps}, dump=False, exporters=[]"
    with open(path, "w") as f:
        f.write(SOURCE.format(sched=sched))
        if how != "yaml":
            f.write(f"\n\nsim = Simulation({config})\n")
    if how == "yaml":
        source, path = path, os.path.join(folder, "regular.yml")
        with open(path, "w") as f:
            f.write(f"name: regular\nmodel: regular_model.Regular\nsource_file: {source}\nparameters:\n  N: {n}\niterations: {iterations}\nmax_steps: {steps}\ndump: false\nexporters: []\n")
    ctx.step()
    sims = list(simulation.iter_from_file(path))
    same(len(sims), 1, "simulations in the file")
    res = sims[0].run()
    same(len(res), iterations, "number of results")
    for r in res:
        same((type(r).__name__, r.N, r.schedule.steps), ("Regular", n, steps), "model, agents and steps")
        same([a.n for a in r.schedule.agents], [steps] * n, "activations")
    ctx.state(sched, how, n, iterations, steps)
    ctx.outcome(how)


SCENARIOS = {"files": files, "by_hand": by_hand, "simulated": simulated, "unknown": unknown, "exported": exported, "mixed": mixed, "batch": batch}


def tasks(tier):
    big = tier == "thorough"
    delays = [[None], [1, 2], [None, 2.5, 1], [3, 0.5]]
    few = [[None], [1, 2]]
    lifes = [[9999], [1, 3], [2, 9999]]
    soil_kinds = ["Plain", "Gen", "Async", "Machine", "Evented"]
    for sched in ALL:
        for kinds in [["Mesa"], ["MesaKw"], ["Silent"]] + [[k] for k in soil_kinds] + [["Mesa", "Gen"], ["Silent", "Machine"], ["Plain", "Async", "Silent"]]:
            yield dict(scenario="by_hand", sched=sched, kinds=kinds, delays=delays, lives=lifes, n=[1, 2, 3] + ([4] if big else []), steps=8 if big else 5)
    for sched in ("random", "timed", "pq", "shuffled"):
        for kinds in (["Mesa", "Gen"], ["Silent", "Machine"]):
            yield dict(scenario="by_hand", sched=sched, kinds=kinds, delays=few, lives=[[9999], [1, 2]], n=[2] + ([3] if big and sched != "pq" else []), steps=2, scripted=True)
    for model in MODELS:
        for sched in ("base", "random", "timed", "pq-ordered") if not big else ALL:
            for kinds in (["Mesa"], ["Silent", "Gen"], ["Machine"]) if not big else [[k] for k in KINDS] + [["Silent", "Gen"]]:
                yield dict(scenario="simulated", model=model, sched=sched, kinds=kinds, delays=few if not big else delays, lives=[[9999], [1, 3]], n=[1, 2])
        yield dict(scenario="unknown", model=model, sched="base", kinds=["Mesa"])
        for kinds in (["Mesa"], ["Plain", "Silent"]):
            yield dict(scenario="exported", model=model, sched="base" if model != "Args" else "timed", kinds=kinds)
    yield dict(scenario="files")
    for how in ("agent_class", "populate", "populate-none", "add_node", "node_id", "add_agent", "add_agents", "agents"):
        for kinds in (["Mesa"], ["Silent"], ["Mesa", "Neighbor"], ["Neighbor", "Mesa"]):
            if kinds[-1] != kinds[0] and how == "agent_class" or kinds == ["Silent"] and how in ("add_node",):
                continue
            if "Neighbor" in kinds and how in ("add_agent", "add_agents", "agents"):
                kinds = [k if k != "Neighbor" else "Gen" for k in kinds]
            for sched in ("timed", "pq-ordered") if not big else SCHEDULERS:
                yield dict(scenario="mixed", how=how, kinds=kinds, sched=sched, delays=few, lives=lifes, steps=4)
    for sched in ("timed",):
        yield dict(scenario="batch", sched=sched, kinds=["Plain"], delays=delays, lives=lifes)


BOUNDS = {
    "quick": "8 kinds of agents, 1-3 of each, with 3 schedulers of mesa and 5 of soil, 4 tables of delays and 3 of lifetimes, 5 steps; 6 kinds of constructors of models; "
             "8 ways to add the agents to an environment; all the answers of the random generator with 2 agents and 2 steps",
    "thorough": "as quick, with 4 agents, 8 steps, and every kind of agent and scheduler in the simulations",
}
ASSUMPTIONS = ["the model has a schedule with agents when it is created, as mesa requires",
               "the schedulers of mesa ignore what the agents ask for: they are activated once in each step"]
