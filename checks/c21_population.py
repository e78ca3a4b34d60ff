"""C21: the population that was asked for."""
import networkx as nx
from soil import agents, environment
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import scripted, CUR, INF, SCHEDULERS


class Red(agents.BaseAgent):
    tag = "default"

    def step(self):
        CUR.acts.append(self)
        return INF


class Blue(agents.BaseAgent):
    tag = "blue"

    def step(self):
        CUR.acts.append(self)
        return INF


class Green(Blue):
    tag = "green"


class NetRed(agents.NetworkAgent):
    tag = "default"

    def step(self):
        CUR.acts.append(self)
        return INF


class NetBlue(agents.FSM, agents.NetworkAgent):
    tag = "blue"

    @agents.default_state
    @agents.state
    def idle(self):
        CUR.acts.append(self)
        return INF


PLAIN = [Red, Blue]
NET = [NetRed, NetBlue]
GRAPHS = {
    "empty": lambda: nx.Graph(), "one": lambda: nx.path_graph(1), "path": lambda: nx.path_graph(3), "named": lambda: nx.Graph([("a", "b"), ("b", 7)]),
    "directed": lambda: nx.DiGraph([(0, 1), (2, 1)]), "loops": lambda: nx.Graph([(0, 0), (1, 2)]), "isolated": lambda: nx.empty_graph(4),
    "weird": lambda: nx.Graph([(1, 5), (0, 3)]), "attributes": lambda: attributed(),
}


def attributed():
    G = nx.path_graph(3)
    nx.set_node_attributes(G, {0: {"color": "red"}, 2: {"color": "blue", "agents": 1}})
    return G


class World(environment.Environment):
    def __init__(self, *args, **kwargs):
        self.random.rotate = True
        super().__init__(*args, **kwargs)


def audit(env, want, what):
    """The agents of the environment, in general: they are scheduled, and have different identifiers"""
    found = list(env.get_agents())
    same(len(found), want, f"{what}: agents")
    same(env.count_agents(), want, f"{what}: count of agents")
    ids = [a.unique_id for a in found]
    same(len(set(ids)), want, f"{what}: different identifiers")
    same(sorted(a.unique_id for a in env.schedule.agents), sorted(ids), f"{what}: agents scheduled")
    for a in found:
        check(a.model is env and a.alive, "{}: {} is not alive in the environment", what, a)
        check(env.get_agents[a.unique_id] is a and env.agent(a.unique_id) is a, "{}: {} cannot be found", what, a)
    return found


def placed(env, found, what):
    """Each network agent is in a node of its own"""
    nodes = []
    for a in found:
        if isinstance(a, agents.NetworkAgent):
            check(a.node_id in env.G, "{}: the node of {} is not in the network", what, a)
            check(env.G.nodes[a.node_id]["agent"] is a, "{}: the node {} does not have its agent", what, a.node_id)
            check(env.agent_for_node_id(a.node_id) is a, "{}: agent of the node {}", what, a.node_id)
            nodes.append(a.node_id)
    same(len(set(nodes)), len(nodes), f"{what}: different nodes")
    same(sorted(a.unique_id for a in env.network_agents), sorted(a.unique_id for a in found if getattr(a, "node_id", None) is not None), f"{what}: network_agents")


def activate(env, found, what):
    """All of them are activated, once"""
    CUR.acts = []
    env.step()
    same(sorted(a.unique_id for a in CUR.acts), sorted(a.unique_id for a in found), f"{what}: agents activated in the first step")


def several(ctx):
    """add_agents, any number of times"""
    task = ctx.task
    CUR.values = (0.0, 0.5, 0.999999) if task["times"] == 1 else (0.0, 0.999999)
    env = scripted(World, ctx, uniform=CUR.values)(topology=GRAPHS[task["graph"]]())
    total = []
    kinds = PLAIN if task["plain"] else NET
    for n in range(task["times"]):
        classes = ctx.pick([[kinds[0]], [kinds[1], kinds[0]], kinds[0]] + ([[kinds[0], kinds[0], kinds[1]]] if task["times"] == 1 else []))
        size = len(classes) if isinstance(classes, list) else 1
        k = ctx.pick(task["ks"])
        weights = None
        if size > 1:
            weights = ctx.pick([None, [0, 1, 0][:size], [1, 0, 2][:size], [0.1, 0.9, 0.0][:size]])
        kw = ctx.pick([{}, {"tag": "given", "extra": 3}])
        ctx.note(f"add_agents({classes}, k={k}, weights={weights}, {kw})")
        ctx.step()
        before = list(env.get_agents())
        size0 = len(env.G)
        args = dict(weights=weights) if weights is not None else {}
        if k is not None:
            args["k"] = k
        try:
            env.add_agents(classes, **args, **kw)
        except ValueError:
            check(k is None and not size0, "add_agents failed with {} nodes, k={}", size0, k)
            same([a.unique_id for a in env.get_agents()], [a.unique_id for a in before], "agents after a failure")
            continue
        check(not (k is None and not size0), "the size of the population is not known, but no error was raised")
        want = size0 if k is None else k
        found = audit(env, len(before) + want, "add_agents")
        new = [a for a in found if not any(a is b for b in before)]
        same([a for a in found if any(a is b for b in before)], before, "previous agents")
        lst = classes if isinstance(classes, list) else [classes]
        allowed = {c for (c, w) in zip(lst, weights or [1] * len(lst)) if w > 0}
        for a in new:
            check(type(a) in allowed, "{} was added, but only {} were asked for", type(a).__name__, [c.__name__ for c in allowed])
            same((a.tag, getattr(a, "extra", None)), ("given", 3) if kw else ("blue" if type(a) is kinds[1] else "default", None), "attributes")
        placed(env, found, "add_agents")
        total = found
        ctx.state(len(found), [type(a).__name__ for a in new], weights)
    activate(env, audit(env, len(list(env.get_agents())), "end"), "end")
    ctx.outcome(len(total))


def populate(ctx):
    """Every node has an agent, and the agents that were there stay"""
    task = ctx.task
    env = scripted(World, ctx, uniform=(0.0, 0.999999))(topology=GRAPHS[task["graph"]]())
    nodes = list(env.G.nodes)
    prev = {}
    for n in nodes[:2]:
        if ctx.choose(2):
            prev[n] = env.add_agent(NetBlue, node_id=n, tag="previous")
    if ctx.choose(2):
        env.add_agent(Red)  # Not in the network
    before = list(env.get_agents())
    classes = ctx.pick([NetRed, "CounterModel", [NetRed], [NetRed, NetBlue], [NetBlue, "CounterModel"]])
    weights = ctx.pick([None, [0, 1], [3, 0]]) if isinstance(classes, list) and len(classes) == 2 else None
    kw = ctx.pick([{}, {"tag": "given"}])
    ctx.note("populate_network", classes, weights, kw, "previous", list(prev))
    ctx.step()
    env.populate_network(classes, **(dict(weights=weights) if weights else {}), **kw)
    found = audit(env, len(before) + len(nodes) - len(prev), "populate_network")
    same(list(env.G.nodes), nodes, "nodes")
    lst = classes if isinstance(classes, list) else [classes]
    lst = [agents.CounterModel if c == "CounterModel" else c for c in lst]
    allowed = {c for (c, w) in zip(lst, weights or [1] * len(lst)) if w > 0}
    for n in nodes:
        a = env.G.nodes[n].get("agent")
        check(a is not None and a.node_id == n, "the node {} has the agent {}", n, a)
        if n in prev:
            check(a is prev[n] and a.tag == "previous", "the agent of the node {} was replaced", n)
        else:
            check(type(a) in allowed, "{} was added, but only {} were asked for", type(a).__name__, [c.__name__ for c in allowed])
            if kw:
                same(a.tag, "given", "attributes")
    placed(env, found, "populate_network")
    # Nothing to do the second time
    env.random._uniform = (0.0,)
    env.populate_network(classes, **kw)
    same([a.unique_id for a in env.get_agents()], [a.unique_id for a in found], "agents after populating the network again")
    activate(env, [a for a in found if not isinstance(a, agents.CounterModel)], "populated network")
    ctx.state(task["graph"], [type(env.G.nodes[n]["agent"]).__name__ for n in nodes])
    ctx.outcome(len(found))


def constructor(ctx):
    """The population that is given when the environment is created"""
    task = ctx.task
    graph = GRAPHS[task["graph"]]()
    n = len(graph)
    kw = {}
    want = 0
    cls = ctx.pick([None, NetRed, [NetRed, NetBlue], "CounterModel"])
    if cls is not None:
        if not n:
            raise Prune()
        kw["agent_class"] = cls
        want += n
    plain = ctx.choose(4)
    marked = None
    if plain:
        k = [0, 1, 2, 3][plain]
        kw["agents"] = dict(agent_classes=[Red, Blue] if ctx.choose(2) else Red, k=k)
        want += k
        if cls is None and n and ctx.choose(2):
            marked = list(graph.nodes)[n - 1]
            graph.nodes[marked]["agent_id"] = 0
    sched = ctx.pick(["timed", "pq-ordered"])
    ctx.note(sorted(kw), cls, "marked", marked)
    ctx.step()
    env = scripted(World, ctx, uniform=(0.0, 0.999999))(topology=graph, schedule_class=SCHEDULERS[sched], **kw)
    found = audit(env, want, "environment")
    if cls is not None:
        for x in env.G.nodes:
            check(env.G.nodes[x]["agent"].node_id == x, "the node {} does not have its agent", x)
    if marked is not None:
        a = env.G.nodes[marked].get("agent")
        check(a is env.agent(0) and a.node_id == marked, "the node {} has the agent {}, it should have the agent 0", marked, a)
    placed(env, found, "environment")
    same([str(x) for x in env.G.nodes], [str(x) for x in graph.nodes], "nodes")
    check(not any("agent" in d for (_, d) in graph.nodes(data=True)), "the original graph was modified")
    ctx.state(task["graph"], want, marked)
    ctx.outcome(want)


def single(ctx):
    """add_agent and add_node, in any order, with and without identifiers"""
    task = ctx.task
    env = scripted(World, ctx, uniform=(0.0,))(topology=GRAPHS[task["graph"]]())
    ref = []
    used = set()
    for n in range(task["len"]):
        op = ctx.pick(["plain", "free", "topology", "at", "node", "node_at", "node_new", "die", "step"])
        ctx.note(op)
        ctx.step()
        free = [x for x in env.G.nodes if "agent" not in env.G.nodes[x]]
        before = list(env.G.nodes)
        if op in ("at", "node_at"):
            if not free:
                raise Prune()
            where = free[-1]
        if op == "plain":
            a = env.add_agent(Red, tag=n)
        elif op == "free":
            a = env.add_agent(NetRed, tag=n)
            check(a.node_id in free if free else a.node_id not in before, "it was placed in {}, free: {}", a.node_id, free)
        elif op == "topology":
            a = env.add_agent(NetRed, topology=env.G, tag=n)
            check(a.node_id in free if free else a.node_id not in before, "it was placed in {}, free: {}", a.node_id, free)
        elif op == "at":
            a = env.add_agent(NetBlue, node_id=where, tag=n)
            same(a.node_id, where, "node")
        elif op == "node":
            a = env.add_node(NetRed, tag=n)
            check(a.node_id in free if free else a.node_id not in before, "it was placed in {}, free: {}", a.node_id, free)
        elif op == "node_at":
            a = env.add_node(NetBlue, node_id=where, tag=n)
            same(a.node_id, where, "node")
        elif op == "node_new":
            a = env.add_node(NetRed, node_id=f"new{n}", tag=n)
            same(a.node_id, f"new{n}", "node")
        elif op == "die":
            if not ref:
                raise Prune()
            a = ref.pop(ctx.choose(len(ref)))
            a.die()
            a = None
        else:
            env.step()
            a = None
        if a is not None:
            same(a.tag, n, "attribute")
            check(a.unique_id not in used, "the identifier {} was already used", a.unique_id)
            used.add(a.unique_id)
            ref.append(a)
        if op in ("plain", "at", "node_at", "step"):
            same(list(env.G.nodes), before, "nodes")
        found = audit(env, len(ref), op)
        same([id(x) for x in found], [id(x) for x in ref], "agents")
        placed(env, found, op)
        ctx.state(op, len(ref), len(env.G))
    ctx.outcome(len(ref), len(env.G))


WEIGHTS = [[1, 3], [0.05, 0.95], [0.001, 0.003], [10, 30, 0], [0.25, 0.5, 0.25], [1e-6, 1e-6], [5, 0, 15], [2, 2], [19, 1], [1, 1, 8], [1e6, 3e6], [0, 0, 7]]


def chances(ctx):
    """The chances of each class are proportional to its weight, for every size of the weights"""
    task = ctx.task
    parts = 20
    weights = ctx.pick(WEIGHTS)
    classes = ([NetRed, NetBlue, agents.CounterModel] if task["how"] == "populate" else [Red, Blue, Green])[:len(weights)]
    found = {c: 0 for c in classes}
    for i in range(parts + 2):
        ctx.step()
        env = scripted(World, ctx, uniform=(0.0,))(topology=nx.path_graph(1))
        env.random._uniform = ((2 * i + 1) / (2 * parts),) if i < parts else ((0.0,), (1 - 2 ** -53,))[i - parts]
        if task["how"] == "populate":
            env.populate_network(classes, weights=weights)
        else:
            env.add_agents(classes, k=1, weights=weights)
        (a,) = env.get_agents()
        check(weights[classes.index(type(a))] > 0, "{} was added, with a weight of 0", type(a).__name__)
        if i < parts:
            found[type(a)] += 1
    ctx.note(weights, found)
    total = sum(weights)
    for (c, w) in zip(classes, weights):
        check(abs(found[c] - parts * w / total) < 1e-6, "chances of {} with the weights {}: {}, expected {}", c.__name__, weights, found[c] / parts, w / total)
    ctx.state(weights)
    ctx.outcome(weights)


def repeated(ctx):
    """Without weights, every class in the list has the same chances (a class that is there twice, twice as many)"""
    parts = 12
    names = ctx.pick(["R", "RB", "RRB", "RBB", "RBRR", "BRB", "GRB", "RRBG"])
    classes = [{"R": NetRed, "B": NetBlue, "G": agents.CounterModel}[n] for n in names]
    found = {c: 0 for c in classes}
    for i in range(parts):
        ctx.step()
        env = scripted(World, ctx, uniform=(0.0,))(topology=nx.path_graph(1))
        env.random._uniform = ((2 * i + 1) / (2 * parts),)
        if ctx.task["how"] == "populate":
            env.populate_network(classes)
        else:
            env.add_agents(classes, k=1)
        found[type(env.get_agents()[0])] += 1
    for c in found:
        same(found[c] * len(classes), parts * classes.count(c), f"chances of {c.__name__} (in {parts * len(classes)} parts) in {names}")
    ctx.state(names)
    ctx.outcome(names)


def rare(ctx):
    """A class with a positive weight can appear, no matter how small it is"""
    small = ctx.pick([1e-3, 1e-6, 1e-12])
    first = ctx.choose(2)
    weights = [small, 1] if first else [1, small]
    got = set()
    for v in (0.0, 0.5, 1 - 2 ** -53):
        ctx.step()
        env = scripted(World, ctx, uniform=(0.0,))(topology=nx.path_graph(1))
        env.random._uniform = (v,)
        if ctx.task["how"] == "populate":
            env.populate_network(NET, weights=weights)
        else:
            env.add_agents([NetRed, NetBlue], k=1, weights=weights)
        got.add(type(env.get_agents()[0]))
    same(sorted(c.__name__ for c in got), ["NetBlue", "NetRed"], f"classes that can appear with the weights {weights}")
    ctx.state(weights)
    ctx.outcome(weights)


SCENARIOS = {"chances": chances, "repeated": repeated, "rare": rare, "several": several, "populate": populate, "constructor": constructor, "single": single}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    for g in ("empty", "path", "named", "attributes"):
        yield dict(scenario="several", graph=g, plain=True, times=1, ks=[None, 0, 1, 2, 3], split=2)
    yield dict(scenario="several", graph="path", plain=True, times=2, ks=[None, 1] if not big else [None, 0, 1, 2], split=2)
    yield dict(scenario="several", graph="one", plain=False, times=2, ks=[None, 1], split=2)
    yield dict(scenario="several", graph="attributes", plain=False, times=1, ks=[None, 0, 1, 2], split=2)
    for how in ("add", "populate"):
        yield dict(scenario="chances", how=how)
        yield dict(scenario="rare", how=how)
        yield dict(scenario="repeated", how=how)
    for g in GRAPHS:
        if g != "empty":
            yield dict(scenario="populate", graph=g, split=2)
        yield dict(scenario="constructor", graph=g, split=2)
    for g in ("empty", "one", "path", "attributes"):
        yield dict(scenario="single", graph=g, len=3 if g != "empty" or not big else 4, split=2)


BOUNDS = {
    "quick": "8 networks of 0-4 nodes (directed, named, loops...), 1-2 calls to add_agents with 0-3 agents of up to 3 classes, 4 kinds of weights and all the "
             "random choices; exact chances for 12 lists of weights (20 equal parts of the random numbers); populate_network with any subset of two nodes already taken; populations given to the constructor; "
             "sequences of 3 additions, deaths and steps",
    "thorough": "as quick, with more sizes and sequences of 4 operations",
}
ASSUMPTIONS = ["the identifiers are assigned by the environment"]
