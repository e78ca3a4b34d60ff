"""C10: queries return exactly the agents that match."""
from itertools import combinations, product
from copy import deepcopy

import networkx as nx

from soil import agents, environment
from soil.agents import geo
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted


class A(agents.Agent):
    x = 0
    tags = []

    @agents.state(default=True)
    def on(self):
        return INF

    @agents.state
    def off(self):
        return INF


class B(A):
    pass


class C(agents.BaseAgent):
    x = 0

    def step(self):
        return INF


class D(geo.Geo):
    def step(self):
        return INF


CLS = {"A": A, "B": B, "C": C}

IDS = [None, 0, 2, 99, [0, 1], [1, 99], [2, 0], []]
STATES = [None, "on", ["on", "off"], ("off",), "nope", []]
CLASSES = [None, A, B, (A, C), [B, C], "soil.agents.NetworkAgent", "NetworkAgent"]
ATTRS = [{}, {"x": 1}, {"x": [1, 2]}, {"x": 0}, {"x": 2, "y": 5}, {"y": 5}, {"missing": 1}, {"x": None}, {"x": []}, {"t": (1, 0)}, {"t": [(0, 0), (1, 0)]}, {"w": "ab"}]
LIMITS = [None, 0, 1, 2]
NAMED = {"soil.agents.NetworkAgent": agents.NetworkAgent, "NetworkAgent": agents.NetworkAgent}


def matches(a, q):
    ids = q.get("unique_id")
    if ids is not None and a.unique_id not in (ids if isinstance(ids, list) else [ids]):
        return False
    s = q.get("state_id")
    if s is not None:
        if getattr(a, "state_id", None) not in ([s] if isinstance(s, str) else list(s)):
            return False
    c = q.get("agent_class")
    if c is not None:
        c = NAMED.get(c, c) if isinstance(c, str) else c
        if not isinstance(a, tuple(c) if isinstance(c, (tuple, list)) else c):
            return False
    attrs = dict(q.get("state") or {})
    attrs.update({k: v for (k, v) in q.items() if k not in ("unique_id", "state_id", "agent_class", "state", "limit")})
    for (k, v) in attrs.items():
        v = v if isinstance(v, list) else [v]
        got = getattr(a, k, None)
        if not any(got == i for i in v):
            return False
    return True


def answer(ags, q):
    res = [a for a in ags if matches(a, q)]
    if q.get("limit") is not None:
        res = res[:q["limit"]]
    return res


def ids(l):
    return [a.unique_id for a in l]


def queries(full):
    for (i, s, c, a, lim) in product(IDS, STATES, CLASSES, ATTRS, LIMITS):
        used = (i is not None) + (s is not None) + (c is not None) + bool(a) + (lim is not None)
        if used > full:
            continue
        q = dict(a)
        if i is not None:
            q["unique_id"] = i
        if s is not None:
            q["state_id"] = s
        if c is not None:
            q["agent_class"] = c
        if lim is not None:
            q["limit"] = lim
        yield q
        if a and used <= 2:
            r = {k: v for (k, v) in q.items() if k not in a}
            r["state"] = dict(a)
            yield r
    yield {"state": {"x": 1}, "y": 5}
    yield {"state": {"x": 1, "y": 5}}


def world(ctx, spec, G=None, order=None):
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G, schedule_class=stime.OrderedTimedActivation)
    ags = []
    for (c, x, state) in spec:
        kw = dict(x=x, t=(len(ags) % 2, 0), w="abc"[:1 + len(ags)])
        if c != "C":
            kw["state_id"] = state
        if len(ags) == 1:
            kw["y"] = 5
        if order:
            kw["unique_id"] = order[len(ags)]
        ags.append(env.add_agent(CLS[c], **kw))
    return env, ags


def filters(ctx):
    """All the queries, in all the worlds with 3 agents"""
    task = ctx.task
    spec = []
    for i in range(task["n"]):
        c = task["first"] if i == 0 else ctx.pick(["A", "B", "C"])
        x = ctx.pick([[0, 1, 2], [1, 2], [0, 1]][i]) if not task.get("kill") else i
        s = ctx.pick(["on", "off"]) if c != "C" and i < 2 - bool(task.get("kill")) else "on"
        spec.append((c, x, s))
    env, ags = world(ctx, spec, order=task.get("order"))
    if task.get("kill"):
        k = ctx.choose(task["n"])
        ags[k].die()
        ags = [a for a in ags if a is not ags[k]]
    ctx.note(spec)
    ctx.state(spec, ids(ags))
    n = 0
    askers = [a for a in ags]
    for q in queries(task["full"]):
        n += 1
        want = ids(answer(ags, q))
        before = deepcopy({k: v for (k, v) in q.items() if k != "agent_class"})
        same(ids(env.get_agents(**q)), want, f"agents returned by the environment for {q}")
        if n % 3 == 0 or "limit" in q:
            same(env.count_agents(**q), len(want), f"number of agents for {q}")
        if n % 3 == 1 and want:
            same(env.agent(**q).unique_id, want[0], f"agent returned for {q}")
        if askers and n % 2 == 0:
            a = askers[n % len(askers)]
            same(ids(a.get_agents(**q)), want, f"agents returned by agent {a.unique_id} for {q}")
            same(ids(a.iter_agents(**q)), want, f"agents iterated by agent {a.unique_id} for {q}")
            same(a.count_agents(**q), len(want), f"number of agents counted by agent {a.unique_id} for {q}")
        same({k: v for (k, v) in q.items() if k != "agent_class"}, before, "arguments of the query, afterwards")
    ctx.step(n)
    # Positional identifiers
    for r in range(1, 3):
        for c in combinations([0, 1, 2, 99], r):
            same(ids(env.get_agents(*c)), [a.unique_id for a in ags if a.unique_id in c], f"agents with ids {c}")
    same(ids(env.get_agents), ids(ags), "all the agents")
    same(ids(env), ids(ags), "agents of the environment")
    ctx.outcome(n)


def view(ctx):
    """The collection of agents behaves as a mapping by identifier, and as a set of agents"""
    n = ctx.task["n"]
    spec = [("A", i, "on") for i in range(n)]
    env, ags = world(ctx, spec)
    removed = []
    for _ in range(2):
        c = ctx.choose(len(ags) + 1)
        if c:
            a = ags.pop(c - 1)
            removed.append(a)
            a.die()
        ctx.step()
        v = env.get_agents
        same(len(v), len(ags), "length of the view")
        same(list(v), ags, "agents in the view")
        same(v(), ags, "agents returned by the view")
        for a in ags:
            check(v[a.unique_id] is a, "agent {} in the view", a.unique_id)
            check(a.unique_id in v, "the identifier {} is in the view", a.unique_id)
            check(v.one(unique_id=a.unique_id) is a, "agent {} with one()", a.unique_id)
            same(list(v.filter(x=a.x)), [a], "filter of the view")
        for i in [a.unique_id for a in removed] + [-1, 50]:
            check(i not in v, "the identifier {} is not in the view", i)
            try:
                v[i]
            except Exception:
                pass
            else:
                raise Violation(f"there is an agent with the identifier {i}")
        same(str(v), str(ids(ags)), "text of the view")
        ctx.state(ids(ags))
    ctx.outcome(ids(ags))


FILTERS = [{}, {"x": 1}, {"x": [0, 1]}, {"state_id": "on"}, {"state_id": ["off"], "x": 0}, {"agent_class": B}, {"limit": 1},
           {"unique_id": [0, 1]}, {"unique_id": 2}, {"unique_id": [99]}, {"state_id": "on", "limit": 1}, {"unique_id": 0, "state_id": "on"},
           {"unique_id": [0]}, {"missing": 3}, {"unique_id": []}, {"unique_id": [], "x": 1}, {"state_id": []}]


def all_graphs(n, directed):
    pairs = [(i, j) for i in range(n) for j in range(n) if (i != j if directed else i < j)]
    return pairs


def ask_neighbors(a, nb, q):
    """``nb``: the neighbors, in the order of the environment"""
    want = ids(answer(nb, q))
    for (what, got) in (("get_neighbors", a.get_neighbors(**q)), ("iter_neighbors", list(a.iter_neighbors(**q))),
                        ("get_agents", a.get_agents(limit_neighbors=True, **q))):
        same(ids(got), want, f"neighbors of {a.unique_id} ({what}) for {q}")
    same(a.count_neighbors(**q), len(want), f"number of neighbors of {a.unique_id} for {q}")


def neighbors(ctx):
    """Neighbors and subgraphs, in all the graphs with n nodes"""
    task = ctx.task
    n, directed = task["n"], task["directed"]
    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(range(n))
    pairs = all_graphs(n, directed)
    mask = task["mask"]
    for (k, p) in enumerate(pairs):
        bit = (mask >> k) & 1 if k < task["fixed"] else ctx.choose(2)
        if bit:
            G.add_edge(*p)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G)
    # One node has no agent, another agent has no node, another one may be dead
    ags = {}
    classes = [A, B, A, A]
    vacant = ctx.choose(n + 1)
    for i in range(n):
        if i + 1 == vacant:
            continue
        ags[i] = env.add_agent(classes[i], node_id=i, x=i % 2, state_id="on" if i != 1 else "off")
    extra = env.add_agent(C, x=1)
    dead = ctx.choose(n + 1) if n < 4 else 0
    if dead:
        if dead - 1 not in ags:
            raise Prune()
        ags[dead - 1].die(remove=False)
        del ags[dead - 1]
    ctx.note(sorted(G.edges), "vacant", vacant - 1, "dead", dead - 1)
    ctx.state(sorted(G.edges), vacant, dead)
    every = list(ags.values()) + [extra]
    for (i, a) in ags.items():
        nb = [ags[j] for j in sorted(G.neighbors(i)) if j in ags]
        for q in FILTERS:
            ctx.step()
            ask_neighbors(a, nb, q)
            if q.get("limit") is None:
                for center in (True, False):
                    sub = a.subgraph(center=center, **q)
                    nodes = {x.node_id for x in answer(ags.values(), q)} | ({i} if center else set())
                    same(set(sub.nodes), nodes, f"nodes of the subgraph of {i} (center {center}) for {q}")
                    same({frozenset(e) if not directed else e for e in sub.edges},
                         {frozenset(e) if not directed else e for e in G.edges if e[0] in nodes and e[1] in nodes},
                         f"edges of the subgraph of {i} for {q}")
    ctx.outcome(sorted(G.edges), vacant, dead)


def geosearch(ctx):
    """Agents within a radius"""
    task = ctx.task
    grid = [(0, 0), (1, 0), (0, 2), (3, 4)]
    G = nx.Graph()
    pos = {}
    for i in range(task["n"]):
        pos[i] = ctx.pick(grid)
        G.add_node(f"n{i}", pos=pos[i])
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G)
    ags = [env.add_agent(D, node_id=f"n{i}", x=i % 2) for i in range(task["n"])]
    ctx.note(pos)
    ctx.state(sorted(pos.items()))
    for (i, a) in enumerate(ags):
        for radius in (0, 0.5, 1, 2, 2.5, 4, 5, 10):
            for center in (True, False):
                for q in ({}, {"x": 1}, {"unique_id": [0, 1]}):
                    ctx.step()
                    want = set()
                    for (j, b) in enumerate(ags):
                        if j == i:
                            if center:
                                want.add(f"n{j}")
                            continue
                        d = ((pos[i][0] - pos[j][0]) ** 2 + (pos[i][1] - pos[j][1]) ** 2) ** 0.5
                        if d <= radius and matches(b, q):
                            want.add(f"n{j}")
                    got = a.geo_search(radius, center=center, **q)
                    same(len(got), len(set(got)), "repeated nodes in the search")
                    same(set(got), want, f"nodes within {radius} of {i} (center {center}) for {q}")
    ctx.outcome(sorted(pos.items()))


def lattice(ctx):
    """Agents within a radius, in a bigger network: a grid with as many agents as wanted"""
    task = ctx.task
    (rows, cols) = task["size"]
    dx, dy = ctx.pick([1, 2.5]), ctx.pick([1, 0])
    pos = {f"n{r}-{c}": (dx * r, dy * c) for r in range(rows) for c in range(cols)}
    G = nx.Graph()
    for (n, p) in pos.items():
        G.add_node(n, pos=p)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G)
    ags = [env.add_agent(D, node_id=n, x=i % 2) for (i, n) in enumerate(pos)]
    gone = [a for a in ags if a.unique_id % 7 == 3] if ctx.choose(2) else []
    for a in gone:
        a.die()
    ctx.note(rows, cols, dx, dy, len(gone))
    live = [a for a in ags if a not in gone]
    for a in live:
        ctx.step()
        (x, y) = pos[a.node_id]
        d = {b.node_id: (x - pos[b.node_id][0]) ** 2 + (y - pos[b.node_id][1]) ** 2 for b in live}
        for radius in (0, 0.99, 1, 1.01, 1.999, 2, 2.5, 3, 3.005, 5, 100):
            for (q, match) in (({}, live), ({"x": 1}, [b for b in live if b.x == 1])):
                for center in (True, False):
                    want = {b.node_id for b in match if d[b.node_id] <= radius ** 2 and b is not a} | ({a.node_id} if center else set())
                    got = a.geo_search(radius, center=center, **q)
                    same(len(got), len(set(got)), "repeated nodes in the search")
                    same(set(got), want, f"nodes within {radius} of {a.node_id} (center {center}) for {q}")
    ctx.state(rows, cols, dx, dy, len(gone))
    ctx.outcome(rows, cols, dx, dy, len(gone))


class H(A, geo.Geo):
    pass


def history(ctx):
    """Queries in between changes of the world: they are always about the present"""
    task = ctx.task
    n = task["n"]
    names = task.get("names")
    G = nx.DiGraph() if task.get("directed") else nx.Graph()
    spots = [(0, 0), (3, 4), (0, 1)]
    for i in range(n):
        G.add_node(i, pos=spots[0])
    for e in task["edges"]:
        G.add_edge(*e)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G, schedule_class=stime.OrderedTimedActivation)
    G = env.G
    ags = []

    def born(node):
        kw = dict(unique_id=names[len(env.born)]) if names else {}
        a = env.add_agent(H if len(env.born) != 1 else HB, node_id=node, x=0, state_id="on", **kw)
        env.born.append(a)
        ags.append(a)
        G.nodes[node].setdefault("pos", spots[0])
    env.born = []
    for i in range(n):
        born(i)
    first = [a.unique_id for a in ags[:1]]
    queries = [{}, {"x": 1}, {"state_id": "off"}, {"unique_id": list(first)}, {"unique_id": first[0]}, {"agent_class": HB}, {"limit": 1}]

    def ask_all(when):
        for q in queries:
            ctx.step()
            want = ids(answer(ags, q))
            same(ids(env.get_agents(**q)), want, f"agents of the environment for {q}, {when}")
            same(env.count_agents(**q), len(want), f"number of agents for {q}, {when}")
            for a in ags:
                same(ids(a.get_agents(**q)), want, f"agents returned by {a.unique_id} for {q}, {when}")
                nodes = set(G.neighbors(a.node_id))
                ask_neighbors(a, [b for b in ags if b.node_id in nodes], q)
                if "limit" in q:
                    continue
                sub = {b.node_id for b in answer(ags, q)} | {a.node_id}
                same(set(a.subgraph(**q).nodes), sub, f"nodes of the subgraph of {a.unique_id} for {q}, {when}")
                for radius in (1, 5):
                    near = {b.node_id for b in answer(ags, q) if b is not a and
                            sum((u - v) ** 2 for (u, v) in zip(G.nodes[b.node_id]["pos"], G.nodes[a.node_id]["pos"])) <= radius ** 2}
                    same(set(a.geo_search(radius, **q)), near, f"nodes within {radius} of {a.unique_id} for {q}, {when}")
        for a in env.born:
            same(a.unique_id in env.get_agents, a in ags, f"presence of {a.unique_id}, {when}")
    ask_all("at first")
    for k in range(task["k"]):
        a = ctx.pick(ags)
        op = ctx.pick(task["ops"])
        if op == "die":
            if len(ags) < 2:
                raise Prune()
            a.die()
            ags.remove(a)
        elif op == "born":
            if len(env.born) > n:
                raise Prune()
            node = max(G.nodes, default=0) + 1
            G.add_node(node)
            born(node)
            ags[-1].add_edge(a)
        elif op == "x":
            a.x = 1 - a.x
        elif op == "state":
            a.set_state("off" if a.state_id == "on" else "on")
        elif op == "pos":
            p = G.nodes[a.node_id]["pos"]
            G.nodes[a.node_id]["pos"] = spots[(spots.index(p) + 1) % 3]
        else:
            b = ctx.pick(ags)
            if a is b:
                raise Prune()
            (u, v) = (a.node_id, b.node_id)
            if op == "link":
                if G.has_edge(u, v):
                    raise Prune()
                a.add_edge(b)
            elif op == "unlink":
                if not G.has_edge(u, v):
                    raise Prune()
                G.remove_edge(u, v)
            elif op == "relink":
                # Replace a link with another one
                if not G.has_edge(u, v):
                    raise Prune()
                c = ctx.pick(ags)
                if c is a or c is b or G.has_edge(u, c.node_id):
                    raise Prune()
                G.remove_edge(u, v)
                a.add_edge(c)
            elif op == "swap":
                # Two agents exchange their nodes
                if a.unique_id == b.unique_id or ags.index(a) > ags.index(b):
                    raise Prune()
                a.node_id, b.node_id = v, u
                G.nodes[v]["agent"], G.nodes[u]["agent"] = a, b
        ctx.note(f"{op} {a.unique_id}: {sorted(G.edges)}")
        ctx.state([(a.unique_id, a.x, a.state_id, a.node_id, G.nodes[a.node_id]["pos"]) for a in ags], sorted(G.edges))
        ask_all(f"after {op} (change {k + 1})")
    ctx.outcome(sorted(G.edges), [(a.unique_id, a.x, a.state_id, a.node_id) for a in ags])


class HB(H):
    pass


def large(ctx):
    """Many agents, and agents with many neighbors"""
    n = ctx.task["n"]
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=nx.star_graph(n - 1), schedule_class=stime.OrderedTimedActivation)
    ags = [env.add_agent(A, node_id=i, x=i % 3, state_id="on" if i % 2 else "off") for i in range(n)]
    gone = ctx.pick([None, n // 2, n - 1])
    if gone is not None:
        ags.pop(gone).die()
    every = ids(ags)
    ctx.step(n)
    same(ids(env.get_agents()), every, "agents")
    same(env.count_agents(), len(every), "number of agents")
    for k in (1, 3, 10, 60, n):
        some = list(range(k // 2, k // 2 + k))
        same(ids(env.get_agents(unique_id=some)), [i for i in some if i in every], f"agents with {k} identifiers")
        same(ids(env.get_agents(*some)), [i for i in some if i in every], f"agents with {k} identifiers, as arguments")
        same(ids(env.get_agents(limit=k)), every[:k], f"the first {k} agents")
        same(ids(ags[0].get_neighbors(unique_id=some)), [i for i in some if i in every and i], f"neighbors with {k} identifiers")
    for x in (0, 1, 2):
        same(ids(env.get_agents(x=x, state_id="on")), [i for i in every if i % 3 == x and i % 2], "agents with a value, in a state")
        same(ids(ags[0].get_neighbors(x=x)), [i for i in every if i % 3 == x and i], "neighbors with a value")
    same(ids(ags[0].get_neighbors()), every[1:], "neighbors of the center")
    same(ags[0].count_neighbors(state_id="off"), len([i for i in every[1:] if i % 2 == 0]), "number of neighbors of the center in a state")
    for a in ags[1:]:
        same(ids(a.get_neighbors()), [0], f"neighbors of {a.unique_id}")
    ctx.state(n, gone)
    ctx.outcome(n, gone)


SCENARIOS = {"large": large, "history": history, "filters": filters, "view": view, "neighbors": neighbors, "geosearch": geosearch, "lattice": lattice}


def tasks(tier):
    big = tier == "thorough"
    every = ["link", "unlink", "relink", "swap", "die", "born", "x", "state", "pos"]
    for (edges, directed) in (([(0, 1), (1, 2)], False), ([], False), ([(0, 1), (1, 2), (2, 0)], True)):
        for names in (None, [10, 3, 7, 5]):
            yield dict(scenario="history", n=3, k=2, edges=edges, directed=directed, ops=every, names=names, split=2)
        yield dict(scenario="history", n=3, k=3 + big, edges=edges, directed=directed, ops=["relink", "die", "x", "swap"], split=3)
    yield dict(scenario="view", n=4)
    for n in (11, 65, 150) + ((600,) if big else ()):
        yield dict(scenario="large", n=n)
    for mask in range(4):
        yield dict(scenario="neighbors", n=3, directed=False, fixed=2, mask=mask)
    for mask in range(8):
        yield dict(scenario="neighbors", n=3, directed=True, fixed=3, mask=mask)
        yield dict(scenario="neighbors", n=4, directed=False, fixed=3, mask=mask)
    yield dict(scenario="geosearch", n=3, split=1)
    for size in ((5, 5), (1, 23), (4, 9)) if big else ((5, 5), (1, 23)):
        yield dict(scenario="lattice", size=size, split=1)
    for first in "ABC":
        yield dict(scenario="filters", n=3, first=first, full=3 if big else 2, split=3)
        yield dict(scenario="filters", n=2, first=first, full=5 if big else 3, split=2)
        yield dict(scenario="filters", n=3, first=first, full=2, kill=True, split=3)
        yield dict(scenario="filters", n=2, first=first, full=3, order=[2, 0], split=2)
        yield dict(scenario="filters", n=3, first=first, full=2, kill=True, order=[2, 0, 1], split=3)
    if big:
        yield dict(scenario="geosearch", n=4, split=2)


BOUNDS = {
    "quick": "all the worlds of 2-3 agents (3 classes, 3 values of an attribute, 2 states) x all the queries with up to 2 criteria (3 "
             "agents) or up to 3 (2 agents); all the graphs of 3-4 nodes and digraphs of 3 nodes, with a node without agent and a dead "
             "agent x 14 filters; all the placements of 3 agents in 4 points x 8 radii, and grids of 23-25 agents x 11 radii; every query after each of "
             "several changes (deaths, links, attributes)",
    "thorough": "as quick, with one more criterion for 3 agents and all the combinations for 2 agents, and 4 agents in the geographic search",
}
ASSUMPTIONS = ["neighbors in a directed graph are the successors of the node"]
