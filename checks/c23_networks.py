"""C23: the network of an environment is the one that was described."""
import os
import shutil
import sys

import networkx as nx
from soil import agents, environment, network, simulation
from mc.core import Violation, check, same, Prune
from mc.world import scripted, CUR, INF


class Idle(agents.NetworkAgent):
    def step(self):
        return INF


class World(environment.Environment):
    pass


def shape(G, attrs=True, text=False):
    """Everything in a graph"""
    name = str if text else repr
    order = (lambda e: e) if G.is_directed() else sorted
    nodes = sorted((name(n), sorted((k, repr(v)) for (k, v) in d.items() if k not in ("agent", "label")) if attrs else []) for (n, d) in G.nodes(data=True))
    edges = sorted((order([name(a), name(b)]), sorted((k, repr(v)) for (k, v) in d.items() if k != "id") if attrs else []) for (a, b, d) in G.edges(data=True))
    return (G.is_directed(), G.is_multigraph(), nodes, edges)


def any_graph(ctx, n, names, directed=None, weights=True):
    """Any graph with up to n nodes"""
    cls = [nx.Graph, nx.DiGraph][ctx.choose(2) if directed is None else directed]
    G = cls()
    size = ctx.choose(n + 1)
    ns = names[:size]
    for (i, x) in enumerate(ns):
        G.add_node(x)
        if i == 0 and ctx.choose(2):
            G.nodes[x]["color"] = "red"
    for i in range(size):
        for j in range(size if G.is_directed() else i + 1):
            if ctx.choose(2):
                G.add_edge(ns[i], ns[j])
                if weights and (i + j) % 2:
                    G.edges[ns[i], ns[j]]["weight"] = 2.5
    return G


def graph(ctx):
    """A graph (or a dictionary with its nodes and links) is copied"""
    task = ctx.task
    G = any_graph(ctx, task["n"], task["names"])
    multi = task.get("multi")
    if multi:
        G = (nx.MultiDiGraph if G.is_directed() else nx.MultiGraph)(G)
        if G.number_of_edges():
            (a, b) = list(G.edges())[0]
            G.add_edge(a, b, second=True)
    G.graph["title"] = "original"
    how = ctx.pick(["graph", "dict", "function", "create"])
    ctx.note(how, shape(G))
    ctx.step()
    want = shape(G)
    if how == "dict":
        source = nx.node_link_data(G)
        keep = repr(source)
    else:
        source = G
    if how == "function":
        H = network.from_topology(source)
    elif how == "create":
        env = World()
        env.create_network(topology=source)
        H = env.G
    else:
        if not len(G) and how == "dict":
            raise Prune()
        env = World(topology=source)
        H = env.G
    same(shape(H), want, "network")
    check(H is not G, "the graph is shared")
    # It is independent
    H.add_node("more", agent=1)
    for n in list(H.nodes)[:1]:
        H.nodes[n]["color"] = "changed"
    for e in list(H.edges(data=True))[:1]:
        e[2]["weight"] = "changed"
    same(shape(G), want, "the original graph after changing the copy")
    if how == "dict":
        same(repr(source), keep, "the dictionary after changing the network")
    ctx.state(want)
    ctx.outcome(how, len(G))


WRITERS = {
    "gexf": lambda G, p: network.dump_gexf(G.copy(), p),
    "gml": lambda G, p: nx.write_gml(G, p),
    "graphml": lambda G, p: nx.write_graphml(G, p),
    "adjlist": lambda G, p: nx.write_adjlist(G, p),
    "edgelist": lambda G, p: nx.write_edgelist(G, p),
    "gpickle": None,
    "pajek": lambda G, p: nx.write_pajek(G, p),
}


def files(ctx):
    """A network in a file, given by its path"""
    task = ctx.task
    fmt = task["format"]
    names = task["names"]
    G = any_graph(ctx, task["n"], names, directed=task.get("directed"))
    if fmt in ("adjlist", "edgelist") and (G.is_directed() or any(not G.degree(n) for n in G)):
        raise Prune()  # These formats do not have the direction of the links, or the isolated nodes
    if not len(G):
        raise Prune()
    folder = os.path.join(ctx.scratch, "nets")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(os.path.join(folder, "sub"))
    rel = ctx.pick(["net." + fmt, os.path.join("sub", "my net." + fmt)])
    path = os.path.join(folder, rel)
    WRITERS[fmt](G, path)
    how = ctx.choose(4)
    ctx.note(fmt, shape(G), rel, how)
    ctx.step()
    cwd = os.getcwd()
    # The current folder has other networks with the same names
    for other in ("net." + fmt, os.path.join("sub", "my net." + fmt)):
        os.makedirs(os.path.dirname(os.path.join(folder, "decoy", other)), exist_ok=True)
        WRITERS[fmt](nx.path_graph(task["n"] + 2), os.path.join(folder, "decoy", other))
    os.chdir(os.path.join(folder, "decoy"))
    try:
        if how == 0:
            H = World(topology=path).G
        elif how == 1:
            H = World(topology=rel, dir_path=folder).G
        elif how == 2:
            H = World(network_params={"path": rel}, dir_path=folder).G
        else:
            env = World(dir_path=folder)
            env.create_network(path=rel)
            H = env.G
    finally:
        os.chdir(cwd)
    attrs = fmt in ("gml", "gexf", "graphml")
    a, b = shape(G, attrs, text=True), shape(H, attrs, text=True)
    if attrs:
        # The writers add some attributes of their own
        clean = lambda s: (s[0], [(n, [x for x in d if x[0] == "color"]) for (n, d) in s[2]], [(e, [x for x in d if x[0] == "weight" and x[1] != "1.0"]) for (e, d) in s[3]])
        a, b = clean(a), clean(b)
    else:
        a, b = a[2:], b[2:]
    same(b, a, f"network read from a {fmt} file")
    if fmt == "gexf":
        check(all(isinstance(n, int) for n in H), "the nodes of a GEXF file are integers: {}", list(H))
    # Writing it again
    if fmt == "gexf":
        out = os.path.join(folder, "again.gexf")
        network.dump_gexf(H, out)
        same(shape(network.from_topology(out), False), shape(H, False), "network that was written again")
    shutil.rmtree(folder, ignore_errors=True)
    ctx.state(fmt, a)
    ctx.outcome(fmt, len(G))


def custom_generator(n=3, extra=0):
    """It does not accept a seed"""
    CUR.calls.append(("custom", n, extra, None))
    G = nx.cycle_graph(n)
    G.graph["extra"] = extra
    return G


def seeded_generator(n=3, seed=None):
    """It uses the seed"""
    CUR.calls.append(("seeded", n, 0, seed))
    G = nx.Graph()
    G.add_nodes_from(range(n))
    for i in range(n):
        r = seed.random() if hasattr(seed, "random") else seed
        G.add_edge(i, i, value=r)
    return G


def failing_generator(n=3, seed=None):
    raise KeyError("cannot generate it")


def generators(ctx):
    """A network that is generated, with its parameters and the random numbers of the environment"""
    gen = ctx.pick(["custom", "seeded", "complete_graph", "erdos_renyi_graph", "nx", "lambda"])
    n = ctx.pick([None, 1, 4])
    seed = ctx.pick([None, 3]) if gen in ("seeded", "erdos_renyi_graph") else None
    where = ctx.choose(3)
    byname = ctx.choose(2)
    ctx.note(gen, n, seed, where, byname)
    ctx.step()
    CUR.calls = []
    params = {}
    if n is not None:
        params["n"] = n
    elif gen in ("complete_graph", "erdos_renyi_graph", "nx"):
        raise Prune()
    if seed is not None:
        params["seed"] = seed
    if gen == "erdos_renyi_graph":
        params["p"] = 0.5
    if gen == "custom" and n:
        params["extra"] = 8
    g = {"custom": custom_generator, "seeded": seeded_generator, "complete_graph": nx.complete_graph, "erdos_renyi_graph": nx.erdos_renyi_graph,
         "nx": nx.generators.path_graph, "lambda": lambda n=2: nx.path_graph(n)}[gen]
    if byname:
        if gen == "lambda":
            raise Prune()
        g = {"custom": f"{__name__}.custom_generator", "seeded": f"{__name__}.seeded_generator", "nx": "networkx.path_graph"}.get(gen, gen)

    def build(s):
        if where == 0:
            return World(network_generator=g, network_params=dict(params), seed=s)
        if where == 1:
            return World(network_params=dict(params, generator=g), seed=s)
        env = World(seed=s)
        env.create_network(generator=g, **params)
        return env
    keep = list(sys.path)
    envs = [build("one"), build("one"), build("two")]
    sys.path[:] = keep
    size = n if n is not None else 2 if gen == "lambda" else 3
    for e in envs:
        same(len(e.G), size, "nodes")
        if gen == "custom":
            same(sorted(map(sorted, e.G.edges)), sorted(map(sorted, nx.cycle_graph(size).edges)), "links")
            same(e.G.graph["extra"], 8 if n else 0, "parameters")
        elif gen in ("nx", "lambda", "complete_graph"):
            ref = nx.complete_graph(size) if gen == "complete_graph" else nx.path_graph(size)
            same(sorted(map(sorted, e.G.edges)), sorted(map(sorted, ref.edges)), "links")
    a, b, c = [shape(e.G) for e in envs]
    same(b, a, "network with the same seed")
    if gen == "seeded":
        same(all(call[3] == 3 for call in CUR.calls), seed is not None, "the seed that was given is used")
        if seed is None:
            check(a != c, "the network does not depend on the seed of the environment")
        else:
            same(c, a, "network with its own seed")
    check(envs[0].G is not envs[1].G, "the network is shared")
    ctx.state(gen, n, seed, where, byname)
    ctx.outcome(gen, size)


def wrong(ctx):
    """Descriptions that are not valid"""
    what = ctx.pick(["extension", "missing", "dict", "nothing", "fails", "unknown"])
    ctx.note(what)
    ctx.step()
    folder = ctx.scratch
    keep = list(sys.path)
    expected = {"extension": (AttributeError,), "missing": (OSError,), "dict": (ValueError,), "nothing": (ValueError,), "fails": (KeyError,),
                "unknown": (ValueError,)}[what]
    with open(os.path.join(folder, "net.unknown"), "w") as f:
        f.write("")
    try:
        if what == "extension":
            World(topology=os.path.join(folder, "net.unknown"))
        elif what == "missing":
            World(topology=os.path.join(folder, "missing.gexf"))
        elif what == "dict":
            World(topology={"nothing": 1})
        elif what == "nothing":
            World().create_network()
        elif what == "fails":
            World(network_generator=failing_generator)
        else:
            World(network_generator="no_such_generator_at_all")
    except expected:
        pass
    else:
        raise Violation(f"the network is not valid ({what}), but no error was raised")
    finally:
        sys.path[:] = keep
    same(len(World().G), 0, "network by default")
    ctx.state(what)
    ctx.outcome(what)


SCENARIOS = {"graph": graph, "files": files, "generators": generators, "wrong": wrong}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="graph", n=3, names=[0, 1, 2], split=3)
    yield dict(scenario="graph", n=2, names=["b", "a"], split=2)
    yield dict(scenario="graph", n=2, names=[0, "x"], multi=True, split=2)
    for d in (0, 1):
        for fmt in ("gexf", "gml", "graphml"):
            yield dict(scenario="files", format=fmt, n=2 + (big and not d), names=[5, 0, 3], directed=d, split=3)
    for fmt in ("adjlist", "edgelist"):
        yield dict(scenario="files", format=fmt, n=3, names=[5, 0, 3], directed=0, split=3)
    yield dict(scenario="files", format="graphml", n=2, names=["a", "b c"], directed=0, split=2)
    yield dict(scenario="files", format="gexf", n=3, names=[5, 0, 3], directed=0, split=4)
    yield dict(scenario="generators", split=2)
    yield dict(scenario="wrong")


BOUNDS = {
    "quick": "all the graphs with up to 3 nodes (2, if directed, in files) (with loops, attributes and parallel links), given as graphs, dictionaries or files in "
             "5 formats, with absolute and relative paths; 6 generators given in 3 ways; 6 wrong descriptions",
    "thorough": "as quick, with graphs of 3 nodes in files too",
}
ASSUMPTIONS = ["networkx reads what it writes"]
