"""C09: agents and nodes correspond to each other."""
import networkx as nx

from soil import agents, environment
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted


class Net(agents.NetworkAgent):
    def step(self):
        return INF


class Full(agents.Agent):
    @agents.state(default=True)
    def only(self):
        return INF


class Plain(agents.BaseAgent):
    def step(self):
        return INF


CLASSES = {"Net": Net, "Full": Full}


def graph(kind):
    """A topology, which may have attributes in some of its nodes"""
    G = bare_graph(kind)
    if kind in ("path3", "names", "gap", "multi"):
        for (i, n) in enumerate(list(G.nodes)[1:]):
            G.nodes[n].update(color="red", size=i)
    return G


def bare_graph(kind):
    if kind == "none":
        return None
    if kind == "empty0":
        return nx.Graph()
    if kind == "path3":
        return nx.path_graph(3)
    if kind == "tri":
        return nx.complete_graph(3)
    if kind == "names":
        return nx.Graph([("x", "y"), ("y", 7)])
    if kind == "gap":   # a new node must not clash with the existing ones
        return nx.Graph([(1, 2)])
    if kind == "digraph":
        return nx.DiGraph([(0, 1), (1, 2)])
    if kind == "multi":
        return nx.MultiGraph([(0, 1), (0, 1)])
    raise AssertionError(kind)


class Model:
    """Reference model of the network"""

    def __init__(self, ctx, env, cls):
        self.ctx = ctx
        self.env = env
        self.cls = cls
        self.data = {n: {k: v for (k, v) in d.items() if k != "agent"} for (n, d) in env.G.nodes(data=True)}
        self.nodes = {n: None for n in env.G.nodes}    # node -> unique id of its agent
        self.edges = {}
        for (u, v, d) in env.G.edges(data=True):
            self.edges[self.key(u, v)] = dict(d)
        self.agents = {}
        self.dead = set()
        self.nodeless = set()

    def key(self, u, v):
        return (u, v) if self.env.G.is_directed() else frozenset((u, v))

    def free(self):
        return [n for (n, a) in self.nodes.items() if a is None]

    def placed(self, a, node=None):
        """A new agent is in a free node (or in a new one, if there were none), or in the one requested"""
        uid = a.unique_id
        check(uid not in self.agents, "the identifier {} is repeated", uid)
        n = a.node_id
        if node is not None:
            same(n, node, "node of the new agent")
            self.nodes.setdefault(n, None)
        elif self.free():
            check(n in self.nodes, "the new agent {} is in a new node, {}, and there were free ones: {}", uid, n, self.free())
        else:
            check(n is not None and n not in self.nodes, "the new agent {} is in node {}, which already had an agent ({})",
                  uid, n, self.nodes.get(n))
            self.nodes[n] = None
        check(self.nodes[n] is None, "the new agent {} took the place of {} in the node {}", uid, self.nodes[n], n)
        self.nodes[n] = uid
        self.agents[uid] = a

    def drop(self, node):
        self.nodes.pop(node)
        self.data.pop(node, None)
        for k in [k for k in self.edges if node in k]:
            del self.edges[k]

    def audit(self):
        env = self.env
        G = env.G
        same(set(G.nodes), set(self.nodes), "nodes of the network")
        holders = {}
        for (n, uid) in self.nodes.items():
            a = env.agent_for_node_id(n)
            for (k, v) in self.data.get(n, {}).items():
                same(G.nodes[n].get(k), v, f"attribute {k} of node {n}")
            if uid is None:
                check(a is None, "node {} should have no agent, and it has {}", n, a)
            else:
                check(a is self.agents[uid], "agent of node {}: got {}, expected {}", n, a, uid)
                check(G.nodes[n]["agent"] is a, "agent in the data of node {}", n)
                holders[uid] = n
        for (uid, a) in self.agents.items():
            if uid in self.nodeless:
                continue
            n = holders.get(uid)
            if uid not in self.dead or n is not None:
                same(a.node_id, n, f"node of agent {uid}")
                check(a.node is G.nodes[n] or a.node == G.nodes[n], "data of the node of agent {}", uid)
        live = sorted(u for u in self.agents if u not in self.dead and u not in self.nodeless)
        same(sorted(a.unique_id for a in env.network_agents), live, "network agents")
        if G.is_multigraph():
            return
        got = {self.key(u, v): dict(d) for (u, v, d) in G.edges(data=True)}
        same(got, self.edges, "edges of the network")
        for u in live:
            a = self.agents[u]
            n = holders[u]
            nbs = sorted(self.nodes[m] for m in G.neighbors(n)
                         if self.nodes[m] is not None and self.nodes[m] not in self.dead)
            same(sorted(b.unique_id for b in a.get_neighbors()), nbs, f"neighbors of agent {u}")


def ops(ctx):
    task = ctx.task
    cls = CLASSES[task["cls"]]
    G = graph(task["graph"])
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=G)
    env.random.rotate = True
    if G is not None and len(G):
        check(env.G is not G, "the graph of the user is used directly")
    m = Model(ctx, env, cls)
    m.audit()
    fresh = [0]
    for _ in range(task["k"]):
        ctx.step()
        op = ctx.pick(task["ops"])
        live = [a for (u, a) in m.agents.items() if u not in m.dead and u not in m.nodeless]
        ctx.note(op)
        if op == "add":
            m.placed(env.add_agent(cls))
        elif op == "add-node":
            a = env.add_node(cls)
            m.placed(a)
        elif op == "add-at":
            free = m.free()
            if not free:
                raise Prune()
            n = ctx.pick(free)
            ctx.note("  at", n)
            m.placed(env.add_agent(cls, node_id=n), n)
        elif op == "add-node-at":
            fresh[0] += 1
            options = m.free() + [f"new{fresh[0]}"]
            n = ctx.pick(options)
            ctx.note("  at", n)
            m.placed(env.add_node(cls, node_id=n), n)
        elif op == "add-taken":
            taken = [n for n in m.nodes if m.nodes[n] is not None]
            if not taken:
                raise Prune()
            n = ctx.pick(taken)
            try:
                env.add_node(cls, node_id=n)
            except AssertionError:
                pass
            else:
                raise Violation(f"an agent was added to the node {n}, which already had one")
        elif op == "plain":
            a = env.add_agent(Plain)
            check(a.unique_id not in m.agents, "repeated identifier")
        elif op == "populate":
            if not m.nodes or not (m.free() or live):
                raise Prune()
            before = {a.unique_id for a in env.get_agents()}
            free = set(m.free())
            env.populate_network(cls)
            new = [a for a in env.get_agents() if a.unique_id not in before]
            same({a.node_id for a in new}, free, "nodes of the new agents")
            same(len(new), len(free), "number of new agents")
            for a in new:
                m.placed(a, a.node_id)
        elif op in ("die", "die-stay", "remove-node"):
            if not live:
                raise Prune()
            a = ctx.pick(live)
            n = a.node_id
            ctx.note("  agent", a.unique_id)
            if op == "die":
                a.die()
                m.dead.add(a.unique_id)
                m.drop(n)
            elif op == "die-stay":
                a.die(remove=False)
                m.dead.add(a.unique_id)
            else:
                a.remove_node()
                m.drop(n)
                m.nodeless.add(a.unique_id)
        elif op == "die-nodeless":
            rest = [u for u in m.nodeless if u not in m.dead]
            if not rest:
                raise Prune()
            u = rest[0]
            m.agents[u].die()
            m.dead.add(u)
        elif op in ("edge", "edge-attr", "edge-dict"):
            if len(live) < 2:
                raise Prune()
            a = ctx.pick(live)
            b = ctx.pick([x for x in live if x is not a])
            ctx.note("  ", a.unique_id, b.unique_id)
            attrs = {}
            if op == "edge":
                a.add_edge(b)
            elif op == "edge-attr":
                attrs = dict(weight=3, kind="new")
                a.add_edge(b, weight=3, kind="new")
            else:
                attrs = dict(weight=5, color="red")
                d = dict(weight=4, color="red")
                a.add_edge(b, d, weight=5)
                same(d, dict(weight=4, color="red"), "the dictionary of attributes given")
            m.edges.setdefault(m.key(a.node_id, b.node_id), {}).update(attrs)
        elif op == "edge-lost":
            rest = [u for u in m.nodeless]
            if not rest or not live:
                raise Prune()
            x, y = m.agents[rest[0]], live[0]
            if ctx.choose(2):
                x, y = y, x
            try:
                x.add_edge(y)
            except ValueError:
                pass
            else:
                raise Violation("an edge was added to an agent without a node")
        elif op == "user-node":
            fresh[0] += 1
            env.G.add_node(("user", fresh[0]))
            m.nodes[("user", fresh[0])] = None
        m.audit()
        ctx.state([(str(n), u) for (n, u) in m.nodes.items()], sorted(m.dead), sorted(str(sorted(map(str, k))) for k in m.edges))
    ctx.outcome(sorted((str(n), str(u)) for (n, u) in m.nodes.items()), len(m.edges))


def during(ctx):
    """The same, from the activations of the agents: births, deaths and new edges in a network"""
    task = ctx.task
    left = [task["k"]]

    class Actor(CLASSES[task["cls"]]):
        if task["cls"] == "Net":
            def step(self):
                return act(self)
        else:
            @agents.state(default=True)
            def only(self):
                return act(self)

    env = scripted(environment.Environment, ctx, uniform=(0.0,))(topology=graph(task["graph"]),
                                                                schedule_class=stime.OrderedTimedActivation)
    env.random.rotate = True
    m = Model(ctx, env, Actor)

    def act(self):
        ctx.step()
        m.audit()
        left[0] -= 1
        if left[0] < 0:
            return INF
        op = ctx.pick(["none", "child", "child-node", "die", "befriend", "kill"])
        ctx.note(f"t={self.now}: agent {self.unique_id}: {op}")
        res = None
        if op == "child":
            m.placed(env.add_agent(Actor))
        elif op == "child-node":
            c = env.add_node(Actor)
            m.placed(c)
            self.add_edge(c)
            m.edges.setdefault(m.key(self.node_id, c.node_id), {})
        elif op == "die":
            n = self.node_id
            res = self.die()
            m.dead.add(self.unique_id)
            m.drop(n)
        elif op in ("befriend", "kill"):
            others = [a for (u, a) in m.agents.items() if u not in m.dead and a is not self]
            if not others:
                raise Prune()
            o = ctx.pick(others)
            if op == "kill":
                n = o.node_id
                o.die()
                m.dead.add(o.unique_id)
                m.drop(n)
            else:
                self.add_edge(o, since=self.now)
                m.edges.setdefault(m.key(self.node_id, o.node_id), {}).update(since=self.now)
        m.audit()
        ctx.state([(str(n), u) for (n, u) in m.nodes.items()], sorted(m.dead))
        return res

    for _ in range(task["n"]):
        m.placed(env.add_agent(Actor))
    steps = 0
    while env.running:
        steps += 1
        check(steps < 50, "the run does not end")
        env.step()
        m.audit()
    ctx.outcome(sorted((str(n), str(u)) for (n, u) in m.nodes.items()), len(m.edges))


def construct(ctx):
    """Networks populated when the environment is created"""
    task = ctx.task
    kind = ctx.pick(["path3", "tri", "names", "gap", "digraph"])
    cls = ctx.pick([Net, Full])
    how = ctx.pick(["param", "populate", "list", "twice", "partial", "add_agents", "add_agents-k"])
    G = graph(kind)
    ctx.step()
    ctx.state(kind, cls.__name__, how)
    ctx.note(kind, cls.__name__, how)
    base = scripted(environment.Environment, ctx, uniform=(0.0, 0.999) if how == "list" else (0.0,))
    if how == "param":
        env = base(topology=G, agent_class=cls)
    else:
        env = base(topology=G)
        env.random.rotate = True
        if how == "populate":
            env.populate_network(cls)
        elif how == "list":
            env.populate_network([cls, Net], weights=[1, 2])
        elif how == "twice":
            env.populate_network(cls)
            env.populate_network(cls)
        elif how == "partial":
            a = env.add_agent(cls)
            env.populate_network(cls)
            check(env.agent_for_node_id(a.node_id) is a, "an agent lost its node")
        elif how == "add_agents":
            env.add_agents(cls)
        else:
            env.add_agents([cls, Net], k=len(G) + 1)
    n = len(G) + (how == "add_agents-k")
    same(len(env.G), n, "number of nodes")
    same(env.count_agents(), n, "number of agents")
    seen = set()
    for node in env.G.nodes:
        a = env.agent_for_node_id(node)
        check(a is not None and a.node_id == node, "node {} has the agent {}", node, a)
        seen.add(a.unique_id)
    same(len(seen), n, "number of agents in the network")
    check(not any("agent" in d for (_, d) in G.nodes(data=True)), "the graph of the user was changed")


def family(ctx):
    """Agents that create others (and links) while the network is being populated"""
    task = ctx.task
    left = [task["k"]]
    born = []

    def created(self):
        ctx.step()
        born.append(self)
        check(not any(a is None for a in self.model.network_agents), "there are network agents that do not exist yet: {}", list(self.model.network_agents))
        same({a.unique_id for a in self.model.network_agents}, {a.unique_id for a in born}, "network agents, while the network is being populated")
        left[0] -= 1
        if left[0] < 0:
            return
        op = ctx.pick(["none", "add", "add-node", "plain", "edge", "populate"])
        ctx.note(f"agent {self.unique_id}, in {self.node_id}: {op}")
        env = self.model
        if op == "add":
            env.add_agent(Child)
        elif op == "add-node":
            self.add_edge(env.add_node(Child))
        elif op == "plain":
            env.add_agent(Plain)
        elif op == "edge":
            others = [a for a in born if a is not self]
            if not others:
                raise Prune()
            self.add_edge(ctx.pick(others))
        elif op == "populate":
            env.populate_network(Child)

    class Parent(CLASSES[task["cls"]]):
        def init(self):
            created(self)

    Child = type(Parent)("Child", (Parent,), {})
    G = graph(task["graph"])
    base = scripted(environment.Environment, ctx, uniform=(0.0,))
    how = task["how"]
    if how == "param":
        env = base(topology=G, agent_class=Parent)
    else:
        env = base(topology=G)
        env.random.rotate = True
        if how == "populate":
            env.populate_network(Parent)
        elif how == "add_agents":
            env.add_agents(Parent, k=2)
        else:
            env.add_node(Parent)
            env.add_agent(Parent)
    nodes = {}
    for a in born:
        check(a.node_id in env.G, "agent {} is in node {}, out of {}", a.unique_id, a.node_id, list(env.G.nodes))
        check(a.node_id not in nodes, "agents {} and {} are both in node {}", a.unique_id, nodes.get(a.node_id), a.node_id)
        nodes[a.node_id] = a.unique_id
        check(env.agent_for_node_id(a.node_id) is a, "agent of node {}: {}, expected {}", a.node_id, env.agent_for_node_id(a.node_id), a)
        check(env.G.nodes[a.node_id].get("agent") is a, "agent in the data of node {}", a.node_id)
    for n in env.G.nodes:
        if n not in nodes:
            check(env.agent_for_node_id(n) is None, "node {} has an agent that was not created: {}", n, env.agent_for_node_id(n))
    same(sorted(a.unique_id for a in env.network_agents), sorted(nodes.values()), "network agents")
    if how in ("param", "populate"):
        check(len(nodes) >= len(G), "{} agents for {} nodes", len(nodes), len(G))
    ctx.state([(str(k), v) for (k, v) in nodes.items()])
    ctx.outcome(sorted(map(str, nodes)))


SCENARIOS = {"ops": ops, "during": during, "construct": construct, "family": family}


def tasks(tier):
    big = tier == "thorough"
    grow = ["add", "add-node", "add-at", "add-node-at", "plain", "populate", "add-taken"]
    mixed = ["add", "populate", "die", "die-stay", "remove-node", "die-nodeless", "edge", "edge-attr", "edge-lost", "add-node", "user-node"]
    edges = ["add", "edge", "edge-attr", "edge-dict", "die", "remove-node"]
    yield dict(scenario="construct", split=2)
    for cls in CLASSES:
        for g in ("none", "empty0", "path3", "names", "gap", "digraph", "multi"):
            yield dict(scenario="ops", cls=cls, graph=g, ops=grow, k=3 if len(g) > 4 or g in ("gap",) else 4, split=2)
        for g in ("path3", "none", "tri", "digraph", "gap"):
            yield dict(scenario="ops", cls=cls, graph=g, ops=mixed, k=4 if g in ("none", "gap") or big else 3, split=2)
        for g in ("none", "gap", "digraph"):
            yield dict(scenario="ops", cls=cls, graph=g, ops=edges, k=4 if g == "none" else 3 + big, split=2)
        for g in ("none", "gap", "path3"):
            for how in ("populate", "add_agents", "each") + (("param",) if cls == "Net" and g != "none" else ()):
                if g == "none" and how == "populate":
                    continue
                yield dict(scenario="family", cls=cls, graph=g, how=how, k=2 + big, split=2)
            yield dict(scenario="during", cls=cls, graph=g, n=2 if g != "path3" else 1, k=3 + big, split=2)


BOUNDS = {
    "quick": "sequences of 3-4 operations (out of 14) on 7 initial networks with 2 kinds of agents, every choice of free node; births, "
             "deaths and edges in 3 activations",
    "thorough": "as quick, with one more operation",
}
ASSUMPTIONS = ["a node whose agent died and was told to keep it is not free",
               "placing an agent explicitly in a node that is taken, without add_node, is not covered"]
