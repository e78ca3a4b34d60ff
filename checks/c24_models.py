"""C24: the models of agents that are included do what they say."""
import itertools
import math
from fractions import Fraction

import networkx as nx
from soil import agents, environment
from mc.core import Violation, check, same, Prune
from mc.world import scripted, CUR, INF, SCHEDULERS

HALF = Fraction(1, 2)
PROBS = ["neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob",
         "discontent_neutral", "discontent_content", "content_discontent", "content_neutral"]
STATES = ["neutral", "discontent", "content"]


class World(environment.Environment):
    pass


class Coin:
    """Every sequence of numbers of the halves (or other equal parts) of [0, 1), one by one"""

    def __init__(self, parts=2):
        self.parts = parts
        self.script = []
        self.pos = 0

    def random(self):
        if self.pos == len(self.script):
            self.script.append(0)
        v = self.script[self.pos]
        self.pos += 1
        return (2 * v + 1) / (2 * self.parts)

    def next(self):
        self.script = self.script[:self.pos]
        while self.script and self.script[-1] == self.parts - 1:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1] += 1
        return True


def distribution(ctx, activate, parts=2):
    """The exact probability of each result, if every probability is a multiple of one half (or another part)"""
    coin = Coin(parts)
    found = {}
    while True:
        coin.pos = 0
        res = activate(coin)
        check(coin.pos <= 12, "too many random numbers")
        ctx.step()
        found[res] = found.get(res, 0) + Fraction(1, parts) ** coin.pos
        if not coin.next():
            break
    same(sum(found.values()), 1, "total probability (harness)")
    return found


def chances(events, stay):
    """The distributions of the result of trying some events, in any order, until one of them happens"""
    events = [(t, min(p, 1)) for (t, p) in events if p > 0]
    res = []
    for order in itertools.permutations(events):
        left = Fraction(1)
        d = {}
        for (t, p) in order:
            d[t] = d.get(t, 0) + left * p
            left *= 1 - p
        d[stay] = d.get(stay, 0) + left
        d = {k: v for (k, v) in d.items() if v}
        if d not in res:
            res.append(d)
    return res or [{stay: Fraction(1)}]


def around(n):
    """An agent with n neighbors, and one more that is not its neighbor"""
    G = nx.star_graph(n)
    G.add_node(n + 1)
    return G


def sisa_events(state, near, p):
    c, d = near.count("content"), near.count("discontent")
    if state == "neutral":
        return [("discontent", p["neutral_discontent_spon_prob"]), ("content", p["neutral_content_spon_prob"]),
                ("discontent", d * p["neutral_discontent_infected_prob"]), ("content", c * p["neutral_content_infected_prob"])]
    if state == "discontent":
        return [("neutral", p["discontent_neutral"]), ("content", c * p["discontent_content"])]
    return [("neutral", p["content_neutral"]), ("discontent", d * p["content_discontent"])]


USED = {"neutral": PROBS[:4], "discontent": PROBS[4:6], "content": PROBS[6:]}


def sisa(ctx):
    """The chances of each transition of an agent, for every situation of its neighbors"""
    task = ctx.task
    state = task["state"]
    parts = task.get("parts", 2)
    if parts == 2:
        near = [ctx.pick(STATES) for i in range(task["neighbors"])]
        far = ctx.pick(STATES) if len(near) < 2 else "discontent"
        p = {k: Fraction(ctx.choose(3), 2) if k in USED[state] else Fraction(1, 2) for k in PROBS}
    else:
        near = ctx.pick(list(itertools.combinations_with_replacement(STATES, task["neighbors"])))
        far = "discontent"
        p = {k: Fraction(1, parts) if "infected" in k or k in ("discontent_content", "content_discontent") else Fraction(0) for k in PROBS}
    ctx.note(state, near, far, {k: float(v) for (k, v) in p.items()})
    params = dict({k: float(v) for (k, v) in p.items()}, standard_variance=0, variance_d_c=0, variance_c_d=0)

    def activate(coin):
        env = World(topology=around(len(near)), seed="s", **params)
        for (i, s) in enumerate([state, *near, far]):
            if s == "neutral":
                env.add_agent(agents.SISaModel, node_id=i)
            else:
                env.add_agent(agents.SISaModel, node_id=i, state_id=s)
        a = env.G.nodes[0]["agent"]
        env.random = coin
        before = [env.G.nodes[i]["agent"].state_id for i in env.G]
        same(before, [state, *near, far], "initial states")
        a.step()
        same([env.G.nodes[i]["agent"].state_id for i in env.G][1:], before[1:], "states of the others")
        return a.state_id

    found = distribution(ctx, activate, parts)
    want = chances(sisa_events(state, near, p), state)
    if found not in want:
        raise Violation(f"the chances of each state are {pretty(found)}, instead of {pretty(want[0])}")
    ctx.state(state, near, sorted(p.items()))
    ctx.outcome(state, sorted(found))


def pretty(d):
    return {k: str(v) for (k, v) in sorted(d.items())}


def variance(ctx):
    """The probabilities of an agent are drawn around those of the model"""
    which = ctx.choose(3)
    seed = ctx.pick(["one", "two", 3])
    names = [("standard_variance", [k for k in PROBS if k not in ("discontent_content", "content_discontent")]),
             ("variance_d_c", ["discontent_content"]), ("variance_c_d", ["content_discontent"])]
    base = {k: 0.1 * (i + 1) for (i, k) in enumerate(PROBS)}
    params = dict(base, **{n: 0.2 * (i == which) for (i, (n, _)) in enumerate(names)})
    ctx.note(which, seed)
    ctx.step()
    values = []
    for i in range(2):
        env = World(topology=nx.path_graph(2), seed=seed, **params)
        a = env.add_agent(agents.SISaModel)
        values.append({k: a[k] for k in PROBS})
        for (j, (n, ks)) in enumerate(names):
            for k in ks:
                if j == which:
                    check(a[k] != base[k], "{} has no variance", k)
                    check(abs(a[k] - base[k]) < 2, "{} is too far", k)
                else:
                    same(a[k], base[k], k)
        same({k: getattr(env, k) for k in PROBS}, base, "probabilities of the model")
    same(values[0], values[1], "values with the same seed")
    ctx.state(which, seed)
    ctx.outcome(which)


class Recorded(agents.SISaModel):
    def step(self):
        st = CUR.st
        before = {n: self.G.nodes[n]["agent"].state_id for n in self.G}
        # All the numbers of an activation are in the same half (all of them are combined in the other scenarios)
        self.model.random._uniform = (0.25, 0.75)[CUR.ctx.choose(2):][:1]
        res = super().step()
        after = {n: self.G.nodes[n]["agent"].state_id for n in self.G}
        st.append((self.node_id, before, after))
        return res


def epidemic(ctx):
    """A network of agents, with every order and every random number"""
    task = ctx.task
    n = task["n"]
    G = nx.Graph() if not task["directed"] else nx.DiGraph()
    G.add_nodes_from(range(n))
    for (a, b) in (itertools.permutations if task["directed"] else itertools.combinations)(range(n), 2):
        if ctx.choose(2):
            G.add_edge(a, b)
    p = {k: Fraction(v, 2) for (k, v) in zip(PROBS, task["probs"])}
    params = dict({k: float(v) for (k, v) in p.items()}, standard_variance=0, variance_d_c=0, variance_c_d=0)
    CUR.st = []
    env = scripted(World, ctx, uniform=(0.25, 0.75))(topology=G, schedule_class=SCHEDULERS[task["sched"]], **params)
    for i in range(n):
        env.add_agent(Recorded, node_id=i, state_id=ctx.pick(STATES))
    ctx.note(list(G.edges), [a.state_id for a in env.agents])
    env.random.rotate = True
    last = {i: env.G.nodes[i]["agent"].state_id for i in env.G}
    for k in range(task["steps"]):
        env.step()
        ctx.step()
        same(len(CUR.st), (k + 1) * n, "activations")
        for (i, before, after) in CUR.st[k * n:]:
            same(before, last, "states before an activation")
            near = [before[j] for j in G.neighbors(i)]
            events = sisa_events(before[i], near, p)
            possible = set().union(*chances(events, before[i]))
            check(after[i] in possible, "an agent that was {} (next to {}) is now {}", before[i], near, after[i])
            same({j: s for (j, s) in after.items() if j != i}, {j: s for (j, s) in before.items() if j != i}, "states of the others")
            last = after
        same(env.count_agents(state_id="content"), list(last.values()).count("content"), "count")
        ctx.state(k, sorted(last.items()), sorted(G.edges))
    ctx.outcome(sorted(last.values()))


def bass(ctx):
    """Adoption of an innovation, spontaneous or because of the neighbors"""
    parts = ctx.task.get("parts", 2)
    kinds = ["innovation", "aware"]
    if parts == 2:
        near = [ctx.pick(kinds) for i in range(ctx.task["neighbors"])]
        far = ctx.pick(kinds)
        state = ctx.pick(kinds)
        p = Fraction(ctx.choose(3), 2)
        q = Fraction(ctx.choose(3), 2)
    else:
        near = list(ctx.pick(list(itertools.combinations_with_replacement(kinds, ctx.task["neighbors"]))))
        far, state, p, q = "aware", "innovation", Fraction(ctx.choose(2), parts), Fraction(1, parts)
    ctx.note(state, near, far, p, q)

    def activate(coin):
        env = World(topology=around(len(near)), seed="s")
        for (i, s) in enumerate([state] + near + [far]):
            env.add_agent(agents.BassModel, node_id=i, state_id=s, innovation_prob=float(p), imitation_prob=float(q))
        a = env.G.nodes[0]["agent"]
        env.random = coin
        a.step()
        same(env.count_agents(), len(near) + 1 + a.alive, "agents")
        return (a.state_id if a.alive else "dead", a.sentimentCorrelation)

    found = distribution(ctx, activate, parts)
    if state == "aware":
        want = [{("dead", 0): Fraction(1)}]
    else:
        want = chances([(("aware", 1), p), (("aware", 1), q * near.count("aware"))], ("innovation", 0))
    if found not in want:
        raise Violation(f"the chances of each state are {pretty({str(k): v for (k, v) in found.items()})}, instead of {want[0]}")
    ctx.state(state, near, p, q)
    ctx.outcome(state, sorted(found))


def counters(ctx):
    """Births, deaths, links and steps"""
    from soil.agents.CounterModel import Ticker
    task = ctx.task
    classes = [Ticker, agents.CounterModel, agents.AggregatedCounter]
    G = nx.empty_graph(2)
    env = scripted(World, ctx, uniform=(0.0,))(topology=G, schedule_class=SCHEDULERS["ordered"])
    model = []  # agent, class, links, times, neighbors, total

    def birth(cls):
        # They are placed in an order that does not matter
        a = env.add_agent(cls) if cls is Ticker else env.add_node(cls)
        model.append(dict(a=a, cls=cls, links=set(), times=0, neighbors=0, total=0))

    env.random.rotate = True
    birth(classes[ctx.choose(3)])
    for k in range(task["ops"]):
        live = [m for m in model if m["a"].alive]
        net = [m for m in live if m["cls"] is not Ticker]
        ops = ["step"] + ["birth %d" % i for i in range(3) if len(model) < 4] + ["die %d" % i for i in range(len(live))]
        ops += ["link"] if len(net) > 1 else []
        op = ctx.pick(ops)
        ctx.step()
        ctx.note(op)
        if op == "step":
            if not live:
                break
            env.step()
            for m in live:
                near = sum(o["a"].alive for o in model if id(o["a"]) in m["links"])
                m["times"] += 1
                if m["cls"] is agents.CounterModel:
                    m["neighbors"] = near
                    m["total"] = len(live)
                elif m["cls"] is agents.AggregatedCounter:
                    m["neighbors"] += near
                    m["total"] += len(live)
        elif op.startswith("birth"):
            birth(classes[int(op[-1])])
        elif op.startswith("die"):
            live[int(op[-1])]["a"].die()
        else:
            a, b = net[0], net[-1]
            a["a"].add_edge(b["a"])
            a["links"].add(id(b["a"]))
            b["links"].add(id(a["a"]))
        for m in model:
            if not m["a"].alive:
                continue
            same(m["a"].times, m["times"], f"activations of {m['cls'].__name__}")
            if m["cls"] is not Ticker:
                same(m["a"].neighbors, m["neighbors"], f"neighbors of {m['cls'].__name__}")
                same(m["a"].total, m["total"], f"total of {m['cls'].__name__}")
        ctx.state([(m["cls"].__name__, m["a"].alive, m["times"], m["neighbors"], m["total"]) for m in model])
    ctx.outcome(len(model), max(m["times"] for m in model))


class Fixed:
    """A generator with a fixed answer"""

    def __init__(self, value):
        self.value = value

    def random(self):
        return self.value


def chance(ctx):
    """An agent takes a chance if and only if the number drawn, in [0, 1), is lower than the probability"""
    p = ctx.pick([0, 0.25, 0.5, 1, 1.0, 2, -1, 1e-12])
    r = ctx.pick([0.0, 1e-13, 0.25, 0.5, 0.75, 1 - 2 ** -53, math.nextafter(0.25, 0), math.nextafter(0.5, 1)])
    env = environment.Environment()
    env.random = Fixed(r)
    ctx.note(f"probability {p}, draw {r}")
    ctx.step()
    a = agents.BaseAgent(unique_id=0, model=env)
    same(bool(a.prob(p)), r < p, f"chance with probability {p}, when {r} is drawn")
    ctx.state(p, r)
    ctx.outcome(r < p)


SCENARIOS = {"chance": chance, "sisa": sisa, "variance": variance, "epidemic": epidemic, "bass": bass, "counters": counters}
CPU_LIMIT = 120


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="chance")
    for s in STATES:
        for n in range(3 + big):
            yield dict(scenario="sisa", state=s, neighbors=n, split=3)
        for n in (3, 4, 5) if big else (3, 4):
            yield dict(scenario="sisa", state=s, neighbors=n, parts=n if n > 3 else 4, split=1)
    yield dict(scenario="variance")
    for n in (3, 4, 5, 6):
        yield dict(scenario="bass", neighbors=n, parts=n if n > 3 else 4)
    for n in range(3 + big):
        yield dict(scenario="bass", neighbors=n, split=2)
    for probs in [(1, 0, 0, 1, 0, 1, 0, 1), (0, 1, 0, 2, 2, 1, 0, 0), (0, 1, 0, 1, 0, 0, 1, 1), (0, 2, 0, 0, 0, 2, 2, 0)]:
        for sched in ("shuffled", "ordered", "pq-ordered"):
            yield dict(scenario="epidemic", n=2, directed=True, probs=probs, sched=sched, steps=1 + big, split=3)
            yield dict(scenario="epidemic", n=2, directed=False, probs=probs, sched=sched, steps=2, split=3)
            if sched == "ordered" or big:
                yield dict(scenario="epidemic", n=3, directed=False, probs=probs, sched=sched, steps=1, split=4)
    yield dict(scenario="counters", ops=5 + big, split=3)


BOUNDS = {
    "quick": "every state of an agent with 0-2 neighbors (and another agent that is not a neighbor) x all the probabilities in {0, 1/2, 1} that matter x all the "
             "draws (exact chances), and every situation of 3-4 (3-6, for Bass) neighbors with the same chances; networks of 2-3 agents for 1-2 steps, with every graph, initial state, order and draw; 5 operations with the counters",
    "thorough": "3 neighbors; 2 steps; 6 operations",
}
ASSUMPTIONS = ["numpy's normal distribution", "a probability is compared with one uniform number"]
