"""A model that uses every source of randomness of soil"""
import networkx as nx

import soil
from soil import agents, environment, report
from soil import time as stime
from soil.agents import state


class Walker(agents.Agent):
    """A network agent, with states"""
    mood = 0

    @state(default=True)
    def calm(self):
        self.mood += 1
        if self.prob(0.4):
            return self.angry
        if self.prob(0.2):
            self.model.add_node(type(self), mood=-5)
        return None

    @state
    def angry(self):
        others = self.get_neighbors(state_id="calm")
        if others:
            o = self.random.choice(others)
            o.mood -= 1
            self.add_edge(o)
        if self.prob(0.15):
            return self.die()
        return self.calm.delay(self.random.choice([0.5, 1, 2]))


class Runner(Walker):
    @state(default=True)
    def calm(self):
        self.model.broadcast(self.random.random(), sender=self)
        self.model.log_order(self)
        return self.delay(self.random.randint(1, 3))

    def on_receive(self, msg, sender=None):
        self.mood += msg


class Free(agents.EventedAgent):
    """Does not live in the network"""
    mood = 3

    def step(self):
        while True:
            self.process_messages()
            self.model.log_order(self)
            yield self.random.choice([1, 1, 2.5])

    def on_receive(self, msg, sender=None):
        self.mood = round(self.mood + msg, 6)


def custom_generator(n, seed=None):
    G = nx.erdos_renyi_graph(n, 0.4, seed=seed)
    return nx.relabel_nodes(G, {i: f"node{i}" for i in G.nodes})


def unseeded_generator(n):
    return nx.relabel_nodes(nx.path_graph(n), {i: f"node{i}" for i in range(n)})


class Rich(environment.Environment):
    size = 6
    network = "er"

    def init(self):
        self.order = []
        if self.network == "er":
            self.create_network(generator="erdos_renyi_graph", n=self.size, p=0.4)
        elif self.network == "custom":
            self.create_network(generator=custom_generator, n=self.size)
        else:
            self.create_network(generator=unseeded_generator, n=self.size)
        self.add_agent(Walker)
        self.add_node(Walker)
        self.add_agents([Walker, Runner], k=2, weights=[1, 3])
        self.populate_network([Walker, Runner], weights=[0.7, 0.3], mood=2)
        self.add_agents([Free], k=2)

    def log_order(self, agent):
        self.order.append((self.now, agent.unique_id))

    @report
    @property
    def total(self):
        return round(sum(a.mood for a in self.get_agents()), 6)


class PQRich(Rich):
    schedule_class = stime.PQueueActivation


MODELS = {"Rich": Rich, "PQRich": PQRich}


def fingerprint(env):
    """Everything that can be observed of an environment"""
    adf = env.agent_df(steps=True)
    mdf = env.model_df(steps=True)
    return dict(
        order=list(env.order),
        now=env.now,
        model={k: list(v) for (k, v) in mdf.items()},
        agents=[(tuple(map(float, i)),) + tuple(r) for (i, r) in zip(adf.index, adf.itertuples(index=False))],
        nodes=[(str(n), getattr(d.get("agent"), "unique_id", None)) for (n, d) in env.G.nodes(data=True)],
        edges=[(str(u), str(v)) for (u, v) in env.G.edges],
        classes=[(a.unique_id, type(a).__name__, a.mood) for a in env.get_agents()],
        next=env.random.random(),
    )


REPORTERS = {"mood": "mood"}


def params(variant):
    (cls, network, seed) = variant
    return MODELS[cls], dict(network=network), seed


if __name__ == "__main__":
    import json
    import sys
    import logging
    logging.disable(logging.CRITICAL)
    variants = json.loads(sys.argv[1])
    out = []
    for v in variants:
        (cls, p, seed) = params(v)
        res = soil.Simulation(name="x", model=cls, parameters=p, seed=seed, max_time=6, iterations=2, dump=False, exporters=[],
                              agent_reporters=REPORTERS).run()
        out.append([repr(fingerprint(e)) for e in res])
    print("RESULT" + json.dumps(out))
