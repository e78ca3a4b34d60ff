"""C03: death is final."""
from soil import agents, environment
from soil import time as stime
from mc.core import Violation, check, same
from mc.world import SCHEDULERS, INF, CUR, scripted, close
from .sched import World


class Mortal(World):
    """Checks what can be seen of the dead agents, at any point"""

    def audit(self, where):
        env = self.env
        live = sorted(i for i in self.agents if i not in self.dead)
        same(sorted(a.unique_id for a in env.get_agents()), live, f"agents returned by get_agents {where}")
        same(env.count_agents(), len(live), f"number of agents {where}")
        same(sorted(a.unique_id for a in env.schedule.agents), live, f"agents in the schedule {where}")
        if hasattr(env, "agents"):
            same(sorted(a.unique_id for a in env.agents), live, f"agents of the environment {where}")
        for (i, a) in self.agents.items():
            same(bool(a.alive), i not in self.dead, f"agent {i} is alive {where}")
        if hasattr(env, "G"):
            nodes = {n: d.get("agent") for (n, d) in env.G.nodes(data=True)}
            holders = sorted(a.unique_id for a in nodes.values() if a is not None)
            if self.task["kind"] == "agent":
                same(holders, live, f"agents in the network {where}")
                same(sorted(a.unique_id for a in env.network_agents), live, f"network agents {where}")
        for i in live:
            a = self.agents[i]
            same(sorted(b.unique_id for b in a.get_agents()), live, f"agents seen by agent {i} {where}")
            break

    def act(self, agent):
        self.audit(f"at {self.env.schedule.time}, before the activation of {agent.unique_id}")
        r = super().act(agent)
        self.audit(f"at {self.env.schedule.time}, after the activation of {agent.unique_id}")
        return r

    def after_step(self, prev, t, n):
        env = self.env
        live = sorted(i for i in self.agents if i not in self.dead)
        same(env.datacollector.model_vars["agent_count"][-1], len(live), f"collected number of agents at {t}")
        for i in live:
            self.rows[i] = self.rows.get(i, 0) + 1
        self.outside(t)

    def outside(self, t):
        """Something external to the agents may kill them between steps"""
        task = self.task
        if not task.get("outside") or self.kills >= task["outside"]:
            return
        live = [i for i in self.agents if i not in self.dead]
        c = self.ctx.choose(len(live) + 1, "outside")
        if c:
            i = live[c - 1]
            self.kills += 1
            self.ctx.note(f"agent {i} is killed between steps")
            self.agents[i].die()
            self.killed(i)
            self.audit("after being killed between steps")
            if task.get("twice"):
                self.agents[i].die()
                self.audit("after being killed twice")


def death(ctx):
    task = ctx.task
    Mortal.kills = 0
    Mortal.rows = {}
    w = Mortal(ctx, dict(task, params=dict(agent_reporters={"alive": "alive"})))
    w.run()
    df = w.env.agent_df(steps=True)
    for (i, n) in w.rows.items():
        got = int((df.index.get_level_values(1) == i).sum())
        same(got, n, f"steps with collected data of agent {i} (one for each step it was alive)")


def network(ctx):
    """Death in a network: the node goes too (unless told otherwise), and no neighbor sees the agent again"""
    import networkx as nx
    task = ctx.task
    env = scripted(environment.Environment, ctx, uniform=None)(schedule_class=SCHEDULERS[task["sched"]])
    G = getattr(nx, task["graph"])(task["n"])
    env.create_network(G)
    dead = set()
    acts = []

    class A(agents.Agent):
        @agents.state(default=True)
        def one(self):
            check(self.unique_id not in dead, "agent {} was activated after its death", self.unique_id)
            acts.append((self.now, self.unique_id))
            ctx.step()
            audit()
            nbs = self.get_neighbors()
            options = ["pass", "die", "stay"] + [("kill", a, r) for a in nbs for r in (True, False)]
            gone = [a for a in every if a.unique_id in dead]
            options += [("again", gone[0])] if gone else []
            options += ["uproot"]
            if len(acts) > task["k"]:
                return INF
            c = ctx.pick(options)
            ctx.note(f"t={self.now}: agent {self.unique_id} (node {self.node_id}): {c}")
            if c == "pass":
                return None
            if c == "die":
                dead.add(self.unique_id)
                nodes.pop(self.node_id)
                r = self.die()
            elif c == "uproot":
                dead.add(self.unique_id)
                nodes.pop(self.node_id)
                self.remove_node()
                r = self.die()
            elif c[0] == "again":  # It is the same as dying once
                c[1].die()
                c[1].die(remove=True)
                r = None
            elif c == "stay":
                dead.add(self.unique_id)
                r = self.die(remove=False)
            else:
                (_, a, remove) = c
                dead.add(a.unique_id)
                if remove:
                    nodes.pop(a.node_id)
                a.die(remove=remove)
                r = None
            audit()
            ctx.state(sorted(dead), sorted(nodes.items()), len(acts))
            return r

    def audit():
        live = [a for a in every if a.unique_id not in dead]
        same(sorted(env.G.nodes), sorted(nodes), "nodes in the network")
        same(sorted(a.unique_id for a in env.network_agents), sorted(a.unique_id for a in live), "network agents")
        same(env.count_agents(), len(live), "number of agents")
        if hasattr(env, "agents"):
            same(sorted(a.unique_id for a in env.agents), sorted(a.unique_id for a in live), "agents of the environment")
        for a in live:
            want = sorted(nodes[m] for m in G.neighbors(a.node_id) if m in nodes and nodes[m] not in dead)
            same(sorted(b.unique_id for b in a.get_neighbors()), want, f"neighbors of {a.unique_id}")
            same(a.count_neighbors(), len(want), f"number of neighbors of {a.unique_id}")

    env.populate_network(A)
    every = list(env.get_agents())
    nodes = {a.node_id: a.unique_id for a in every}
    audit()
    for _ in range(task["steps"]):
        if not env.running:
            break
        env.step()
        audit()
    ctx.outcome(acts, sorted(dead))


def messages(ctx):
    """Dead agents do not receive broadcasts; they may die because of a message"""
    task = ctx.task
    env = environment.Environment(schedule_class=stime.OrderedTimedActivation)
    got = {}
    dead = set()

    class A(agents.EventedAgent):
        def step(self):
            ctx.step()
            check(self.unique_id not in dead, "agent {} was activated after its death", self.unique_id)
            self.process_messages()

        def on_receive(self, msg, sender=None):
            got.setdefault(self.unique_id, []).append(msg)
            if msg == ("die", self.unique_id) and self.unique_id not in dead:
                dead.add(self.unique_id)
                self.die()

    ags = [env.add_agent(A) for i in range(3)]
    sent = {i: [] for i in range(3)}
    for k in range(task["k"]):
        op = ctx.pick([("step",), ("bcast",), ("poison", 0), ("poison", 1), ("kill", 2), ("kill", 1)])
        ctx.note(op)
        ctx.step()
        if op[0] == "step":
            env.step()
        elif op[0] == "bcast":
            env.broadcast(("msg", k))
            for i in range(3):
                if i not in dead:
                    sent[i].append(k)
        elif op[0] == "poison":
            if op[1] in dead:
                return
            ags[op[1]].tell(("die", op[1]))
        elif op[0] == "kill":
            if op[1] in dead:
                return
            dead.add(op[1])
            ags[op[1]].die()
        same(sorted(a.unique_id for a in env.get_agents()), [i for i in range(3) if i not in dead], "live agents")
        for i in dead:
            extra = [m for m in got.get(i, []) if m[0] == "msg" and m[1] not in sent[i]]
            check(not extra, "agent {} received {} after its death", i, extra)
        ctx.state(sorted(dead), sorted((k, len(v)) for (k, v) in got.items()), env.now)
    env.step()
    for i in range(3):
        if i not in dead:
            msgs = [m[1] for m in got.get(i, []) if m[0] == "msg"]
            same(msgs, sent[i], f"messages received by agent {i}")
    ctx.outcome(got, sorted(dead))


SCENARIOS = {"death": death, "network": network, "messages": messages}


def tasks(tier):
    big = tier == "thorough"

    def t(sched, kind, menu, whens, k, **kw):
        return dict(scenario="death", sched=sched, kind=kind, menu=menu, whens=whens, k=k + (1 if big else 0),
                    split=2, **kw)
    for kind in ("plain", "gen", "genret", "fsm", "fsm2", "async", "agent"):
        for s in ("ordered", "pq-ordered"):
            yield t(s, kind, "die", [None, None], 3 if kind != "agent" else 2, max_agents=3)
            yield t(s, kind, "end", [None, None], 2, outside=2, twice=True)
            yield t(s, kind, "replace", [None, None], 3 if kind != "agent" else 2, max_agents=4)
        yield t("timed", kind, "die", [None, None], 2, max_agents=3)
        yield t("pq", kind, "die", [None, None], 2 if kind != "agent" else 1, max_agents=3)
    for s in ("ordered", "pq-ordered"):
        yield t(s, "plain", "die", [None] * 3, 3, max_agents=3)
        yield t(s, "gen", "die", [None, None, 1], 3, max_agents=3)
    for s in ("ordered", "timed", "pq-ordered"):
        for (graph, n) in (("path_graph", 3), ("complete_graph", 3), ("star_graph", 2), ("empty_graph", 2)):
            yield dict(scenario="network", sched=s, graph=graph, n=n, k=(3 if s != "timed" else 2) + big, steps=8, split=2)
    yield dict(scenario="messages", k=5 + big, split=2)


BOUNDS = {
    "quick": "2-3 agents, 2-3 activations with a free choice of action, up to 2 deaths between steps, 7 kinds of agents, "
             "4 schedulers; networks with 2-3 nodes; 5 operations on 3 agents with messages",
    "thorough": "as quick, with one more free activation or operation",
}
