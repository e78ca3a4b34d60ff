"""C14: the collected data mirrors the model."""
import math

import pandas as pd
import soil
from soil import agents, environment, report, simulation
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted, SCHEDULERS


class S:
    pass


class Red(agents.Agent):
    value = 0

    @agents.state(default=True)
    def one(self):
        return CUR.st.act(self)

    @agents.state
    def two(self):
        return CUR.st.act(self)


class Blue(agents.BaseAgent):
    value = 100
    special = "s"

    def step(self):
        return CUR.st.act(self)


class Navy(Blue):
    value = 50


class Crimson(Red):
    @agents.state
    def three(self):
        return INF


CLASSES = {"R": Red, "B": Blue, "N": Navy, "C": Crimson}


class World(environment.Environment):
    level = 0

    def init(self):
        st = CUR.st
        st.env = self
        self.add_model_reporter("level")
        self.add_model_reporter("double", lambda m: m.level * 2)
        self.add_model_reporter("plus", [plus, [3]])
        self.add_agent_reporter("value")
        self.add_agent_reporter("half", lambda a: a.value / 2)
        self.add_agent_reporter("blue_only", "value", agent_type=Blue)
        self.add_agent_reporter("red_state", lambda a: a.state_id, agent_type=Red)
        self.add_agent_reporter("special")
        self.add_agent_reporter("navy", lambda a: a.value, agent_type=Navy)
        self.add_agent_reporter("several", "value", agent_type=(Navy, Red))
        for c in st.start:
            self.add_agent(CLASSES[c])

    @report
    @property
    def live(self):
        return sum(1 for _ in self.get_agents())

    @report
    def method(self):
        return self.level + 1000

    def not_reported(self):
        raise AssertionError("this is not a reporter")


class SubWorld(World):
    @report
    @property
    def own(self):
        return "own"


def plus(a, b=None):
    # mesa calls it with the arguments given
    return CUR.st.env.level + a


def record(env):
    """One row, with what the reporters should see now"""
    st = CUR.st
    row = dict(level=env.level, double=env.level * 2, plus=env.level + 3, live=len(st.live()), method=env.level + 1000,
               agent_count=len(st.live()) + (100 if st.count else 0), time=env.schedule.time, sim=env.level - 1)
    if isinstance(env, SubWorld):
        row["own"] = "own"
    ags = {}
    for a in st.live():
        ags[a.unique_id] = dict(value=a.value, half=a.value / 2, blue_only=a.value if isinstance(a, Blue) else None,
                                red_state=a.state_id if isinstance(a, Red) else None, simval=a.value + 1,
                                special="s" if isinstance(a, Blue) else None, navy=a.value if isinstance(a, Navy) else None,
                                several=a.value if isinstance(a, (Navy, Red)) else None)
    return row, ags


def eq(a, b):
    if a is None or (isinstance(a, float) and math.isnan(a)):
        return b is None or (isinstance(b, float) and math.isnan(b))
    return a == b


def run(ctx):
    task = ctx.task
    st = CUR.st = S()
    st.start = task["start"]
    st.count = task.get("count")
    st.dead = set()
    st.agents = {}
    left = [task["k"]]

    def live():
        return [a for a in st.env.get_agents() if a.alive]
    st.live = live

    def act(agent):
        ctx.step()
        left[0] -= 1
        if left[0] < 0:
            return INF
        env = st.env
        op = ctx.pick(task["ops"])
        ctx.note(f"t={agent.now}: agent {agent.unique_id}: {op}")
        if op == "none":
            return None
        if op == "value":
            agent.value += 1
            return 1
        if op == "level":
            env.level += 1
            return 2
        if op == "birth-red":
            env.add_agent(Red, value=7)
            return 1
        if op == "birth-blue":
            env.add_agent(Blue)
            return 0.5
        if op == "die":
            return agent.die()
        if op == "other":
            for a in live():
                a.value -= 3
            return 1
        if op == "state":
            if isinstance(agent, Red):
                return agent.two if agent.state_id == "one" else agent.one.delay(2)
            raise Prune()
        if op == "table":
            rows.append({"who": agent.unique_id, "when": agent.now})
            env.datacollector.add_table_row("events", {"who": agent.unique_id, "when": agent.now})
            return 1
        if op == "stop":
            env.running = False
            return 1
        raise AssertionError(op)
    st.act = act
    rows = []
    base = {"World": World, "SubWorld": SubWorld}[task.get("model", "World")]
    expected = []

    model_reporters = {"sim": lambda m: m.level - 1}
    if task.get("count"):  # Instead of the usual one
        model_reporters["agent_count"] = lambda m: 100 + len(st.live())
    agent_reporters = {"simval": lambda a: a.value + 1}
    if task["how"] == "env":
        env = scripted(base, ctx, uniform=(0.0,))(schedule_class=SCHEDULERS[task["sched"]], model_reporters=model_reporters,
                                                  agent_reporters=agent_reporters, tables={"events": ["who", "when"]})
        expected.append(record(env))
        n = 0
        while env.running and n < 15:
            env.step()
            expected.append(record(env))
            n += 1
            if task.get("between") and n == 1:
                c = ctx.pick(["none", "level", "birth", "kill"])
                ctx.note("between steps:", c)
                if c == "level":
                    env.level += 5
                elif c == "birth":
                    env.add_agent(Red)
                elif c == "kill" and live():
                    live()[0].die()
    else:
        class Logged(scripted(base, ctx, uniform=(0.0,))):
            def init(self):
                super().init()
                expected.append(record(self))

            def step(self):
                super().step()
                expected.append(record(self))
        params = dict(schedule_class=SCHEDULERS[task["sched"]])
        kw = dict(tables={"events": ["who", "when"]})
        if task["how"] == "params":
            params.update(model_reporters=model_reporters, agent_reporters=agent_reporters)
        else:
            kw.update(model_reporters=model_reporters, agent_reporters=agent_reporters)
        (env,) = simulation.Simulation(name="s", model=Logged, parameters=params, dump=False, exporters=[], max_time=8, **kw).run()
    compare(env, expected, rows)
    ctx.state([r for (r, _) in expected], env.now)
    ctx.outcome(repr(expected))


def compare(env, expected, rows):
    for (what, df) in (("get_model_vars_dataframe", env.datacollector.get_model_vars_dataframe()), ("model_df(steps)", env.model_df(steps=True))):
        same(len(df), len(expected), f"rows of {what} (one per step, and the initial one)")
        same(sorted(df.columns), sorted(expected[0][0]), f"columns of {what}")
        for (i, (row, _)) in enumerate(expected):
            for (k, v) in row.items():
                got = df[k].iloc[i]
                check(eq(got, v), "{}: {} in row {}: got {}, expected {}", what, k, i, got, v)
    df = env.model_df()
    same(list(df.index), [float(r["time"]) for (r, _) in expected], "times of model_df")
    same(list(df["step"]), list(range(len(expected))), "steps of model_df")
    for (i, (row, _)) in enumerate(expected):
        for (k, v) in row.items():
            if k != "time":
                check(eq(df[k].iloc[i], v), "model_df: {} in row {}: got {}, expected {}", k, i, df[k].iloc[i], v)
    for steps in (True, False):
        df = env.agent_df(steps=steps)
        want = []
        for (i, (row, ags)) in enumerate(expected):
            for (u, vals) in ags.items():
                want.append(((i if steps else row["time"], u), vals))
        same(sorted((float(a), b) for (a, b) in df.index), sorted((float(k[0]), k[1]) for (k, _) in want),
             f"index of agent_df (steps={steps})")
        same(list(df.index.names), ["step" if steps else "time", "agent_id"], "names of the index of agent_df")
        if want:
            same(sorted(df.columns), sorted(want[0][1]), "columns of agent_df")
        # rows of the same time are in the order of the steps
        got = sorted(zip([(float(a), b) for (a, b) in df.index], range(len(df))))
        exp = sorted(((float(k[0]), k[1]), n) for (n, (k, _)) in enumerate(want))
        for ((k, gi), (k2, wi)) in zip(got, exp):
            for (name, v) in want[wi][1].items():
                check(eq(df[name].iloc[gi], v), "agent_df(steps={}): {} of {}: got {}, expected {}", steps, name, k, df[name].iloc[gi], v)
    t = env.datacollector.get_table_dataframe("events")
    same([dict(r) for (_, r) in t.iterrows()], rows, "rows of the table")


SCENARIOS = {"run": run}


def tasks(tier):
    big = tier == "thorough"
    ops = ["none", "value", "level", "birth-red", "birth-blue", "die", "other", "state", "table", "stop"]
    few = ["value", "level", "birth-blue", "die", "state"]
    for how in ("env", "sim", "params"):
        for s in ("ordered", "pq-ordered"):
            yield dict(scenario="run", how=how, sched=s, start="RB", k=2 + big, ops=ops, split=1)
        yield dict(scenario="run", how=how, sched="ordered", start="R", k=3, ops=few, split=1)
        yield dict(scenario="run", how=how, sched="ordered", start="B", k=2, ops=ops, model="SubWorld")
        yield dict(scenario="run", how=how, sched="ordered", start="BR", k=2, ops=few, count=True)
    for start in ("CN", "NB", "RC"):
        yield dict(scenario="run", how="sim", sched="ordered", start=start, k=2, ops=few)
    yield dict(scenario="run", how="env", sched="ordered", start="", k=1, ops=ops, between=True)
    yield dict(scenario="run", how="env", sched="ordered", start="RB", k=2, ops=few, between=True, split=1)
    yield dict(scenario="run", how="env", sched="timed", start="RB", k=1 + big, ops=ops, split=1)
    yield dict(scenario="run", how="env", sched="ordered", start="RBR", k=3 + big, ops=["value", "die", "level", "birth-red"], split=2)


BOUNDS = {
    "quick": "1-3 agents, 2-3 activations with a free choice among 10 actions, changes between steps, 3 ways to define the reporters, 3 schedulers",
    "thorough": "as quick, with one more free activation",
}
ASSUMPTIONS = ["data is collected after each step of the model, and when it is created"]
