"""C04: a run stops exactly where it is told to."""
from itertools import product

import soil
from soil import agents, environment, simulation
from mc.core import Violation, check, same
from mc.world import SCHEDULERS, INF, CUR, scripted


class State:
    pass


def finished(model, max_time, max_steps):
    return ((not model.running)
            or (max_time is not None and model.schedule.time >= max_time)
            or (max_steps is not None and model.schedule.steps >= max_steps))


class Actor(agents.BaseAgent):
    def step(self):
        return CUR.st.act(self)


class GenActor(agents.BaseAgent):
    def step(self):
        while True:
            yield CUR.st.act(self)


class Monitored(environment.Environment):
    def init(self):
        CUR.st.model = self
        for i in range(CUR.st.n):
            self.add_agent(CUR.st.cls)
        for when in CUR.st.whens:
            self.schedule.add(CUR.st.cls(unique_id=self.next_id(), model=self), when=when)

    def step(self):
        st = CUR.st
        check(not finished(self, st.max_time, st.max_steps),
              "the model was stepped after it should have stopped: time={}, steps={}, running={} (max_time={}, max_steps={})",
              self.schedule.time, self.schedule.steps, self.running, st.max_time, st.max_steps)
        st.calls += 1
        check(st.calls < 200, "the run does not end")
        before = self.schedule.steps
        super().step()
        check(self.schedule.steps <= before + 1, "a step of the model made more than one step of the scheduler")
        st.ctx.step()
        st.ctx.state(st.k, self.schedule.time, self.schedule.steps, self.running)


def stop(ctx):
    task = ctx.task
    st = CUR.st = State()
    st.ctx = ctx
    st.n = task["n"]
    st.whens = task.get("whens", ())
    st.cls = GenActor if task.get("gen") else Actor
    st.k = task["k"]
    st.calls = 0
    st.max_time, st.max_steps = task["max_time"], task["max_steps"]
    st.acts = []
    menu = task["menu"]

    def act(agent):
        now = agent.now
        check(st.max_time is None or now < st.max_time, "agent {} was activated at {}, and the limit is {}",
              agent.unique_id, now, st.max_time)
        check(st.max_steps is None or st.model.schedule.steps < st.max_steps,
              "agent {} was activated after {} steps", agent.unique_id, st.model.schedule.steps)
        st.acts.append((now, agent.unique_id))
        st.k -= 1
        a = ctx.pick(menu) if st.k >= 0 else "inf"
        ctx.note(f"t={now}: agent {agent.unique_id}: {a}")
        if a == "inf":
            return INF
        if a == "stop":
            st.model.running = False
            return None
        if a == "die":
            return agent.die()
        return a
    st.act = act
    model = scripted(Monitored, ctx, uniform=None)
    limits = {}
    if st.max_time is not None:
        limits["max_time"] = st.max_time
    if st.max_steps is not None:
        limits["max_steps"] = st.max_steps
    via = task.get("via", "sim")
    sched = dict(parameters=dict(schedule_class=SCHEDULERS[task["sched"]]))
    common = dict(dump=False, exporters=[])
    if via == "sim":
        res = simulation.Simulation(name="s", model=model, **limits, **sched, **common).run()
    elif via == "run-kwargs":
        sim = simulation.Simulation(name="s", model=model, max_time=0.25, max_steps=1, **sched, **common)
        res = sim.run(**dict(dict(max_time=None, max_steps=None), **limits))
        same((sim.max_time, sim.max_steps), (0.25, 1), "limits of the original simulation")
    elif via == "env":
        res = model.run(**limits, **sched, **common)
    else:
        res = soil.run(model, exporters=[], **limits, **sched)
    same(len(res), 1, "number of results")
    check(res[0] is st.model, "the environment that was run is not the one returned")
    m = res[0]
    check(finished(m, st.max_time, st.max_steps),
          "the run ended too soon: time={}, steps={}, running={} (max_time={}, max_steps={})",
          m.schedule.time, m.schedule.steps, m.running, st.max_time, st.max_steps)
    rows = m.datacollector.model_vars["time"]
    same(len(rows), st.calls + 1, "rows of collected data (one per step and the initial one)")
    ctx.outcome(st.acts, m.schedule.time, m.schedule.steps)


class Empty(environment.Environment):
    def step(self):
        raise Violation("a model without agents was stepped")


def empty(ctx):
    """Models without agents are rejected, whatever the limits"""
    limits = {}
    for (k, options) in (("max_time", [None, 0, 3]), ("max_steps", [None, 0, 3])):
        v = ctx.pick(options)
        if v is not None:
            limits[k] = v
    ctx.step()
    ctx.state(sorted(limits.items()))
    try:
        simulation.Simulation(name="s", model=Empty, dump=False, exporters=[], **limits).run()
    except Violation:
        raise
    except Exception:
        return
    raise Violation("a model without agents was accepted")


SCENARIOS = {"stop": stop, "empty": empty}


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="empty")
    menu = [None, 0.5, 2, "inf", "stop", "die"]
    times = [None, 0, 0.5, 1, 2, 2.5, 3, 5]
    steps = [None, 0, 1, 2, 3, 4]
    for (mt, ms) in product(times, steps):
        for s in ("ordered", "pq-ordered"):
            yield dict(scenario="stop", sched=s, n=2, k=3 + big, menu=menu, max_time=mt, max_steps=ms)
            yield dict(scenario="stop", sched=s, n=1, k=4 + big, menu=menu, max_time=mt, max_steps=ms, gen=True)
        for via in ("run-kwargs", "env", "soil"):
            yield dict(scenario="stop", sched="ordered", n=1, k=2 + big, menu=menu, max_time=mt, max_steps=ms, via=via)
        yield dict(scenario="stop", sched="timed", n=2, k=2 + big, menu=menu, max_time=mt, max_steps=ms)
    # Limits that are very close to an activation
    for mt in (1, 1 + 1e-7, 1 + 2e-7, 1 - 1e-7, 1e-7, 2e-7):
        for ms in (None, 3):
            for s in ("ordered", "pq-ordered"):
                yield dict(scenario="stop", sched=s, n=2, k=3 + big, menu=[None, 1e-7, "inf"], max_time=mt, max_steps=ms)
    # Agents that start later
    for (mt, ms) in product([None, 0, 1, 2, 3, 4.5], steps):
        for (n, whens) in ((0, (3,)), (1, (2,)), (0, (0.5, 3)), (0, (1, 1))):
            for s in ("ordered", "pq-ordered", "timed"):
                yield dict(scenario="stop", sched=s, n=n, whens=whens, k=2 + big, menu=menu, max_time=mt, max_steps=ms)
    for mt in (1, 2, 3.5, None):
        for ms in (2, 3, None):
            yield dict(scenario="stop", sched="ordered", n=3, k=4 + big, menu=[None, 2, "inf", "stop"], max_time=mt, max_steps=ms)


BOUNDS = {
    "quick": "1-3 agents, 2-4 activations with a free choice among 6 actions (including stopping the model), 8 maximum times x "
             "6 maximum numbers of steps, 3 schedulers, 4 ways to run a simulation; agents that start later than the model",
    "thorough": "as quick, with one more free activation",
}
ASSUMPTIONS = ["limits are checked between steps: all the activations of an instant belong to the same step"]
