"""C12: every configuration, every iteration, exactly once."""
from itertools import product
import ast
import os

import soil
from soil import agents, environment, exporters, simulation
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR


class S:
    pass


class Once(agents.BaseAgent):
    def step(self):
        CUR.st.acts.append(self.model)
        return INF


class Recorded(environment.Environment):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        own = ("id", "seed", "dir_path", "logger", "agent_reporters", "model_reporters", "tables")
        CUR.st.built.append((self, {k: v for (k, v) in kwargs.items() if k not in own}))

    def init(self):
        self.add_agent(Once)


class Recorder(exporters.Exporter):
    tag = "one"

    def sim_start(self, *args, **kwargs):
        CUR.st.calls.append((self.tag, "start", len(CUR.st.built)))

    def sim_end(self, *args, **kwargs):
        CUR.st.calls.append((self.tag, "end", len(CUR.st.built)))

    def iteration_start(self, env, *args, **kwargs):
        CUR.st.calls.append((self.tag, "begins", env, env.schedule.steps, len(CUR.st.acts), [CUR.st.built[-1][0] is env]))

    def iteration_end(self, env, params, params_id, *args, **kwargs):
        CUR.st.calls.append((self.tag, "iteration", env, params, params_id, env.running, len(CUR.st.acts)))


class Recorder2(Recorder):
    tag = "two"


def configurations(parameters, matrix):
    res = []
    if parameters:
        res.append(dict(parameters))
    if matrix:
        names = list(matrix)
        res += [dict(zip(names, vs)) for vs in product(*matrix.values())]
    return res or [{}]


def literal(d):
    """The dictionaries that cannot be in a JSON file (e.g., those with sets) are given as text"""
    return ast.literal_eval(d) if isinstance(d, str) else dict(d)


def run(ctx):
    task = ctx.task
    st = CUR.st = S()
    st.built, st.calls, st.acts = [], [], []
    parameters = literal(ctx.pick(task["parameters"]))
    matrix = literal(ctx.pick(task["matrices"]))
    iterations = ctx.pick(task["iterations"])
    exps = ctx.pick(task["exporters"])
    dry = task.get("dry", False)
    ctx.note(parameters, matrix, iterations, exps)
    classes = {"one": Recorder, "two": Recorder2}
    kw = dict(name="sim", model=Recorded, parameters=dict(parameters), matrix={k: list(v) for (k, v) in matrix.items()},
              iterations=iterations, exporters=[classes[e] for e in exps], dump=False, dry_run=dry)
    how = task.get("how", "run")
    if how == "run":
        sim = simulation.Simulation(**kw)
        res = sim.run()
    elif how == "override":
        wanted = {k: kw.pop(k) for k in ("parameters", "matrix", "iterations")}
        sim = simulation.Simulation(**kw, parameters={"z": 9}, matrix={"z": [1, 2]}, iterations=4)
        res = sim.run(**wanted)
        same((sim.parameters, sim.matrix, sim.iterations), ({"z": 9}, {"z": [1, 2]}, 4), "the original simulation")
    elif how == "twice":
        sim = simulation.Simulation(**kw)
        first = sim.run()
        ids = [c[4] for c in st.calls if c[1] == "iteration"]
        st.built, st.calls, st.acts = [], [], []
        res = sim.run()
        same([c[4] for c in st.calls if c[1] == "iteration"], ids, "identifiers of the configurations, in another run")
        check(not any(a is b for a in first for b in res), "environments of the first run, in the second one")
    elif how == "env":
        kw.pop("model")
        res = Recorded.run(**kw)
        sim = None
    elif how == "soil":
        kw.pop("model")
        kw.pop("dry_run")
        res = soil.run(Recorded, **kw)
        sim = None
    if sim is not None and how != "override":
        same((sim.parameters, sim.matrix, sim.iterations), (kw["parameters"], kw["matrix"], iterations), "the simulation, afterwards")
        same((kw["parameters"], kw["matrix"]), (parameters, {k: list(v) for (k, v) in matrix.items()}), "the arguments, afterwards")
    configs = configurations(parameters, matrix)
    want = [c for c in configs for _ in range(iterations)]
    if dry:
        want = []
        same(st.built, [], "environments built in a dry run")
    ctx.step(len(want) + 1)
    same([p for (_, p) in st.built], want, "parameters of the environments, in order")
    same(len(res), len(want), "number of results")
    for (i, (r, (e, _))) in enumerate(zip(res, st.built)):
        check(r is e, "result {} is not the environment that was run", i)
        for (k, v) in want[i].items():
            same(r[k], v, f"parameter {k} of the environment {i}")
        same(sum(1 for m in st.acts if m is e), 1, f"activations in the environment {i}")
    same([e.id for (e, _) in st.built], [str(i) for c in configs for i in range(iterations)] if not dry else [], "ids of the iterations")
    ids = {}
    for e in exps:
        mine = [c for c in st.calls if c[0] == e]
        same([c[1] for c in mine], ["start"] + ["begins", "iteration"] * len(want) + ["end"], f"calls to the exporter {e}")
        same(mine[0][2], 0, "environments built before the start of the simulation")
        same(mine[-1][2], len(want), "environments built before the end of the simulation")
        for (i, c) in enumerate(mine[1:-1:2]):
            check(c[2] is st.built[i][0], "start of the iteration {}: the exporter got {}", i, c[2])
            same(c[3:], (0, i, [True]), f"steps, activations and environment at the start of the iteration {i}")
        for (i, c) in enumerate(mine[2:-1:2]):
            check(c[2] is st.built[i][0], "iteration {}: the exporter got {}", i, c[2])
            same(dict(c[3]), want[i], f"parameters given to the exporter in the iteration {i}")
            check(not c[5] and c[6] >= i + 1, "the exporter was called before the end of the iteration {}", i)
            key = repr(sorted(want[i].items()))
            same(ids.setdefault(key, c[4]), c[4], f"identifier of the configuration {want[i]}")
    check(len(set(ids.values())) == len(ids), "different configurations with the same identifier: {}", ids)
    # The identifier does not depend on the rest of the simulation
    for (k, v) in ids.items():
        same(IDS.setdefault(k, v), v, f"identifier of the configuration {k}, in a different simulation")
    ctx.state(sorted(parameters.items()), repr(matrix), iterations)
    ctx.outcome(ids, iterations)


IDS = {}


class Marked(exporters.Exporter):
    def __init__(self, *args, mark=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.mark = mark
        CUR.st.made.append(self)

    def sim_start(self):
        CUR.st.calls.append(("start", self))

    def iteration_start(self, env):
        CUR.st.calls.append(("begins", self))

    def iteration_end(self, env, params, params_id):
        CUR.st.calls.append(("iteration", self))

    def sim_end(self):
        CUR.st.calls.append(("end", self))


def Inside(*args, **kwargs):
    """Used through the default exporter, which accepts other exporters"""
    return exporters.default(*args, exporter_cls=[Marked], **kwargs)


def exporter(ctx):
    """What each exporter is given: the simulation, the output folder, whether to dump, and its parameters"""
    st = CUR.st = S()
    st.built, st.calls, st.acts, st.made = [], [], [], []
    dump, dry = ctx.choose(2) == 1, ctx.choose(2) == 1
    params = ctx.pick([{}, {"mark": 0}, {"mark": [1]}])
    n = ctx.choose(3)
    given = [Marked, f"{__name__}.Marked", Inside][ctx.choose(3)]
    runs = 1 + ctx.choose(2)
    outdir = "/nonexistent/place"
    ctx.note(dump, dry, params, n, given, runs)
    sim = simulation.Simulation(name="sim", group=ctx.pick([None, "g"]), model=Recorded, exporters=[given] * n, exporter_params=dict(params), dump=dump,
                                dry_run=dry, outdir=outdir, parameters={"a": 1}, iterations=2)
    ctx.step()
    for _ in range(runs):
        sim.run()
    same(len(st.made), n * runs, "number of exporters")
    for e in st.made:
        check(e.simulation is sim, "the simulation of the exporter")
        same(e.mark, params.get("mark"), "parameter of the exporter")
        same(e.dump, dump and not dry, "whether the exporter should dump its data")
        same(os.path.normpath(e.outdir), os.path.normpath(os.path.join(outdir, sim.group or "", "sim")), "folder of the exporter")
        same([c for (c, x) in st.calls if x is e], ["start"] + ["begins", "iteration"] * (0 if dry else 2) + ["end"], "calls to the exporter")
    same(sim.exporter_params, params, "parameters of the exporters, afterwards")
    same(list(sim.exporters), [given] * n, "exporters of the simulation, afterwards")
    ctx.state(dump, dry, repr(params), n, runs)
    ctx.outcome(len(st.calls))


SCENARIOS = {"run": run, "exporter": exporter}


def tasks(tier):
    big = tier == "thorough"
    P = [{}, {"a": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": [1, 2], "c": {"x": 1}}, {"a": 0, "b": None}, {"a": "1"}, '{"a": {3, 1}, "b": (1, 2), "c": 1.5, "d": b"x"}',
         {"num_processes": 2, "a": 1}, {"func": 1, "iterable": [1, 2], "num_processes": 0}]
    M = [{}, {"a": [1]}, {"a": [1, 2]}, {"a": [1, 2], "b": [3, 4]}, {"b": [3, 4], "a": [2, 1]}, {"a": [1, 2, 3], "b": ["x"], "d": [0, None]},
         {"a": [True, 0, ""]}, {"a": [1, "1", 1.5]}, '{"a": [(1, 2), {2, 1}, (2, 1), ()], "b": [{"k": (1,)}]}',
         {"num_processes": [1, 2], "func": [None]}]
    for how in ("run", "override", "twice", "env", "soil"):
        few = how != "run" and not big
        for m in M:
            yield dict(scenario="run", how=how, parameters=P if not few else P[:4], matrices=[m],
                       iterations=[0, 1, 2, 3] if how in ("run", "soil") else [1, 2],
                       exporters=[[], ["one"], ["one", "two"]] if how != "twice" else [["one"]])
    for m in M:
        yield dict(scenario="run", how="run", dry=True, parameters=P, matrices=[m], iterations=[1, 2], exporters=[["one", "two"]])
    yield dict(scenario="exporter", split=2)
    if big:
        yield dict(scenario="run", how="run", parameters=P, matrices=[{"a": list(range(5)), "b": list(range(5)), "c": [0, 1, 2]}],
                   iterations=[1, 3], exporters=[["one"]])


BOUNDS = {
    "quick": "10 dictionaries of parameters x 10 matrices (up to 3 parameters with 3 values) x up to 3 iterations x up to 2 exporters x 5 ways "
             "to run them, and dry runs",
    "thorough": "as quick, with every combination in all the ways to run them, and a matrix with 75 combinations",
}
ASSUMPTIONS = ["the combinations of the matrix do not include the explicit parameters, which are a configuration of their own (this is what the "
               "code does)", "parameters called as the arguments of the environment that the simulation sets (id, seed...) are not covered"]
