"""C19: loading a file finds its simulations, without running them or leaving anything behind."""
import copy
import gc
import os
import shutil
import sys
from itertools import product

import soil
import yaml
from soil import agents, environment, serialization, simulation
from mc.core import Violation, check, same, Prune
from mc.world import CUR, INF


class Idle(agents.BaseAgent):
    def step(self):
        return INF


class Model(environment.Environment):
    x = 0
    y = 0

    def init(self):
        CUR.built.append(self)
        self.add_agent(Idle)


class Probe(environment.Environment):
    def init(self):
        self.add_agent(Idle)


def runs_normally():
    """A simulation is run, and only that one"""
    keep = list(sys.path)
    (env,) = simulation.Simulation(name="probe", model=Probe, max_steps=1, dump=False, exporters=[]).run()
    same(env.schedule.steps, 1, "steps of a simulation that is run afterwards")
    sys.path[:] = keep


def sampler(problem, N=2, **kwargs):
    """Deterministic version of the samplers of SALib"""
    CUR.sampled.append((problem, N, kwargs))
    return [[lo + (hi - lo) * i / N for (lo, hi) in problem["bounds"]] for i in range(N)]


# What a file may have. Each statement: (text, simulations it defines, simulations it queues, classes)
STATEMENTS = {
    "named": ("{v} = Simulation(name='named{i}', model=_c.Model, parameters=dict(x={i}), max_time=3, dump=False, exporters=[])\n", True),
    "run": ("Simulation(name='run{i}', model=_c.Model, parameters=dict(x={i}), max_time=3, dump=False, exporters=[]).run()\n", True),
    "override": ("Simulation(name='over{i}', model=_c.Model, max_time=3, dump=False, exporters=[]).run(iterations=2, parameters=dict(y={i}))\n", True),
    "matrix": ("Simulation(name='matrix{i}', model=_c.Model, matrix=dict(x=[{i}, 20], y=[1, 2]), max_time=3, dump=False, exporters=[]).run()\n", True),
    "both": ("Simulation(name='both{i}', model=_c.Model, parameters=dict(x=9), matrix=dict(y=[{i}]), max_time=3, dump=False, exporters=[]).run()\n", True),
    "bound": ("{v} = Simulation(name='bound{i}', model=_c.Model, parameters=dict(x={i}), max_time=3, dump=False, exporters=[])\n"
              "res{i} = {v}.run()\n", True),
    "alias": ("{v} = {v}b = Simulation(name='alias{i}', model=_c.Model, matrix=dict(x=[{i}, 5]), max_time=3, dump=False, exporters=[])\n"
              "if {i} % 2:\n    {v}b.run()\n", True),
    "twins": ("{v} = Simulation(name='twin', model=_c.Model, parameters=dict(x=7), max_time=3, dump=False, exporters=[])\n"
              "{v}c = Simulation(name='twin', model=_c.Model, parameters=dict(x=7), max_time=3, dump=False, exporters=[])\n", True),
    "twinrun": ("{v} = Simulation(name='twin', model=_c.Model, parameters=dict(x=6), max_time=3, dump=False, exporters=[])\n"
                "Simulation(name='twin', model=_c.Model, parameters=dict(x=6), max_time=3, dump=False, exporters=[]).run()\n", True),
    "class": ("class Env{i}(Environment):\n    kind = {i}\n    def init(self):\n        CUR.built.append(self)\n        self.add_agent(Idle)\n", False),
    "helper": ("import helper_{i}\nassert helper_{i}.VALUE == {i}\n", False),
    "guarded": ("if __name__ == '__main__':\n    raise SystemExit('it was run as the main program')\n", False),
    "main": ("VALUES = [Simulation, Environment, None]\ndef function():\n    return Simulation(name='no')\n", False),
    "fail": ("raise RuntimeError('cannot be loaded')\n", False),
    "exit": ("raise SystemExit(3)\n", False),
}
HEADER = f"from soil import Simulation, Environment, BaseAgent\nfrom mc.world import CUR\nimport {__name__} as _c\nfrom {__name__} import Idle\n"


NAMED = ("named", "bound", "alias", "twins")


def run_of(kind, i):
    """(name, configurations, iterations) that result from a statement"""
    return {
        "named": [("named", [dict(x=i)], 1)],
        "bound": [("bound", [dict(x=i)], 1)],
        "alias": [("alias", [dict(x=i), dict(x=5)], 1)],
        "twins": [("twin", [dict(x=7)], 1)] * 2,
        "twinrun": [("twin", [dict(x=6)], 1)],
        "run": [("run", [dict(x=i)], 1)],
        "override": [("over", [dict(y=i)], 2)],
        "matrix": [("matrix", [c], 1) for c in (dict(x=i, y=1), dict(x=i, y=2), dict(x=20, y=1), dict(x=20, y=2))],
        "both": [("both", [c], 1) for c in (dict(x=9), dict(y=i))],
    }.get(kind, [])


def write(folder, kinds):
    """A Python file with these statements"""
    text = HEADER
    for (i, k) in enumerate(kinds):
        text += STATEMENTS[k][0].format(v=f"sim{i}", i=i)
        if k == "helper":
            with open(os.path.join(folder, f"helper_{i}.py"), "w") as f:
                f.write(f"VALUE = {i}\n")
    return text


def expected(kinds):
    """The simulations of a file: the named ones first, then those that it runs; if there are none, one for each class"""
    named = [(n + (str(i) if n != "twin" else ""), cs, it) for (i, k) in enumerate(kinds) for (n, cs, it) in run_of(k, i) if k in NAMED or k == "twinrun"]
    queued = [(n + (str(i) if n != "twin" else ""), cs, it) for (i, k) in enumerate(kinds) for (n, cs, it) in run_of(k, i) if k not in NAMED]
    if named or queued:
        return named + queued, False
    classes = [(f"Env{i}", [{}], 1) for (i, k) in enumerate(kinds) if k == "class"]
    return classes, True


def describe(env):
    return {k: getattr(env, k) for k in ("x", "y", "kind") if getattr(env, k, 0)}


def python(ctx):
    """A sequence of files: each one is loaded on its own"""
    task = ctx.task
    folder = os.path.join(ctx.scratch, "files")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    os.chdir(folder)
    sys.dont_write_bytecode = True
    path0 = list(sys.path)
    try:
        CUR.built = []
        mods0 = set(sys.modules)
        for n in range(task["files"]):
            sub = os.path.join(folder, f"dir{n}")
            os.makedirs(sub)
            kinds = []
            for i in range(ctx.choose(task["len"]) + 1 if not task.get("exact") else task["len"]):
                kinds.append(ctx.pick(task["kinds"]))
            if kinds.count("helper") > 1 or sorted(kinds[:1]) == ["guarded"] and len(kinds) > 2:
                raise Prune()
            name = os.path.join(sub, "conf.py")
            sys.path[:] = path0
            if task.get("known"):  # The folder may be one of those of the user
                sys.path.insert(len(path0) if task["known"] == "last" else 0, sub)
            path1 = list(sys.path)
            with open(name, "w") as f:
                f.write(write(sub, kinds))
            if task.get("relative"):
                os.chdir(sub)
                name = "conf.py"
            extra = task.get("extra") or {}
            ctx.note("file", n, kinds)
            ctx.step()
            (want, classes) = expected(kinds)
            bad = next((k for k in kinds if k in ("fail", "exit")), None)
            how = task["how"]
            try:
                if how == "from_file":
                    sims = simulation.from_file(name, **extra)
                elif how == "iter":
                    sims = list(simulation.iter_from_py(name, **extra))
                else:
                    sims = [simulation.from_py(name)]
                    want = want[:1]
            except RuntimeError as ex:
                same(bad, "fail", f"the file cannot be loaded ({ex})")
                sims = None
            except SystemExit as ex:
                same((bad, ex.code), ("exit", 3), "exit of the file")
                sims = None
            except AttributeError as ex:
                same(want, [], f"simulations of the file, which could not be loaded ({ex})")
                check(bad is None, "a different error is reported: {}", ex)
                sims = []
            else:
                check(bad is None, "the failure of the file is not reported")
                check(want, "the file has no simulations, but it was loaded: {}", [s.name for s in sims])
            # Nothing was run, and nothing is left
            same(CUR.built, [], "environments created when the file was loaded")
            same(sys.path, path1, "sys.path")
            left = sorted(m for m in set(sys.modules) - mods0 if not m.startswith("helper_"))
            mine = [m for m in sys.modules if not m.startswith("helper_") and
                    (str(getattr(sys.modules[m], "__file__", None)).startswith(folder) or
                     str(getattr(getattr(sys.modules[m], "__spec__", None), "origin", None)).startswith(folder))]
            left += [m for m in mine if m not in left]
            for m in mine:
                del sys.modules[m]
            same(mine, [], "modules left")
            runs_normally()
            for m in left:
                sys.modules.pop(m, None)
            for m in [m for m in sys.modules if m.startswith("helper_")]:
                sys.modules.pop(m)
            # They can be run
            if sims is None:
                continue
            same([s.name for s in sims], [w[0] for w in want], "simulations found")
            for (s, (name, confs, its)) in zip(sims, want):
                if classes:
                    confs = [dict(kind=int(name[3:]))] if name != "Env0" else [{}]
                its = extra.get("iterations", its)
                same(s.max_time, extra.get("max_time", None if classes else 3), "limit")
                res = s.run(dump=False, exporters=[])
                same([describe(e) for e in res], [{k: v for (k, v) in c.items() if v} for c in confs for i in range(its)], f"configurations run by {name}")
                same([id(e) for e in CUR.built], [id(e) for e in res], "environments created")
                del CUR.built[:]
            ctx.state(kinds, n)
        ctx.outcome(len(sims or []))
    finally:
        sys.path[:] = path0
        os.chdir(ctx.scratch)
        shutil.rmtree(folder, ignore_errors=True)


def template(ctx):
    """A template in a file: one configuration for each combination of the values and each sample"""
    folder = os.path.join(ctx.scratch, "files")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    CUR.built, CUR.sampled = [], []
    nb = 1 + ctx.choose(2)
    bounds = {"ab"[i]: [i, i + 1] for i in range(nb)}
    lists = {}
    for i in range(ctx.choose(3)):
        lists["cd"[i]] = [["u", "v"], [7], ["u", "u"], [1, 1.0, True]][ctx.choose(4)]
    N = 1 + ctx.choose(3)
    tpl = {"model": f"{__name__}.Model", "group": "g", "max_time": 2, "dump": False, "exporters": [],
           "parameters": {"x": "{{ a }}", "y": "{{ c }}" if "c" in lists else 3}}
    if ctx.choose(2):
        tpl = yaml.dump(tpl)
    conf = {"template": tpl, "sampler": {"method": f"{__name__}.sampler", "N": N}, "vars": {"bounds": bounds}}
    if lists:
        conf["vars"]["lists"] = lists
    other = {"model": f"{__name__}.Model", "name": "plain"}
    order = ctx.choose(3)
    docs = [[conf], [conf, other], [other, conf]][order]
    path = os.path.join(folder, "t.yml")
    with open(path, "w") as f:
        yaml.dump_all(docs, f)
    ctx.step()
    ctx.note(docs)
    keep = list(sys.path)
    sims = simulation.from_file(path) if ctx.choose(2) else list(simulation.iter_from_config(path))
    sys.path[:] = keep
    same(CUR.built, [], "environments created when the file was loaded")
    samples = [[lo + (hi - lo) * i / N for (lo, hi) in bounds.values()] for i in range(N)]
    want = []
    for combo in product(*lists.values()):
        for s in samples:
            v = dict(zip(lists, combo))
            v.update(zip(bounds, s))
            want.append((f"{v['a']}", f"{v['c']}" if "c" in lists else "3"))
    got = [(str(s.parameters["x"]), str(s.parameters["y"])) for s in sims if s.name != "plain"]
    same(got, want, "configurations of the template")
    same([i for (i, s) in enumerate(sims) if s.name == "plain"], [] if order == 0 else [len(want)] if order == 1 else [0], "position of the other simulation")
    for s in sims:
        check(s.model is Model, "model of a template")
        if s.name != "plain":
            same((s.group, s.max_time, s.dir_path), ("g", 2, folder), "values of the template")
    # The configuration can be used again
    again = copy.deepcopy(conf)
    first = list(serialization.expand_template(again))
    same(again, conf, "configuration of a template, after expanding it")
    same(list(serialization.expand_template(again)), first, "expanding a template again")
    same([(str(c["parameters"]["x"]), str(c["parameters"]["y"])) for c in first], want, "expanded configurations")
    ctx.state(docs)
    ctx.outcome(len(sims))


def several(ctx):
    """Several files of any kind, at once"""
    folder = os.path.join(ctx.scratch, "files")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    CUR.built = []
    paths, want = [], []
    for n in range(1 + ctx.choose(3)):
        kind = ctx.pick(["yml", "py", "yml2", "runpy"])
        p = os.path.join(folder, f"f{n}." + ("yml" if "yml" in kind else "py"))
        with open(p, "w") as f:
            if "yml" in kind:
                docs = [{"model": f"{__name__}.Model", "name": f"y{n}-{i}", "parameters": {"x": n, "y": i}, "max_time": 3, "dump": False, "exporters": []}
                        for i in range(2 if kind == "yml2" else 1)]
                yaml.dump_all(docs, f)
                want += [(d["name"], d["parameters"]) for d in docs]
            else:
                f.write(write(folder, ["named" if kind == "py" else "run"]).replace("dict(x=0)", f"dict(x={n + 5})"))
                want.append(("named0" if kind == "py" else "run0", {"x": n + 5}))
        paths.append(p)
    ctx.step()
    ctx.note([os.path.basename(p) for p in paths])
    keep = list(sys.path)
    if ctx.choose(2):
        sims = simulation.from_file(*paths)
        same(CUR.built, [], "environments created when the files were loaded")
        same([(s.name, s.parameters) for s in sims], want, "simulations found")
        check(all(s.dir_path for s in sims), "folder of the simulations")
    else:
        simulation.run_from_file(*paths, dump=False)
        same([describe(e) for e in CUR.built], [{k: v for (k, v) in w.items() if v} for (n, w) in want], "environments run")
    sys.path[:] = keep
    ctx.state(want)
    ctx.outcome(len(want))
    shutil.rmtree(folder, ignore_errors=True)


TREE = ["a.yml", "b.yml", "sub/c.yml", "sub/deep/d.yml", "sub/deep/e.yaml", "other/f.yml", "a.txt"]
PATTERNS = {
    "a.yml": ["a.yml"], "*.yml": ["a.yml", "b.yml"], "[ab].yml": ["a.yml", "b.yml"], "?.txt": ["a.txt"], "sub/*": ["sub/c.yml"], "*/*.yml": ["sub/c.yml", "other/f.yml"],
    "**/*.yml": ["a.yml", "b.yml", "sub/c.yml", "sub/deep/d.yml", "other/f.yml"], "sub/**/*.y*ml": ["sub/c.yml", "sub/deep/d.yml", "sub/deep/e.yaml"], "none*.yml": [], "z.yml": [],
}


def patterns(ctx):
    """Configuration files given as patterns"""
    folder = os.path.join(ctx.scratch, "patterns")
    shutil.rmtree(folder, ignore_errors=True)
    CUR.built = []
    for p in TREE:
        os.makedirs(os.path.dirname(os.path.join(folder, p)), exist_ok=True)
        with open(os.path.join(folder, p), "w") as f:
            yaml.dump({"model": f"{__name__}.Model", "name": p, "parameters": {"x": len(p)}, "dump": False, "exporters": []}, f)
    chosen = [ctx.pick(sorted(PATTERNS)) for _ in range(1 + ctx.choose(2))]
    chosen = [c if c != "sub/*" else "sub/*.yml" for c in chosen]
    how = ctx.pick(["config", "file"])
    ctx.note(how, chosen)
    ctx.step()
    keep = list(sys.path)
    try:
        sims = list((simulation.iter_from_config if how == "config" else simulation.iter_from_file)(*[os.path.join(folder, c) for c in chosen]))
    finally:
        sys.path[:] = keep
    got = [s.name for s in sims]
    want = [sorted(PATTERNS[c if c != "sub/*.yml" else "sub/*"]) for c in chosen]
    same(sorted(got), sorted(sum(want, [])), f"simulations of {chosen}")
    same(sorted(got[:len(want[0])]), want[0], "simulations of the first pattern")
    for s in sims:
        same(os.path.realpath(s.dir_path), os.path.realpath(os.path.dirname(os.path.join(folder, s.name))), f"folder of {s.name}")
    same(CUR.built, [], "environments created")
    ctx.state(chosen)
    ctx.outcome(got)
    shutil.rmtree(folder, ignore_errors=True)


SOURCE = """
import soil
from mc.world import CUR

class World(soil.Environment):
    which = "{which}"

    def init(self):
        CUR.event(self, "init")
        self.add_agent(soil.serialization.deserialize("Worker"))

class Worker(soil.BaseAgent):
    which = "{which}"
    steps = 0

    def step(self):
        self.steps += 1
        if self.steps == 1:
            CUR.event(self.model, "step")
            if len(self.model.schedule.agents) == 1:
                self.model.add_agent(soil.serialization.deserialize("Worker"))
"""


class Broken(Exception):
    pass


class Watch(soil.exporters.Exporter):
    def iteration_end(self, env, params, params_id):
        CUR.event(env, "end")


def known():
    return dict(getattr(serialization, "KNOWN_MODULES", {}))


def sources(ctx):
    """Simulations with the same names in different files, which may be run while others are running"""
    task = ctx.task
    folder = os.path.join(ctx.scratch, "sources")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    for w in "ab":
        with open(os.path.join(folder, w + ".py"), "w") as f:
            f.write(SOURCE.format(which=w))
    keep = list(sys.path)
    before = known()
    kept = []  # Errors: they hold on to the simulations that failed
    running = []
    text = []
    dicts = {w: simulation.Simulation(name="s", source_file=os.path.join(folder, w + ".py"), model="World", max_steps=2, dump=False, exporters=[]).to_dict() for w in "ab"}

    def launch(plan):
        if not plan:
            return
        (w, how, when, fails), rest = plan[0], plan[1:]
        ctx.step()
        running.append((w, when, fails, rest))
        try:
            if how == "dict":
                sim = simulation.Simulation(**dict(dicts[w], exporters=[Watch]))
            else:
                sim = simulation.Simulation(name="s", source_file=os.path.join(folder, w + ".py"), model="World", max_steps=2, dump=False, exporters=[Watch])
            same(sim.model.which, w, "file of the model")
            try:
                (env,) = sim.run()
            except Broken as ex:
                check(fails, "a simulation failed because of another one")
                kept.append(ex)
                return
            check(not fails, "the error of a simulation was not raised")
            same([env.which] + [a.which for a in env.schedule.agents], [w] * 3, f"files of the environment and its agents, in {plan}")
        finally:
            running.pop()

    def event(env, what):
        (w, when, fails, rest) = running[-1]
        if what == when:
            launch(rest)
            if fails:
                raise Broken(what)

    CUR.event = event
    for n in range(task["runs"]):
        plan = []
        for i in range(task["depth"] if task["runs"] == 1 else ctx.choose(task["depth"]) + 1):
            plan.append((ctx.pick("ab"), ctx.pick(["name", "dict"]), ctx.pick(["init", "step", "end"]), bool(ctx.choose(2))))
        ctx.note(plan)
        text.append(plan)
        launch(plan)
        same(running, [], "simulations running")
        if n == 0 and task["runs"] > 1 and ctx.choose(2):
            for ex in kept:
                ex.__traceback__ = None
            del kept[:]
    del kept[:]
    sys.path[:] = keep
    gc.collect()
    after = known()
    same(sorted(after), sorted(before), "modules that are still known")
    ctx.state(text)
    ctx.outcome(len(text))
    shutil.rmtree(folder, ignore_errors=True)


SCENARIOS = {"sources": sources, "patterns": patterns, "python": python, "template": template, "several": several}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    kinds = list(STATEMENTS)
    yield dict(scenario="python", files=1, len=3 + big, kinds=kinds, how="from_file", split=2)
    yield dict(scenario="python", files=1, len=3, exact=True, kinds=["named", "run", "matrix", "class", "fail", "helper"], how="from_file", split=1)
    yield dict(scenario="python", files=1, len=2, kinds=kinds, how="iter", split=2)
    for known in ("first", "last"):
        yield dict(scenario="python", files=2, len=1, kinds=["named", "run", "fail", "helper", "class"], how="from_file", known=known, split=1)
    yield dict(scenario="python", files=1, len=2, kinds=["named", "run", "matrix", "class"], how="first", split=1)
    yield dict(scenario="python", files=1, len=2, kinds=kinds, how="from_file", relative=True, split=1)
    yield dict(scenario="python", files=2 + big, len=1 + big, kinds=kinds, how="from_file", split=1)
    yield dict(scenario="python", files=2, len=2, kinds=["run", "matrix", "fail", "class", "exit"], how="from_file", split=2)
    for extra in (dict(iterations=3), dict(max_time=1, seed="z")):
        yield dict(scenario="python", files=1, len=2, kinds=["named", "run", "override", "matrix", "class", "both"], how="from_file", extra=extra, split=1)
    yield dict(scenario="template", split=3)
    yield dict(scenario="several", split=2)
    yield dict(scenario="patterns", split=1)
    yield dict(scenario="sources", depth=2, runs=1, split=3)
    yield dict(scenario="sources", depth=1, runs=2, split=3)
    if big:
        yield dict(scenario="sources", depth=3, runs=1, split=4)
        yield dict(scenario="sources", depth=2, runs=2, split=5)


BOUNDS = {
    "quick": "Python files with up to 3 statements out of 14 (simulations, runs with and without a matrix, classes, imports, failures), sequences of 2 files, "
             "3 ways to load them; templates with 1-2 variables, 0-2 lists and 1-3 samples; up to 3 files of 4 kinds at once; "
             "simulations of two files with the same names, run inside of each other (2 levels) or one after another, at 3 moments, and with failures",
    "thorough": "as quick, with files of 4 statements out of 14 and sequences of 3 files",
}
ASSUMPTIONS = ["the simulations that are bound to names come before the rest, in the order of those names"]
