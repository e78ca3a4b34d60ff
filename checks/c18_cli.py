"""C18: the command line does what its options say."""
import contextlib
import copy
import io
import logging
import os
import shutil
import sqlite3
import sys

import soil
import yaml
from soil import agents, environment, exporters, simulation, serialization
from mc.core import Violation, check, same, Prune
from mc.world import CUR
from checks import c15_exports as data


class Walker(agents.NetworkAgent):
    value = 0

    def step(self):
        self.value += self.random.random()
        return 0.5 + self.random.random()


class Model(environment.Environment):
    x = 1
    y = 0
    z = None

    def init(self):
        CUR.built.append(self)
        self.add_agent(Walker)
        self.add_agent(Walker)
        self.add_model_reporter("x")
        self.add_model_reporter("y")
        self.add_agent_reporter("value")


class Failing(Model):
    def step(self):
        super().step()
        if self.schedule.steps > 1:
            raise KeyError("the model fails")


class Probe(environment.Environment):
    def init(self):
        self.add_agent(Walker)


def runs_normally():
    """A simulation is run, and only that one"""
    keep = list(sys.path)
    (env,) = simulation.Simulation(name="probe", model=Probe, max_steps=2, dump=False, exporters=[]).run()
    same(env.schedule.steps, 2, "steps of a simulation that is run afterwards")
    sys.path[:] = keep


class Custom_csv_gexf(exporters.Exporter):
    def sim_start(self):
        CUR.custom.append("start")

    def iteration_end(self, env, params, params_id):
        CUR.custom.append(env.id)

    def sim_end(self):
        CUR.custom.append("end")


YML = f"""
name: cli
model: {__name__}.Model
max_time: 4
seed: file
parameters:
  x: 2
  z: {{a: 1, b: [1], c: {{d: 2}}}}
"""

YML2 = YML + f"""
---
name: second
model: {__name__}.Model
max_steps: 2
iterations: 2
matrix:
  x: [5, 6]
"""

PY = f"""
import soil
from {__name__} import Model
sim = soil.Simulation(name="cli", model=Model, parameters=dict(x=2, z=dict(a=1, b=[1], c=dict(d=2))), max_time=4, seed="file")
"""

FAILS = f"""
import soil
from {__name__} import Failing
sim = soil.Simulation(name="fails", model=Failing, max_time=4)
"""

PY2 = PY + """
then = soil.Simulation(name="again", model=Model, parameters=dict(y=1, z=dict(a=9, b=[], c=dict(d=0))), max_steps=2, iterations=2)
then.run()
"""

RUNPY = f"""
import soil
from {__name__} import Model
soil.Simulation(name="cli", model=Model, parameters=dict(x=2, z=dict(a=1, b=[1], c=dict(d=2))), max_time=4, seed="file").run()
"""

BASE = dict(name="cli", max_time=4, seed="file", parameters=dict(x=2, z=dict(a=1, b=[1], c=dict(d=2))), iterations=1)
SECOND = dict(name="second", max_steps=2, matrix=dict(x=[5, 6]), iterations=2)

AGAIN = dict(name="again", max_steps=2, iterations=2, parameters=dict(y=1, z=dict(a=9, b=[], c=dict(d=0))))

OPTIONS = {
    "dry": [[], ["--dry-run"]],
    "nodump": [[], ["--no-dump"]],
    "csv": [[], ["--csv"], ["-e", "csv"], ["-e", "csv", "--csv"]],
    "graph": [[], ["-g"], ["--graph", "-e", "gexf"]],
    "time": [[], ["--max_time", "2"], ["--max_time", "2.5"], ["--max_time", "0"]],
    "steps": [[], ["--max_steps", "1"], ["--max_steps", "3"], ["--max_steps", "0"]],
    "iterations": [[], ["--iterations", "3"], ["--iterations", "0"]],
    "seed": [[], ["--seed", "other"], ["--seed", ""]],
    "set": [[], ["--set", "x=7"], ["--set", "y='a=b'", "--set", "x=3*2.5"], ["--set", "z.a=3"],
            ["--set", "z.c.d=[1]", "--set", "z.c.e='.'", "--set", "z.b=None"]],
    "output": [[], ["-o", "other"], ["--output", "deep/er"]],
    "custom": [[], ["-e", f"{__name__}.Custom_csv_gexf"]],
    "level": [[], ["--level", "WARNING"]],
    "convert": [[], ["--only-convert"]],
    "processes": [[], ["--num-processes", "2"]],
    "version": [[], ["--version"]],
    "module": [[], ["-m", "cli_helper"], ["--module", "cli_helper"]],
}


def snapshot(env):
    dc = env.datacollector
    return (env.id, env.now, env.schedule.steps, {k: list(map(repr, v)) for (k, v) in dc.model_vars.items()}, repr(dict(dc._agent_records)), repr(env.z))


def effective(base, argv):
    """The simulation that the options describe"""
    d = {k: (dict(v) if isinstance(v, dict) else v) for (k, v) in base.items()}
    if "parameters" in d and "z" in d["parameters"]:
        d["parameters"]["z"] = copy.deepcopy(base["parameters"]["z"])
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--max_time":
            d["max_time"] = float(argv[i + 1])
        elif a == "--max_steps":
            d["max_steps"] = int(argv[i + 1])
        elif a == "--iterations":
            d["iterations"] = int(argv[i + 1])
        elif a == "--seed":
            d["seed"] = argv[i + 1]
        elif a == "--set":
            (k, v) = argv[i + 1].split("=", 1)
            v = eval(v)
            ps = d.setdefault("parameters", {})
            if "." in k and "z" not in ps:
                return None
            *head, tail = k.split(".")
            for part in head:
                ps = ps[part]
            ps[tail] = v
        i += 1
    return d


def fs():
    out = []
    for (d, _, files) in os.walk("."):
        out += [os.path.normpath(os.path.join(d, f)) for f in files]
    return sorted(out)


def cli(ctx):
    task = ctx.task
    shutil.rmtree("cli", ignore_errors=True)
    os.mkdir("cli")
    os.chdir("cli")
    keep = (sys.argv, list(sys.path), logging.getLogger("soil").level, dict(os.environ))
    try:
        _cli(ctx, task)
    finally:
        sys.argv = keep[0]
        sys.path[:] = keep[1]
        logging.getLogger("soil").setLevel(keep[2])
        os.environ.clear()
        os.environ.update(keep[3])
        os.chdir(ctx.scratch)
        shutil.rmtree("cli", ignore_errors=True)


def _cli(ctx, task):
    argv = []
    used = {}
    for o in task["options"]:
        used[o] = ctx.pick(OPTIONS[o])
        argv += used[o]
    kind = task["kind"]
    bases = [BASE]
    args, kw = (), {}
    given = ["default"] if task.get("given") else None
    if kind == "yml" or kind == "yml2":
        with open("conf.yml", "w") as f:
            f.write(YML if kind == "yml" else YML2)
        if kind == "yml2":
            bases = [BASE, SECOND]
        words = ["conf.yml"]
    elif kind in ("py", "runpy", "py2"):
        with open("conf.py", "w") as f:
            f.write({"py": PY, "runpy": RUNPY, "py2": PY2}[kind])
        if kind == "py2":
            bases = [BASE, AGAIN]
        words = ["conf.py"]
    elif kind == "default":
        with open("simulation.yml", "w") as f:
            f.write(YML)
        words = []
    else:
        words = []
        e = effective(BASE, [])
        CUR.built = []
        args = (simulation.Simulation(model=Model, **e),)
    if given:
        kw["exporters"] = given
    if used.get("module"):
        with open("cli_helper.py", "w") as f:
            f.write("from mc.world import CUR\nCUR.imported += 1\n")
    before = fs()
    argv = words + argv if ctx.task.get("first", True) else argv + words
    ctx.note("soil", " ".join(argv))
    ctx.step()
    CUR.built, CUR.custom, CUR.imported = [], [], 0
    sys.modules.pop("cli_helper", None)
    sys.argv = ["soil"] + argv
    wants = [effective(b, argv) for b in bases]
    if None in wants:
        raise Prune()
    stdout = io.StringIO()
    with contextlib.redirect_stdout(stdout):
        if task.get("easy"):
            res = soil.easy(*args, **kw)
            res = [res]
        else:
            res = soil.main(*args, **kw)
    built = list(CUR.built)
    custom = list(CUR.custom)
    if not used.get("version"):
        same(logging.getLogger("soil").level, logging.WARNING if used.get("level") else logging.INFO, "level of the log")
        same(CUR.imported, 1 if used.get("module") else 0, "times that the module was imported")
    if given:
        same(given, ["default"], "the list of exporters given to main")
    runs_normally()
    folder = used.get("output") and used["output"][1] or "soil_output"
    files = [f for f in fs() if f not in before and "__pycache__" not in f]
    if used.get("version"):
        same((res, built, files), (None, [], []), "result of --version")
        ctx.outcome("version")
        return
    if used.get("convert"):
        same((built, files), ([], []), "environments and files when a configuration is only converted")
        docs = list(yaml.load_all(stdout.getvalue().replace("\n\n", "\n---\n"), Loader=yaml.FullLoader))
        docs = [d for d in docs if d]
        same(len(docs), len(wants), "configurations converted")
        for (d, w) in zip(docs, wants):
            back = simulation.from_config(d)
            for (k, v) in w.items():
                same(getattr(back, k), v, f"{k} of the converted configuration")
            asked = list(dict.fromkeys(["default"] + used.get("custom", [])[1:] + (["csv"] if used.get("csv") else []) + (["gexf"] if used.get("graph") else [])))
            got = [e if isinstance(e, str) else serialization.serialize(e)[0] for e in back.exporters]
            same(sorted(got), sorted(asked), "exporters of the converted configuration")
            same((back.outdir, back.dump, back.dry_run), (folder, not used.get("nodump"), bool(used.get("dry"))), "options of the converted configuration")
            check(back.model is Model, "model of the converted configuration")
        ctx.outcome("convert", len(docs))
        return
    dry = bool(used.get("dry"))
    same(len(res), len(wants), "number of results")
    expected = []
    nconf = 0
    for (r, w) in zip(res, wants):
        if dry:
            same(r, [], "results of a dry run")
            continue
        ref = simulation.Simulation(model=Model, exporters=[], dump=False, **w).run()
        same([snapshot(e) for e in r], [snapshot(e) for e in ref], f"results of {w['name']}")
        expected.append((w, r))
    if dry:
        same(built, [], "environments of a dry run")
    else:
        same([id(e) for e in built], [id(e) for r in res for e in r], "environments that were created")
    # Exporters and files
    if used.get("custom"):
        want = []
        for (i, w) in enumerate(wants):
            want += ["start"] + ([e.id for e in res[i]] if not dry else []) + ["end"]
        same(custom, want, "calls to the custom exporter")
    else:
        same(custom, [], "calls to a custom exporter")
    if dry or used.get("nodump"):
        same(files, [], "files written without dump")
        ctx.outcome("nothing", len(built))
        return
    want = set()
    for (w, envs) in expected:
        base = os.path.join(folder, w["name"])
        want.add(os.path.join(base, w["name"] + ".sqlite"))
        con = sqlite3.connect(os.path.join(base, w["name"] + ".sqlite"))
        rows = con.execute("select count(*) from env").fetchone()[0] if envs else 0
        con.close()
        same(rows, sum(len(e.datacollector.model_vars["x"]) for e in envs), "rows in the database")
        for e in envs:
            if used.get("csv"):
                for t in ("env", "agents"):
                    want.add(os.path.join(base, f"{e.id}.{t}.csv"))
                with open(os.path.join(base, f"{e.id}.env.csv"), newline="") as f:
                    n = len(data.parse_csv(f.read()))
                same(n, sum(len(o.datacollector.model_vars["x"]) for o in envs if o.id == e.id), "rows in the CSV file")
            if used.get("graph"):
                want.add(os.path.join(base, f"{e.id}.gexf"))
    got = {f for f in files if not f.endswith(".dumped.yml")}
    same(sorted(got), sorted(want), "files written")
    same(len(files) - len(got), len(wants), "configurations written")
    ctx.state(argv, kind)
    ctx.outcome(sorted(got), len(built))


def missing(ctx):
    """A file that does not exist, or that has no simulations"""
    what = ctx.choose(5)
    os.makedirs("cli", exist_ok=True)
    os.chdir("cli")
    keep = (sys.argv, list(sys.path), logging.getLogger("soil").level)
    try:
        CUR.built = []
        with open("empty.py", "w") as f:
            f.write("a = 1\n" if what == 1 else "def broken(:\n" if what == 2 else "raise KeyError('x')\n" if what == 3 else FAILS)
        sys.argv = ["soil", "nothing.yml" if what == 0 else "empty.py"] + (["--no-dump"] if ctx.choose(2) else [])
        ctx.note(*sys.argv)
        ctx.step()
        if what == 0:
            same(soil.main(), None, "result without a valid file")
        else:
            try:
                soil.main()
            except (AttributeError, SyntaxError, KeyError):
                pass
            else:
                raise Violation("the file has no simulations, but no error was reported")
        check(what == 4 or not os.path.exists("soil_output"), "the output folder was created")
        runs_normally()
    finally:
        sys.argv = keep[0]
        sys.path[:] = keep[1]
        logging.getLogger("soil").setLevel(keep[2])
        os.chdir(ctx.scratch)
        shutil.rmtree("cli", ignore_errors=True)
    ctx.state(what)
    ctx.outcome(what)


SCENARIOS = {"cli": cli, "missing": missing}
CPU_LIMIT = 60


def tasks(tier):
    import itertools
    big = tier == "thorough"
    kinds = ["yml", "py", "sim", "yml2", "default", "runpy", "py2"]
    yield dict(scenario="missing")
    names = [o for o in OPTIONS]
    for kind in kinds:
        yield dict(scenario="cli", kind=kind, options=[])
        yield dict(scenario="cli", kind=kind, options=["csv"], given=True)
        for (a, b) in itertools.combinations(names, 2):
            yield dict(scenario="cli", kind=kind, options=[a, b], first=names.index(a) % 2 == 0)
    yield dict(scenario="cli", kind="sim", options=["time", "seed"], easy=True)
    yield dict(scenario="cli", kind="yml", options=["dry", "nodump", "csv", "time"], split=2)
    yield dict(scenario="cli", kind="yml", options=["time", "steps", "iterations", "seed"], split=2)
    yield dict(scenario="cli", kind="py", options=["nodump", "seed", "set", "iterations"], split=2)
    if big:
        for kind in ("yml2", "py", "sim"):
            for c in itertools.combinations(names, 3):
                yield dict(scenario="cli", kind=kind, options=list(c))


BOUNDS = {
    "quick": "all the pairs of 16 options (with 2-4 values each) with 7 ways to give the simulation (YAML and Python files with one or two simulations, "
             "an instance, the default file), and some combinations of four options; missing, broken and failing files",
    "thorough": "as quick, and all the triples of options for 3 ways to give the simulation",
}
ASSUMPTIONS = ["the configuration file does not set what the command line always sets (exporters, dump, output folder...)",
               "the values given with --set are Python expressions"]
