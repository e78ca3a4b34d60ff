"""C17: what is serialized can be read back."""
import inspect
import itertools
import os
import shutil
import sys
import types

import mesa
import networkx as nx
import soil
import yaml
from soil import agents, config, environment, exporters, network, serialization, simulation, utils
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import CUR

ATOMS = [0, 1, -1, 2 ** 70, 0.0, -0.0, 1.5, -1e300, 5e-324, True, False, None, "", "a", "None", "1", "it's", 'a "b"', "two\nlines", "é\x00", "a.b", " x ",
         b"", b"\xff'", 1j, "str", "{'a': 1}", "inf", "#", "[", "%s"]


def remembered():
    """The modules that the process remembers"""
    return getattr(serialization, "KNOWN_MODULES", {})


INITIAL = dict(remembered())
SMALL = [0, 1.5, True, None, "", "it's", b"x"]


def exact(a, b):
    """Equal, and of the same types"""
    return type(a) is type(b) and repr(a) == repr(b) if not isinstance(a, (set, dict)) else (
        type(a) is type(b) and len(a) == len(b) and (sorted(map(repr, a)) == sorted(map(repr, b)) if isinstance(a, set) else
                                                     list(map(repr, a.items())) == list(map(repr, b.items()))))


def tree(ctx, depth, atoms, hashable=False, width=2):
    """Any value of a given depth"""
    kinds = ["atom"] + (["tuple"] if depth else []) + (["list", "dict", "set"] if depth and not hashable else [])
    kind = kinds[ctx.choose(len(kinds))]
    if kind == "atom":
        return ctx.pick(atoms)
    n = ctx.choose(width + 1)
    if kind == "dict":
        d = {}
        for i in range(n):
            k = tree(ctx, 0, atoms, True)
            d[k] = tree(ctx, depth - 1, atoms, hashable)
        if len(d) < n:
            raise Prune()
        return d
    if kind == "set":
        d = set()
        for i in range(n):
            d.add(tree(ctx, depth - 1, atoms, True))
        if len(d) < n:
            raise Prune()
        return d
    items = [tree(ctx, depth - 1, atoms, hashable) for i in range(n)]
    return items if kind == "list" else tuple(items)


def literal(ctx):
    v = tree(ctx, ctx.task["depth"], ATOMS if ctx.task["atoms"] == "all" else SMALL, width=ctx.task["width"])
    ctx.step()
    ctx.note("value", repr(v))
    out = serialization.serialize(v)
    check(isinstance(out, tuple) and len(out) == 2 and all(isinstance(i, str) for i in out), "serialize returns {!r}", out)
    back = serialization.deserialize(out[1], out[0])
    check(exact(back, v), "{!r} was read back as {!r}", v, back)
    if not isinstance(v, (set, list, tuple, dict)):
        same(serialization.serialize(back), out, "serialization of the value that was read back")
    ctx.state(repr(v))
    ctx.outcome(out[1])


# Classes with the same names as others

def clones():
    mods = []
    for (name, classes) in (("clone_one", ["Environment", "FSM", "Own", "csv", "Simulation"]), ("clone_two", ["Environment", "Own", "BaseAgent", "Graph"])):
        m = types.ModuleType(name)
        for c in classes:
            k = type(c, (object,), {})
            k.__module__ = name
            setattr(m, c, k)
        mods.append(m)
    return mods


def all_classes():
    found = {}
    for mod in (soil, agents, environment, exporters, stime, simulation, network, mesa, mesa.time, nx):
        for (n, c) in inspect.getmembers(mod, inspect.isclass):
            if inspect.getattr_static(sys.modules.get(c.__module__), c.__name__, None) is c and c.__module__ != "builtins":
                found[f"{c.__module__}.{c.__name__}"] = c
    return found


def classes(ctx):
    """The name of a class leads to it, whatever other classes are known with the same name"""
    extra = clones()
    everything = all_classes()
    for m in extra:
        for (n, c) in vars(m).items():
            if isinstance(c, type):
                everything[f"{m.__name__}.{n}"] = c
    names = sorted(everything)
    before = dict(remembered())
    for m in extra:
        sys.modules[m.__name__] = m
    try:
        known = [["soil"], ["soil", "soil.agents"], ["soil.exporters"], ["clone_one", "soil"], ["soil", "clone_two"], ["clone_two", "clone_one"], []][ctx.task["known"]]
        cls = everything[names[ctx.choose(len(names))]]
        ctx.step()
        ctx.note(cls, "known modules", known)
        n = serialization.name(cls, known_modules=known)
        got = serialization.deserialize(n, known_modules=known)
        check(got is getattr(cls, "deserialize", cls), "the name of {} is {}, which leads to {}", cls, n, got)
        full = f"{cls.__module__}.{cls.__name__}"
        check(serialization.deserialize(full, known_modules=known) is getattr(cls, "deserialize", cls), "{} does not lead to the class", full)
        tagged = f"<class '{full}'>"
        check(serialization.deserialize(tagged, known_modules=known) is getattr(cls, "deserialize", cls), "{} does not lead to the class", tagged)
        check(serialization.deserialize(cls, known_modules=known) is cls, "a class is not its own deserialization")
        d = serialization.serialize_dict({"a": cls, "b": [cls, {"c": cls}], "d": 1, "e": [cls], "f": {"g": [[cls, 1], 2]}}, known_modules=known)
        same(d, {"a": n, "b": [n, {"c": n}], "d": 1, "e": [n], "f": {"g": [[n, 1], 2]}}, "a dictionary with classes")
        ctx.state(n)
        ctx.outcome(n == full)
    finally:
        for m in extra:
            sys.modules.pop(m.__name__, None)
        remembered().clear()
        remembered().update(before)


# Simulations

class Walker(agents.BaseAgent):
    value = 0

    def step(self):
        self.value += self.random.random()
        if self.random.random() < 0.1:
            self.die()


class Model(environment.Environment):
    x = 1
    y = None
    kind = None

    def init(self):
        for i in range(2):
            cls = self.kind
            if isinstance(cls, str):
                cls = serialization.deserialize(cls)
            self.add_agent(cls or Walker)
        self.add_model_reporter("x")
        self.add_agent_reporter("value")


MODULE = """
from soil import *

class Walker(BaseAgent):
    value = 100
    def step(self):
        self.value += self.random.random()

class SourceModel(Environment):
    x = 5
    y = None
    def init(self):
        for i in range(3):
            self.add_agent(Walker)
        self.add_model_reporter("x")
        self.add_agent_reporter("value")
"""

FIELDS = {
    "name": [None, "my sim", "it's: #1"],
    "description": ["", "Two\nlines: - and 'quotes'", None],
    "group": [None, "g"],
    "backup": [False, True],
    "overwrite": [False, True],
    "parameters": [{}, {"x": 3}, {"x": "text", "y": [1, {"a": None}]}, {"kind": Walker}, {"x": {"nested": {"k": 1.5}}, "y": (1, 2)}],
    "matrix": [{}, {"x": [1, 2]}, {"y": [1, 2], "x": [4, 3]}, {"x": ["1", 1, None], "kind": [Walker]}],
    "seed": ["default", "other", 7, None],
    "max_time": [3, 2.5],
    "max_steps": [None, 1],
    "iterations": [1, 2],
    "num_processes": [1, 2],
    "exporters": [[], ["csv"], [exporters.SQLite, "soil.exporters.csv"], [exporters.default]],
    "exporter_params": [{}],
    "tables": [{}, {"events": ["a", "b"]}],
    "outdir": ["/nonexistent/x y"],
    "level": [20, 10],
    "skip_test": [False, True],
    "version": ["2"],
}


def outcome(envs):
    out = []
    for e in envs:
        dc = e.datacollector
        out.append((e.id, e.now, {k: list(map(repr, v)) for (k, v) in dc.model_vars.items()}, repr(dict(dc._agent_records))))
    return out


def saved(ctx):
    """A simulation is written as YAML, loaded, and run again"""
    task = ctx.task
    folder = os.path.join(ctx.scratch, "conf")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    remembered().clear()
    remembered().update(INITIAL)
    args = dict(model=[Model, f"{__name__}.Model"][ctx.choose(2)], max_time=3, dump=False, dir_path=folder, outdir="/nonexistent/x")
    if task["source"]:
        with open(os.path.join(folder, "source.py"), "w") as f:
            f.write(MODULE)
        if args["model"] is not Model:
            raise Prune()
        args.update(source_file="source.py", model="SourceModel")
    for f in task["fields"]:
        args[f] = ctx.pick(FIELDS[f])
    if task["source"] and any(Walker in (v if isinstance(v, list) else [v]) for k in ("parameters", "matrix") for v in args.get(k, {}).values()):
        raise Prune()
    ctx.step()
    ctx.note("simulation", args)
    before = (dict(remembered()), list(sys.path))
    sim = simulation.Simulation(**args)
    d1 = sim.to_dict()
    text = sim.to_yaml()
    path = os.path.join(folder, "saved.yml")
    with open(path, "w") as f:
        f.write(text)
    remembered().clear()  # As in another process
    remembered().update(INITIAL)
    via = ctx.choose(3)
    if via == 0:
        back = simulation.from_config(path)
    elif via == 1:
        back = simulation.from_config(d1)
    else:
        (back,) = simulation.from_file(path)
    d2 = back.to_dict()
    same(d2, d1, "the simulation that was read back")
    same(back.name, sim.name, "name")
    for f in ("parameters", "matrix", "tables"):
        if not any(isinstance(v, type) for v in itertools.chain.from_iterable(w if isinstance(w, list) else [w] for w in args.get(f, {}).values())):
            same(repr(getattr(back, f)), repr(args.get(f, {})), f)
    if not task["source"]:
        check(back.model is sim.model, "the model is {}, expected {}", back.model, sim.model)
    same(back.to_yaml(), text, "YAML of the simulation that was read back")
    if not args.get("exporters"):
        same(outcome(back.run()), outcome(sim.run()), "results of the simulation that was read back")
    same(sim.to_dict(), d1, "description of the simulation after it is run")
    sys.path[:] = before[1]
    same(sorted(remembered()), sorted(before[0]), "modules that are still known")
    ctx.state(sorted(map(repr, args.items())))
    ctx.outcome(via, len(text))


def override(ctx):
    """Values given when a configuration is loaded take precedence, and the configuration is not modified"""
    folder = os.path.join(ctx.scratch, "conf")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    n = 1 + ctx.choose(ctx.task.get("n", 2))
    cfgs = []
    for i in range(n):
        c = {"model": f"{__name__}.Model", "name": f"s{i}", "max_time": i + 1, "dump": False}
        if ctx.choose(2):
            c["iterations"] = 2
        if ctx.choose(2):
            c["dir_path"] = "/somewhere"
        cfgs.append(c)
        if ctx.choose(2):
            c.update(backup=True, overwrite=True, dump=True, parameters={"x": 7}, matrix={"y": [1, 2]}, max_steps=4, seed="mine", exporters=["csv"],
                     description="some", group="g")
    extra = [{}, {"iterations": 3}, {"max_time": 9, "seed": "s"}, {"dir_path": "/else"}, {"dump": False, "backup": False, "max_steps": None},
             {"parameters": {}, "matrix": {}, "exporters": []}, {"overwrite": False, "seed": "", "max_time": 0, "description": ""},
             {"parameters": {"x": 0, "y": None}, "group": None, "backup": True}][ctx.choose(8)]
    path = os.path.join(folder, "many.yml")
    with open(path, "w") as f:
        yaml.dump_all(cfgs, f)
    ctx.note(cfgs, extra)
    ctx.step()
    keep = list(sys.path)
    if ctx.choose(2):
        sims = list(simulation.iter_from_config(path, **extra))
        base = folder
    else:
        sims = list(simulation.iter_from_config(*[dict(c) for c in cfgs], **extra))
        base = os.path.dirname(os.getcwd())
    sys.path[:] = keep
    same(len(sims), n, "number of simulations")
    for (s, c) in zip(sims, cfgs):
        want = dict(c)
        want.update(extra)
        for k in ("name", "max_time"):
            same(getattr(s, k), want[k], k)
        same(s.iterations, want.get("iterations", 1), "iterations")
        same(s.seed, want.get("seed", "default"), "seed")
        check(s.model is Model, "model")
        for (k, default) in dict(backup=False, overwrite=False, parameters={}, matrix={}, max_steps=None, description="").items():
            same(getattr(s, k), want.get(k, default), k)
        for k in ("dump", "exporters", "group"):
            if k in want:
                same(getattr(s, k), want[k], k)
        if "dir_path" in want:
            same(s.dir_path, want["dir_path"], "dir_path")
        elif base == folder:
            same(s.dir_path, folder, "dir_path")
    ctx.state(cfgs, extra)
    ctx.outcome(n)


def flat(ctx):
    """Nested dictionaries can be flattened and rebuilt"""
    def build(depth):
        n = 1 + ctx.choose(2)
        d = {}
        for i in range(n):
            k = ["a", "b c"][i]
            d[k] = build(depth - 1) if depth and ctx.choose(2) else ctx.pick([0, None, "x.y", [1]])
        return d
    d = build(ctx.task["depth"])
    ctx.step()
    ctx.note(d)
    keep = repr(d)
    f = utils.flatten_dict(d)
    check(not any(isinstance(v, dict) for v in f.values()), "{} is not flat", f)
    want = {}

    def walk(d, prefix):
        for (k, v) in d.items():
            if isinstance(v, dict):
                walk(v, prefix + [k])
            else:
                want[".".join(prefix + [k])] = v
    walk(d, [])
    same(f, want, f"flattened version of {d}")
    same(utils.unflatten_dict(f), d, "dictionary rebuilt")
    same(repr(d), keep, "the original dictionary")
    ctx.state(keep)
    ctx.outcome(len(f))


SCENARIOS = {"literal": literal, "classes": classes, "saved": saved, "override": override, "flat": flat}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="literal", depth=1, atoms="all", width=1 + big, split=2)
    yield dict(scenario="literal", depth=1, atoms="small", width=2, split=1)
    yield dict(scenario="literal", depth=2, atoms="small", width=1 + big, split=2)
    for k in range(7):
        yield dict(scenario="classes", known=k)
    fs = sorted(FIELDS)
    for source in (False, True):
        yield dict(scenario="saved", source=source, fields=[])
        for (a, b) in itertools.combinations(fs, 2):
            if source and not (a in ("matrix", "parameters", "name", "seed") or b in ("matrix", "parameters")):
                continue
            yield dict(scenario="saved", source=source, fields=[a, b])
        if big:
            for c in itertools.combinations(["name", "parameters", "matrix", "seed", "iterations", "max_steps", "exporters", "tables"], 3):
                yield dict(scenario="saved", source=source, fields=list(c))
    yield dict(scenario="override", n=2 + big, split=3)
    yield dict(scenario="flat", depth=1 + big, split=2)


BOUNDS = {
    "quick": "31 kinds of values, alone or in a list, tuple, set or dictionary; containers with up to 2 of 7 kinds of values, or nested once; "
             "all the classes of soil, mesa and networkx (and 9 with names that clash), with 7 lists of known modules; simulations with any pair of "
             "fields set to any of 2-5 values, with and without a source file, read back in 3 ways; up to 2 configurations in a file, with 8 sets of values that take precedence",
    "thorough": "as quick, with nested containers of 2 items, and triples of fields",
}
ASSUMPTIONS = ["values that can be written as Python literals (infinite numbers cannot)", "classes that can be imported by their name, which is not that of a builtin"]
