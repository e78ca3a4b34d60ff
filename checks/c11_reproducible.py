"""C11: the seed determines the results."""
import json
import logging
import os
import random
import subprocess
import sys

import numpy as np
import soil
from soil import simulation
from mc import core
from mc.core import Violation, check, same, Prune
from models import rich

VARIANTS = [("Rich", "er", "one"), ("PQRich", "er", "one"), ("Rich", "custom", "other"), ("PQRich", "plain", "3")]
STEPS = 6
_REF = {}


def simulate(variant, iterations=1, **kw):
    (cls, p, seed) = rich.params(variant)
    args = dict(name="x", model=cls, parameters=p, seed=seed, max_time=STEPS, iterations=iterations, dump=False, exporters=[],
                agent_reporters=rich.REPORTERS)
    args.update(kw)
    return simulation.Simulation(**args).run()


def reference(variant):
    """The results in a process that has done nothing else: computed before any other thing"""
    variant = tuple(variant)
    if variant not in _REF:
        # A new process, so that nothing of this one matters
        _REF[variant] = fresh([variant], "0")[0]
    return _REF[variant]


def fresh(variants, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TQDM_DISABLE="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.pathsep.join([core.REPO, core.ROOT]))
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.ROOT, "models", "rich.py"), json.dumps(variants)],
                       capture_output=True, text=True, env=env, cwd=os.getcwd(), timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    raise Violation(f"the simulation failed in a new process:\n{r.stderr[-1500:]}")


def compare(env, want, what):
    got = repr(rich.fingerprint(env))
    if got != want:
        i = next((k for (k, (x, y)) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Violation(f"{what}: the results differ: ...{got[max(0, i - 80):i + 80]}... instead of ...{want[max(0, i - 80):i + 80]}...")


def disturb(ctx, what):
    ctx.note("disturbance:", what)
    ctx.step()
    if what == "seed":
        random.seed(12345)
    elif what == "draw":
        random.random()
        random.shuffle([1, 2, 3])
    elif what == "numpy":
        np.random.seed(7)
        np.random.rand(3)
    elif what == "same":
        simulate(ctx.task["variant"])
    elif what == "other":
        simulate(("Rich", "er", "different"))
    elif what == "half":
        (cls, p, seed) = rich.params(ctx.task["variant"])
        e = cls(seed=seed, **p)
        e.step()
    elif what == "fail":
        try:
            simulate(ctx.task["variant"], parameters={"network": "er", "size": -4})
        except Exception:
            pass


DISTURB = ["none", "seed", "draw", "numpy", "same", "other", "half", "fail"]


def history(ctx):
    """What the process did before does not matter"""
    v = tuple(ctx.task["variant"])
    want = reference(v)
    for _ in range(ctx.task["k"]):
        disturb(ctx, ctx.pick(DISTURB))
    (e,) = simulate(v)
    compare(e, want[0], "after other activities in the same process")
    ctx.state(v)
    ctx.outcome(want[0])


def options(ctx):
    """Nor does how the simulation is run"""
    v = tuple(ctx.task["variant"])
    want = reference(v)
    opts = {}
    opts["level"] = ctx.pick([logging.WARNING, logging.INFO, logging.DEBUG])
    opts["dump"] = bool(ctx.choose(2))
    opts["exporters"] = ctx.pick([[], ["default"], ["csv", "gexf", "summary"]])
    opts["outdir"] = os.path.join(ctx.scratch, "out")
    opts["overwrite"] = bool(opts["dump"])
    iterations = ctx.pick([1, 3])
    opts["name"] = ctx.pick(["x", "another"])
    ctx.note(opts, iterations)
    ctx.step()
    old = logging.getLogger("soil").level
    try:
        res = simulate(v, iterations=iterations, **opts)
    finally:
        logging.getLogger("soil").setLevel(old)
    same(len(res), iterations, "number of results")
    for (i, e) in enumerate(res[:2]):
        compare(e, want[i], f"iteration {i} with {opts}")
    # Each iteration has its own random numbers
    nexts = {rich.fingerprint(e)["next"] for e in res}
    same(len(nexts), len(res), "different random numbers in the iterations")
    ctx.state(v, iterations, opts["level"])
    ctx.outcome(iterations, want[0])


def interleaved(ctx):
    """Environments that are stepped in turns, in any order, do not disturb each other"""
    v1, v2 = ctx.task["variants"]
    k = ctx.task["k"]
    solo = []
    for v in (v1, v2):
        (cls, p, seed) = rich.params(v)
        e = cls(seed=seed, agent_reporters=rich.REPORTERS, **p)
        for _ in range(k):
            e.step()
        solo.append(repr(rich.fingerprint(e)))
    envs = [None, None]
    left = [k, k]
    while left[0] or left[1]:
        if left[0] and left[1]:
            i = ctx.choose(2)
        else:
            i = 0 if left[0] else 1
        if envs[i] is None:
            (cls, p, seed) = rich.params((v1, v2)[i])
            envs[i] = cls(seed=seed, agent_reporters=rich.REPORTERS, **p)
        envs[i].step()
        left[i] -= 1
        ctx.step()
        ctx.state(left, v1, v2)
    for i in (0, 1):
        compare(envs[i], solo[i], f"environment {i}, interleaved with another one")
    ctx.outcome(solo)


def processes(ctx):
    """New processes, with other seeds for the hashes of Python"""
    vs = [tuple(v) for v in ctx.task["variants"]]
    want = [reference(v) for v in vs]
    h = ctx.pick(ctx.task["seeds"])
    ctx.step()
    ctx.state(h)
    got = fresh(vs, h)
    for (g, w, v) in zip(got, want, vs):
        for (i, (x, y)) in enumerate(zip(g, w)):
            check(x == y, "variant {}, iteration {}: the results depend on the hash seed ({}): {} instead of {}", v, i, h, x[:300], y[:300])


def seeds(ctx):
    """Different seeds, different random numbers; the same seed, the same ones"""
    v = ctx.task["variant"]
    (cls, p, seed) = rich.params(v)
    options = ["a", "b", "a_", "default", "one"]
    s1, s2 = ctx.pick(options), ctx.pick(options)
    it = ctx.pick([1, 2])
    ctx.step()
    ctx.state(s1, s2, it)
    r1 = simulate(v, seed=s1, iterations=it)
    r2 = simulate(v, seed=s2, iterations=it)
    for (a, b) in zip(r1, r2):
        f1, f2 = rich.fingerprint(a), rich.fingerprint(b)
        if s1 == s2:
            same(repr(f1), repr(f2), "results with the same seed")
        else:
            check(f1["next"] != f2["next"], "the random numbers of the seeds {} and {} are the same", s1, s2)
    ctx.outcome(s1, s2)


LABELS = ["a", "b", "A", "ab", "ba", "a ", " a", "a_", "0", "1", "00", "1.0", "10", "-1", "default", "defaul", "defaults",
          "experiment 2024-01-01 run 1", "experiment 2024-01-01 run 2", "Experiment 2024-01-01 run 1", "xperiment 2024-01-01 run 1",
          "f" * 64 + "0", "f" * 64 + "1", "0" + "f" * 64, "\u00e9", "e", "e\u0301"]


def streams(ctx):
    """Every iteration of every seed has random numbers of its own"""
    s1 = ctx.pick(LABELS)
    n = ctx.task["iterations"]
    seen = {}
    for s2 in LABELS[LABELS.index(s1):]:
        ctx.step()
        for (i, e) in enumerate(simulate(ctx.task["variant"], seed=s2, iterations=n if s2 == s1 else 2, max_time=ctx.task["time"])):
            r = rich.fingerprint(e)["next"]
            other = seen.setdefault(r, (s2, i))
            same(other, (s2, i), "seed and iteration with these random numbers")
    ctx.state(s1)
    ctx.outcome(sorted(map(repr, seen)))


SCENARIOS = {"streams": streams, "history": history, "options": options, "interleaved": interleaved, "processes": processes, "seeds": seeds}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    yield dict(scenario="processes", variants=VARIANTS, seeds=[1, 2, 3] + list(range(4, 12)) * big)
    yield dict(scenario="processes", variants=VARIANTS, seeds=[20, 31, 4294967295])
    for v in VARIANTS:
        yield dict(scenario="history", variant=v, k=2 + big)
        yield dict(scenario="options", variant=v)
    yield dict(scenario="seeds", variant=VARIANTS[0])
    yield dict(scenario="streams", variant=VARIANTS[0], iterations=12 + 100 * big, time=0, split=1)
    yield dict(scenario="streams", variant=VARIANTS[3], iterations=12, time=2, split=1)
    for (a, b) in ((0, 0), (0, 1), (1, 2), (3, 3)):
        yield dict(scenario="interleaved", variants=[VARIANTS[a], VARIANTS[b]], k=3 + big)


BOUNDS = {
    "quick": "4 variants of a model that uses every random feature (6 units of time, 2 iterations): all the pairs of 8 earlier activities, "
             "72 combinations of options, all the interleavings of 3+3 steps of two environments, 6 hash seeds, 351 pairs of seeds (2-12 iterations each)",
    "thorough": "as quick, with triples of activities, 4+4 steps, 14 hash seeds and 112 iterations of each seed",
}
ASSUMPTIONS = ["the model itself only uses the random generator that it is given"]
