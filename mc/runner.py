"""Runs a check: all of its tasks, in parallel, and writes its evidence."""
from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from . import core

MODULES = {}


def setup_process():
    os.environ.setdefault("TQDM_DISABLE", "1")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.pop("SOIL_DEBUG", None)
    os.environ.pop("SOIL_VERBOSE", None)
    os.environ.pop("SOIL_POSTMORTEM", None)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    sys.path[:] = [p for p in sys.path if p not in ("", core.REPO)]
    sys.path.insert(0, core.REPO)
    sys.path.insert(0, core.ROOT)
    import soil
    got = os.path.realpath(soil.__file__)
    if not got.startswith(os.path.realpath(core.REPO) + os.sep):
        raise SystemExit(f"soil is imported from {got}, not from {core.REPO}")
    import warnings
    warnings.simplefilter("ignore")
    quiet()


def quiet():
    """No log output (the level of the loggers is left alone)"""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    for name in ("soil", "MESA"):
        for h in list(logging.getLogger(name).handlers):
            logging.getLogger(name).removeHandler(h)


_MOD = None
_SCRATCH = None
_DEADLINE = None


def _worker(task):
    soft = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (soft, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    scratch = tempfile.mkdtemp(dir=_SCRATCH)
    stats = core.Stats()
    os.chdir(scratch)
    try:
        ce = core.explore(_MOD.SCENARIOS[task["scenario"]], task, stats, scratch=scratch,
                          cpu=getattr(_MOD, "CPU_LIMIT", 20), wall=getattr(_MOD, "WALL_LIMIT", 400),
                          root=task.get("_root", ()), deadline=_DEADLINE)
    except BaseException:
        ce = None
        return task, ("ERROR", traceback.format_exc()), stats
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return task, ce, stats


def load(pid):
    for f in sorted(os.listdir(os.path.join(core.ROOT, "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("checks." + f[:-3])
    raise SystemExit(f"no check for {pid}")


def main(argv=None):
    global _MOD, _SCRATCH, _DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count())
    ap.add_argument("--only", help="only run the tasks of this scenario")
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args(argv)
    start = time.time()
    if args.tier == "quick":
        # A change of the code may have made the exploration much longer: what was explored is still an answer
        _DEADLINE = start + 600
    elif os.environ.get("VERIF_BUDGET"):
        _DEADLINE = start + float(os.environ["VERIF_BUDGET"])
    setup_process()
    pid = args.property
    _MOD = mod = load(pid)
    _SCRATCH = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        if args.replay:
            return replay(mod, pid, args.replay)
        return run(mod, pid, args, start)
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def replay(mod, pid, path):
    with open(path) as f:
        ce = json.load(f)
    scratch = tempfile.mkdtemp(dir=_SCRATCH)
    os.chdir(scratch)
    stats = core.Stats()
    ch, problem = core.run_once(mod.SCENARIOS[ce["task"]["scenario"]], ce["task"],
                                [tuple(i) for i in ce["choices"]], stats, scratch=scratch)
    print("task:", json.dumps(ce["task"]))
    print("choices:", [c for (_, c) in ch.trace])
    for line in ch.log:
        print("  ", line)
    os.chdir("/")
    if problem:
        print("PROBLEM:", problem)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the execution satisfies the property")
    return 0


def run(mod, pid, args, start):
    tasks = list(mod.tasks(args.tier))
    if args.only:
        tasks = [t for t in tasks if t["scenario"] == args.only]
    scratch = tempfile.mkdtemp(dir=_SCRATCH)
    os.chdir(scratch)
    split = []
    for t in tasks:
        depth = t.get("split", 0)
        if not depth:
            split.append(t)
            continue
        for root in core.split(mod.SCENARIOS[t["scenario"]], t, depth, scratch=scratch):
            split.append(dict(t, _root=root))
    tasks = split
    os.chdir("/")
    total = core.Stats()
    per = {}
    samples = []
    ce = None
    error = None
    done = 0
    ctx = multiprocessing.get_context("fork")
    jobs = max(1, min(args.jobs, len(tasks)))
    slow = []
    pool = ProcessPoolExecutor(jobs, mp_context=ctx)
    futures = [(t, pool.submit(_worker, t)) for t in tasks]
    try:
        for (task, fut) in futures:
            try:
                (task, res, stats) = fut.result()
            except BrokenProcessPool:
                ce = dict(task=task, choices=[], log=[],
                          problem="the process that ran the executions was killed")
                break
            done += 1
            slow.append((time.time() - start, stats.executions, {k: v for (k, v) in task.items() if k != "_root"}))
            total.merge(stats)
            s = per.setdefault(task["scenario"], dict(tasks=0, executions=0, transitions=0))
            s["tasks"] += 1
            s["executions"] += stats.executions
            s["transitions"] += stats.transitions
            if stats.sample and not any(x["task"]["scenario"] == task["scenario"] for x in samples):
                samples.append(stats.sample)
            if isinstance(res, tuple):
                error = (task, res[1])
                break
            if res is not None:
                ce = res
                break
    finally:
        procs = list((getattr(pool, "_processes", None) or {}).values())
        pool.shutdown(wait=(ce is None and error is None), cancel_futures=True)
        for p in procs:
            if p.is_alive():
                p.kill()
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    wall = time.time() - start
    evidence = dict(
        property=pid,
        tier=args.tier if args.tier in ("quick", "thorough") else "quick",
        seed=args.seed,
        level="model_checking",
        coverage=dict(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.executions - total.pruned,
            distinct_outcomes=len(total.outcomes),
            tasks=done,
            max_choice_points=total.maxdepth,
            pruned_executions=total.pruned,
            abandoned_tasks=total.capped,
            scenarios=per,
            samples=samples[:8] or [dict(note="no samples")],
            bounds=getattr(mod, "BOUNDS", {}).get(args.tier, getattr(mod, "BOUNDS", {})),
            exhaustive=(ce is None and error is None and done == len(tasks) and not total.capped),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=1 if ce else 0,
    )
    with open(os.path.join(core.ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"{pid} [{args.tier}] tasks={done}/{len(tasks)} executions={total.executions} "
          f"states={len(total.states)} transitions={total.transitions} "
          f"outcomes={len(total.outcomes)} wall={wall:.1f}s" + (f" NOT EXHAUSTIVE: {total.capped}" if total.capped else ""))
    if args.profile:
        agg = {}
        for (_, n, t) in slow:
            agg[json.dumps(t)] = agg.get(json.dumps(t), 0) + n
        for (t, n) in sorted(agg.items(), key=lambda x: -x[1])[:40]:
            print(n, t)
    for (k, v) in per.items():
        print(f"   {k}: {v}")
    if error is not None:
        print(f"ERROR in the machinery of the check, task {json.dumps(error[0])}\n{error[1]}")
        return 2
    if ce is not None:
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        path = os.path.join(core.ROOT, "replays", f"{pid}.json")
        ce["property"] = pid
        with open(path, "w") as f:
            json.dump(ce, f, indent=1, default=str)
        print("counterexample:", json.dumps(ce["task"]))
        for line in ce["log"]:
            print("   ", line)
        print("PROBLEM:", ce["problem"])
        print(f"replay with: python run_check.py {pid} --replay {path}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for line in known_findings(pid):
        print(line)
    return 0


def known_findings(pid):
    path = os.path.join(core.ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"KNOWN-FINDING: property={pid} "):
                yield line.strip()
