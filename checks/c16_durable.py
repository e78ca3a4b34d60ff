"""C16: the results that were written are never lost."""
import hashlib
import io
import json
import os
import pickle
import shutil
import sqlite3
import sys
import traceback
import types

import pandas as pd
from soil import agents, environment, exporters, simulation
from mc.core import Violation, check, same, Prune
from mc.world import CUR
from checks import c15_exports as data


class Boom(Exception):
    """The failure of a model"""


class Disk(OSError):
    """The failure of the disk"""


class Worker(agents.NetworkAgent):
    value = 0

    def step(self):
        self.value += 1
        fail = CUR.fail
        if fail and (self.model.id, self.model.x, self.unique_id, self.value) == fail:
            raise Boom("no")


class World(environment.Environment):
    x = 0

    def init(self):
        for i in range(int(self.x) + 1):
            self.G.add_edge("center", f"n{i}")
        self.add_agent(Worker)
        self.add_agent(Worker, value=10)
        self.add_agent_reporter("value")
        self.add_model_reporter("x")


class Log(exporters.Exporter):
    """The last exporter: remembers what the others have already written"""

    def sim_start(self):
        CUR.done({"start": self.simulation.id})

    def iteration_end(self, env, params, params_id):
        CUR.done({"id": env.id, "pid": params_id, "params": sorted(params.items()), "rows": data.rows(env, self.simulation.id, params_id),
                  "nodes": sorted(map(str, env.G.nodes))})

    def sim_end(self):
        CUR.done({"end": True})


def listing(folder):
    """Every file of a folder, with its content"""
    out = {}
    for (d, _, files) in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fd:
                out[os.path.relpath(p, folder)] = fd.read()
    return out


def run(*args, **kw):
    return launch(*args, **kw)[1]


def launch(out, option, exps, x=1, iterations=2, again=None, **kw):
    """A simulation of a history. All of them have the same name"""
    args = dict(name="sim", model=World, exporters=list(exps) + [Log], dump=True, outdir=out, max_steps=2, iterations=iterations, parameters={"x": x})
    opts = {"append": {}, "backup": dict(backup=True), "overwrite": dict(overwrite=True), "both": dict(backup=True, overwrite=True),
            "no": dict(dump=False), "dry": dict(dry_run=True), "drybackup": dict(dry_run=True, backup=True, overwrite=True),
            "nooverwrite": dict(dump=False, backup=True, overwrite=True)}[option]
    args.update(opts)
    args.update(kw)
    if again is not None:  # The same object, which may have been changed
        for k in ("dump", "dry_run", "backup", "overwrite"):
            setattr(again, k, args.get(k, False))
        again.parameters = dict(again.parameters, x=x)
        return again, again.run()
    sim = simulation.Simulation(**args)
    return sim, sim.run()


def in_db(blob_or_path, scratch):
    """The tables of a database"""
    if isinstance(blob_or_path, bytes):
        path = os.path.join(scratch, "copy.sqlite")
        with open(path, "wb") as f:
            f.write(blob_or_path)
        for j in ("-journal", "-wal"):
            if os.path.exists(path + j):
                os.remove(path + j)
    else:
        path = blob_or_path
    con = sqlite3.connect(path)
    try:
        same(con.execute("pragma integrity_check").fetchall(), [("ok",)], "integrity of the database")
    finally:
        con.close()
    return data.read_db(path)


def contents(db, items):
    """Which rows of the database correspond to each of the iterations"""
    for it in items:
        for (t, want) in it["rows"].items():
            sim, iid, pid = want[0]["simulation_id"], str(it["id"]), it["pid"]
            got = [{k: v for (k, v) in r.items() if k != "index"} for r in db.get(t, [])
                   if (r["simulation_id"], str(r["iteration_id"]), r["params_id"]) == (sim, iid, pid)]
            a, b = data.keyed(got, t), data.keyed(want, t)
            if a != b:
                raise Violation(f"table {t}, iteration {iid} of {sim}: {len(a)} rows, expected {len(b)}; missing {[i for i in b if i not in a][:2]}, "
                                f"unexpected {[i for i in a if i not in b][:2]}")
        ps = sorted((r["key"], r["value"]) for r in db.get("parameters", []) if (r["simulation_id"], str(r["iteration_id"]), r["params_id"]) == (sim, iid, pid))
        same(ps, [(k, str(v)) for (k, v) in it["params"]], f"parameters of the iteration {iid} of {sim}")


def sims(db):
    return {r["simulation_id"] for t in ("env", "agents", "parameters", "configuration") for r in db.get(t, [])}


def csv_has(text, it, name):
    """All the rows of an iteration are in a CSV file"""
    want = it["rows"][name]
    got = [r for r in data.parse_csv(text) if r.get("simulation_id") == want[0]["simulation_id"] and r["params_id"] == it["pid"]]
    norm = lambda rs: sorted(sorted((k, data.cell(v)) for (k, v) in r.items() if k) for r in rs)
    same(norm(got), norm(want), f"rows of {name}, iteration {it['id']}, in its CSV file")


class Store:
    """Reference: where the data of each run should be"""

    def __init__(self):
        self.current = []  # Iterations in the database
        self.saved = []  # Databases in the backup folder
        self.csv = []  # Iterations in the CSV files
        self.ids = set()  # Simulations in the current database
        self.all = set()


def verify(store, out, scratch, exps):
    folder = os.path.join(out, "sim")
    if "default" in exps or "SQLite" in exps:
        if store.ids:
            db = in_db(os.path.join(folder, "sim.sqlite"), scratch)
            contents(db, store.current)
            same(sims(db), store.ids, "simulations in the database")
            same(len(db["configuration"]), len(store.ids), "configurations in the database")
        backups = os.path.join(folder, "backup")
        blobs = []
        if os.path.isdir(backups):
            for f in sorted(os.listdir(backups)):
                if f.startswith("sim.sqlite"):
                    with open(os.path.join(backups, f), "rb") as fd:
                        blobs.append(fd.read())
        same(sorted(hashlib.sha1(b).hexdigest() for b in blobs), sorted(h for (h, _) in store.saved), "backups of the database")
        for b in blobs:
            db = in_db(b, scratch)
            contents(db, dict(store.saved)[hashlib.sha1(b).hexdigest()])
    if "csv" in exps:
        for it in store.csv:
            for name in it["rows"]:
                with open(os.path.join(folder, f"{it['id']}.{name}.csv"), newline="") as f:
                    csv_has(f.read(), it, name)


def history(ctx):
    """Any sequence of runs, with any options"""
    task = ctx.task
    exps = task["exporters"]
    out = os.path.join(ctx.scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    CUR.fail = None
    store = Store()
    sim = None
    for n in range(task["runs"]):
        option = ctx.pick(task["options"])
        ctx.note("run", n, option)
        ctx.step()
        before = listing(out)
        log = []
        CUR.done = log.append
        reuse = task.get("reuse") and sim is not None and ctx.choose(2)
        (sim, _) = launch(out, option, exps, x=n + 1, iterations=task["iterations"], again=sim if reuse else None)
        after = listing(out)
        items = [i for i in log if "id" in i]
        if option in ("dry", "drybackup"):
            same(len(items), 0, "iterations of a dry run")
        else:
            same([i["id"] for i in items], [str(i) for i in range(task["iterations"])], "iterations")
        if option in ("no", "nooverwrite", "dry", "drybackup"):
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            same(changed, [], f"files changed by a run that writes nothing ({option})")
            same(os.path.exists(out), bool(before), "the output folder exists")
            continue
        sid = log[0]["start"]
        check(sid not in store.all, "two runs have the same identifier, {}", sid)
        store.all.add(sid)
        if "default" in exps or "SQLite" in exps:
            db = os.path.join("sim", "sim.sqlite")
            if option in ("backup", "both"):
                if db in before:
                    store.saved.append((hashlib.sha1(before[db]).hexdigest(), store.current))
                store.current, store.ids = [], set()
            elif option == "overwrite":
                store.current, store.ids = [], set()
            store.current = store.current + items
            store.ids = store.ids | {sid}
        store.csv += items
        # Nothing that was written by others is changed
        for (k, v) in before.items():
            name = os.path.basename(k)
            if name == "sim.sqlite" or name == "dummy" or name.endswith(".gexf"):
                continue
            if name.endswith(".csv"):
                check(after.get(k, b"").startswith(v), "{} lost part of its content", k)
            else:
                check(after.get(k) == v, "{} was changed or removed", k)
        # The files that were replaced are in the backup folder
        if option in ("backup", "both"):
            kept = set(after.values())
            for (k, v) in before.items():
                check(v in kept or k.endswith(".csv"), "the content of {} was lost, in spite of the backup", k)
        verify(store, out, ctx.scratch, exps)
        ctx.state(option, sorted(k for k in after if "@" not in k and "yml" not in k))
    shutil.rmtree(out, ignore_errors=True)
    ctx.outcome(len(store.current), len(store.saved))


WRITERS = (sqlite3.Connection, sqlite3.Cursor, io.IOBase, io.TextIOWrapper, io.BufferedWriter, io.FileIO)
CALLS = {"mkdir", "rename", "replace", "remove", "unlink", "rmdir", "open", "link", "truncate", "sendfile", "copy_file_range", "write", "utime", "chmod"}
QUIET = {"fileno", "isatty", "readable", "writable", "seekable", "tell", "read", "readline", "readlines", "fetchone", "fetchall", "fetchmany"}


class Injector:
    """Counts the calls that may change the disk, and makes one of them fail"""

    def __init__(self, point, kind):
        self.point = point
        self.kind = kind
        self.count = 0
        self.where = None
        self.paused = False

    def __call__(self, frame, event, arg):
        if self.paused or event not in ("c_call", "c_return"):
            return
        owner = getattr(arg, "__self__", None)
        name = getattr(arg, "__name__", "")
        if isinstance(owner, types.ModuleType):
            if not ((owner.__name__ == "posix" and name in CALLS) or (owner.__name__ in ("io", "_io") and name == "open")
                    or owner.__name__ in ("sqlite3", "_sqlite3") and name == "connect"):
                return
        elif isinstance(owner, WRITERS):
            if name in QUIET:
                return
            if isinstance(owner, io.IOBase):
                try:
                    if owner.fileno() <= 2:
                        return
                except (OSError, ValueError):
                    return
        else:
            return
        if self.kind == "error" and event != "c_call":
            return
        self.count += 1
        if self.count == self.point:
            self.where = f"{event} {name}"
            if self.kind == "kill":
                os._exit(77)
            raise Disk(5, "injected error")


_KNOWN = {}


def crash(ctx):
    """The process dies (or the disk fails) at any point of the last run of a history"""
    task = ctx.task
    key = json.dumps([task["exporters"], task["before"], task["option"], task["kind"]])
    point = task["lo"] + ctx.choose(task["n"])
    if key in _KNOWN and point > _KNOWN[key]:
        raise Prune()
    exps = task["exporters"]
    out = os.path.join(ctx.scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    CUR.fail = None
    previous = []
    CUR.done = previous.append
    for (n, option) in enumerate(task["before"]):
        run(out, option, exps, x=n + 1)
    previous = [i for i in previous if "id" in i]
    before = listing(out)
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:  # The process that dies
        code = 1
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            inj = Injector(point, task["kind"])

            def done(rec):
                inj.paused = True
                blob = pickle.dumps(rec)
                os.write(w, len(blob).to_bytes(4, "big") + blob)
                inj.paused = False
            CUR.done = done
            sys.setprofile(inj)
            try:
                run(out, task["option"], exps, x=9)
            except Disk:
                pass
            finally:
                sys.setprofile(None)
                inj.paused = True
            done({"count": inj.count, "where": inj.where})
            code = 0
        except BaseException:
            blob = pickle.dumps({"error": traceback.format_exc()})
            os.write(w, len(blob).to_bytes(4, "big") + blob)
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    recs = []
    while buf:
        n = int.from_bytes(buf[:4], "big")
        recs.append(pickle.loads(buf[4:4 + n]))
        buf = buf[4 + n:]
    err = [i["error"] for i in recs if "error" in i]
    if err:
        # The failure may be reported as an error of other kind, if it was caused by the failure of the disk
        check("injected error" in err[0], "unexpected failure: {}", err[0][-1500:])
    counts = [i["count"] for i in recs if "count" in i and i["where"] is None]
    if counts:
        _KNOWN[key] = counts[0]
        check(counts[0] > 3, "harness: the failure points were not found")
        if task.get("last"):
            check(counts[0] < task["lo"] + task["n"], "harness: there are {} points of failure, more than expected", counts[0])
    elif task["kind"] == "kill":
        check(status == 77, "harness: status {}", status)
    ctx.step()
    items = [i for i in recs if "id" in i]
    ctx.note("failure point", point, "iterations written", len(items))
    # What should be there
    folder = os.path.join(out, "sim")
    dbs = []
    for d in (folder, os.path.join(folder, "backup")):
        if os.path.isdir(d):
            dbs += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("sim.sqlite") and "journal" not in f]
    main = os.path.join(folder, "sim.sqlite")
    if "default" in exps:
        if items:
            db = in_db(main, ctx.scratch)
            contents(db, items)
        if task["option"] == "append" and previous:
            contents(in_db(main, ctx.scratch), previous)
        elif task["option"] in ("backup", "both") and previous:
            where = 0
            for p in dbs:
                try:
                    contents(in_db(p, ctx.scratch), previous)
                    where += 1
                except Violation:
                    pass
            check(where >= 1, "the data of the previous runs was lost: {}", [os.path.relpath(p, out) for p in dbs])
        elif os.path.exists(main):
            in_db(main, ctx.scratch)
    if "csv" in exps:
        for it in previous + items:
            for name in it["rows"]:
                with open(os.path.join(folder, f"{it['id']}.{name}.csv"), newline="") as f:
                    csv_has(f.read(), it, name)
    for (k, v) in before.items():
        if k.endswith(".yml") or "backup" in k:
            p = os.path.join(out, k)
            check(os.path.exists(p) and open(p, "rb").read() == v, "{} was changed or removed", k)
    # The next run works, and keeps everything
    if task.get("again"):
        more = []
        CUR.done = more.append
        run(out, "append", exps, x=5)
        more = [i for i in more if "id" in i]
        same(len(more), 2, "iterations of the next run")
        db = in_db(main, ctx.scratch)
        contents(db, items + more + (previous if task["option"] == "append" else []))
    shutil.rmtree(out, ignore_errors=True)
    ctx.state(task["option"], task["before"], len(items), len(dbs))
    ctx.outcome(task["option"], len(items), status)


def failing(ctx):
    """A model that fails at any point: the error is reported, and what was finished is kept"""
    task = ctx.task
    exps = task["exporters"]
    out = os.path.join(ctx.scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    log = []
    CUR.done = log.append
    CUR.fail = None
    prev = []
    if task["before"]:
        run(out, "append", exps, x=7)
        prev = [i for i in log if "id" in i]
        del log[:]
    xs = task["xs"]
    x = ctx.pick(xs)
    it = str(ctx.choose(task["iterations"]))
    who = ctx.choose(2)
    when = 1 + ctx.choose(2)
    CUR.fail = (it, x, who, when + 10 * who)
    ctx.note("fails", CUR.fail)
    ctx.step()
    try:
        run(out, "append", exps, parameters={}, matrix={"x": xs}, iterations=task["iterations"])
    except Boom:
        pass
    else:
        raise Violation("the failure of the model was not reported")
    finally:
        CUR.fail = None
    items = [i for i in log if "id" in i]
    want = [(dict(i["params"])["x"], i["id"]) for i in items]
    order = [(a, str(b)) for a in xs for b in range(task["iterations"])]
    same(want, order[:order.index((x, it))], "iterations that were finished and exported")
    folder = os.path.join(out, "sim")
    if items or prev:
        contents(in_db(os.path.join(folder, "sim.sqlite"), ctx.scratch), prev + items)
        if "csv" in exps:
            for i in prev + items:
                for name in i["rows"]:
                    with open(os.path.join(folder, f"{i['id']}.{name}.csv"), newline="") as f:
                        csv_has(f.read(), i, name)
    # The next simulation is not affected
    del log[:]
    res = run(out, "append", exps, x=8)
    same(len(res), 2, "results of the next simulation")
    contents(in_db(os.path.join(folder, "sim.sqlite"), ctx.scratch), prev + items + [i for i in log if "id" in i])
    shutil.rmtree(out, ignore_errors=True)
    ctx.state(len(items), bool(prev))
    ctx.outcome(len(items))


def same_second(ctx):
    """All the files of a history seem to be created at the same time"""
    real = os.path.getctime, os.path.getmtime
    os.path.getctime = os.path.getmtime = lambda path: 10.0 ** 9 + 0 * real[0](path)
    try:
        history(ctx)
    finally:
        os.path.getctime, os.path.getmtime = real


SCENARIOS = {"history": history, "same_second": same_second, "crash": crash, "failing": failing}
CPU_LIMIT = 60
STEP = 24


def tasks(tier):
    big = tier == "thorough"
    opts = ["append", "backup", "overwrite", "both", "no", "dry", "nooverwrite", "drybackup"]
    yield dict(scenario="history", exporters=["default"], options=opts, runs=2, iterations=2, split=1)
    yield dict(scenario="history", exporters=["default"], options=opts[:4] + (["no"] if big else []), runs=3 + big, iterations=1, split=2)
    yield dict(scenario="history", exporters=["csv", "gexf", "dummy", "summary"], options=opts, runs=2 + big, iterations=2, split=1)
    yield dict(scenario="history", exporters=["gexf", "default", "csv"], options=["append", "backup", "no"], runs=3, iterations=1, split=1)
    yield dict(scenario="history", exporters=["default", "csv"], options=["append", "backup", "overwrite", "no", "dry"], runs=3, iterations=1, reuse=True, split=2)
    yield dict(scenario="same_second", exporters=["default"], options=["backup"], runs=6 + 6 * big, iterations=1, split=0)
    yield dict(scenario="same_second", exporters=["default"], options=["backup", "both"], runs=5 + big, iterations=1, split=2)
    for before in ([], ["append"]):
        yield dict(scenario="failing", exporters=["default", "csv"], before=before, xs=[1, 2], iterations=2, split=1)
    cases = [([], "append", "default"), (["append"], "append", "default"), (["append"], "backup", "default"), (["append"], "both", "default"),
             (["append"], "overwrite", "default"), (["append"], "append", "csv")]
    if big:
        cases += [(["append", "append"], o, "default") for o in ("append", "backup", "both")] + [(["append", "backup"], "backup", "default"),
                  (["append"], "backup", "csv")]
    for (before, option, e) in cases:
        for kind in ("kill", "error"):
            top = 20 * STEP if kind == "kill" else 12 * STEP
            for lo in range(1, top, STEP):
                yield dict(scenario="crash", exporters=[e], before=before, option=option, kind=kind, lo=lo, n=STEP, last=lo + STEP >= top,
                           again=(kind == "error") if e == "default" else False)


BOUNDS = {
    "quick": "all the sequences of 2 runs with 8 combinations of options, and of 3 runs with 4, with 1-2 iterations and 5 exporters; sequences of up to 6 runs with backups of the same second, and of 3 runs of the same object; every call that changes the disk "
             "(SQL statements, commits, writes, renames...) in the last run of 6 histories, killing the process before and after it, or making it fail; "
             "a failure of the model at each activation of each iteration of two configurations",
    "thorough": "as quick, with sequences of 4 runs and 11 histories with failures",
}
ASSUMPTIONS = ["the operating system and SQLite keep what was committed: the process dies, the computer does not",
               "what is left of the iteration being written when the process dies is not specified"]
