"""C15: the exported results are the collected ones."""
import csv as csvlib
import io
import math
import os
import shutil
import sqlite3

import networkx as nx
import pandas as pd
import yaml
from soil import agents, analysis, environment, exporters, simulation
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR


class S:
    pass


VALUES = [0, -3, 2.5, "text", "it's \"quoted\"; DROP TABLE env", "líne\nbreak, comma", None, True, 1e300, ""]


class Red(agents.NetworkAgent):
    value = 0
    label = ""

    def step(self):
        return CUR.st.act(self)


class Blue(agents.BaseAgent):
    value = 10
    label = "b"

    def step(self):
        return CUR.st.act(self)


class World(environment.Environment):
    level = 0
    x = 1

    def init(self):
        st = CUR.st
        st.envs.append(self)
        t = st.task
        if t.get("graph") and not len(self.G):
            if t.get("kind"):
                self.G = getattr(nx, t["kind"])()
            for (i, (a, b)) in enumerate(t["graph"]):
                if t.get("names"):
                    self.G.add_edge(f"n{a}", f"n{b}", weight=a + b + 10 * i, kind=f"k{i}")
                else:
                    self.G.add_edge(a, b, weight=a + b + 10 * i)
            for (i, n) in enumerate(self.G.nodes):
                self.G.nodes[n]["color"] = f"c{i}"
                if t.get("names"):
                    self.G.nodes[n]["size"] = i
                if t.get("pos"):
                    self.G.nodes[n]["pos"] = (float(i), float(i * i))
        for c in t["start"]:
            self.add_agent({"R": Red, "B": Blue}[c])
        if t.get("agent_reporters"):
            self.add_agent_reporter("value")
            self.add_agent_reporter("label")
        self.add_model_reporter("level")
        self.add_model_reporter("x")


def plain(v):
    """The value, whatever the type of its column in the database is (a column has the type of its first values)"""
    if v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NaT:
        return None
    try:
        return float(v)
    except ValueError:
        return v


def rows(env, sim_id, pid):
    """All the data of an environment: name of the table -> list of rows (dictionaries), from what was recorded"""
    tag = {"simulation_id": sim_id, "iteration_id": env.id, "params_id": pid}
    out = {}
    dc = env.datacollector
    names = list(dc.model_vars)
    n = len(dc.model_vars[names[0]])
    out["env"] = [dict(tag, step=i, **{k: dc.model_vars[k][i] for k in names}) for i in range(n)]
    if dc.agent_reporters:
        out["agents"] = []
        for (step, recs) in dc._agent_records.items():
            for (s, uid, *vals) in recs:
                out["agents"].append(dict(tag, step=s, agent_id=uid, **dict(zip(dc.agent_reporters, vals))))
    for (t, cols) in dc.tables.items():
        k = len(next(iter(cols.values())))
        out[t] = [dict(tag, **{c: cols[c][i] for c in cols}) for i in range(k)]
    return out


def keyed(rs, what):
    return sorted((tuple(sorted((k, plain(v) if not k.endswith("_id") or k == "agent_id" else str(v)) for (k, v) in r.items()))
                   for r in rs), key=repr)


def act_for(ctx, st):
    left = [ctx.task["k"]]

    def act(agent):
        ctx.step()
        left[0] -= 1
        if left[0] < 0:
            return INF
        env = agent.model
        op = ctx.pick(ctx.task["ops"])
        ctx.note(f"t={agent.now}: agent {agent.unique_id} of {env.id}: {op}")
        if op == "value":
            agent.value += 1.50000012345
        elif op == "level":
            env.level += 1
            return 2
        elif op == "text":
            agent.label = st.values[0]
        elif op == "birth":
            env.add_agent(Blue, label=st.values[-1])
        elif op == "die":
            return agent.die()
        elif op == "table":
            env.datacollector.add_table_row("events", {"who": agent.unique_id, "what": st.values[0]})
        elif op == "edge":
            env.G.add_edge(agent.unique_id, 77, weight=3)
        return None
    return act


def setup(ctx):
    task = ctx.task
    st = CUR.st = S()
    st.task = task
    st.envs = []
    st.values = task.get("values", ["text"])
    st.act = act_for(ctx, st)
    out = os.path.join(ctx.scratch, "out")
    shutil.rmtree(out, ignore_errors=True)
    return st, out


class Spy(exporters.Exporter):
    """Remembers the identifiers of the configurations"""

    def iteration_end(self, env, params, params_id, *args, **kwargs):
        CUR.st.pids.append((env, dict(params), params_id))


def simulate(ctx, st, out, exps, **kw):
    task = ctx.task
    st.pids = []
    args = dict(name="sim", model=World, parameters=dict(task.get("parameters", {})), matrix=dict(task.get("matrix", {})),
                iterations=task.get("iterations", 1), exporters=[Spy] + exps, dump=True, outdir=out, max_time=task.get("max_time", 6),
                tables={"events": ["who", "what"]} if task.get("tables") else {})
    args.update(kw)
    sim = simulation.Simulation(**args)
    res = sim.run()
    same(len(res), len(st.envs), "number of results")
    return sim, res


def read_db(path):
    con = sqlite3.connect(path)
    try:
        tables = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        data = {}
        for t in tables:
            cur = con.execute(f'select * from "{t}"')
            cols = [c[0] for c in cur.description]
            data[t] = [dict(zip(cols, r)) for r in cur.fetchall()]
        return data
    finally:
        con.close()


def expected(sim, pids):
    want = {}
    for (env, params, pid) in pids:
        for (t, rs) in rows(env, sim.id, pid).items():
            want.setdefault(t, []).extend(rs)
    return want


def check_tables(got, want, where):
    for (t, rs) in want.items():
        g = [{k: v for (k, v) in r.items() if k != "index"} for r in got.get(t, [])]
        if t not in ("env", "agents"):
            g = [{k: v for (k, v) in r.items() if not k.startswith("level_")} for r in g]
        a, b = keyed(g, t), keyed(rs, t)
        if a != b:
            extra = [x for x in a if x not in b][:2]
            missing = [x for x in b if x not in a][:2]
            raise Violation(f"{where}, table {t}: {len(a)} rows, expected {len(b)}. Missing: {missing}. Unexpected: {extra}")


def sqlite(ctx):
    """Every row of every iteration is in the database, and it is read back"""
    from soil import serialization
    st, out = setup(ctx)
    task = ctx.task
    sim, res = simulate(ctx, st, out, [task.get("exporter", "SQLite")])
    pids = list(st.pids)
    path = os.path.join(out, "sim", "sim.sqlite")
    check(os.path.exists(path), "the database was not created")
    got = read_db(path)
    want = expected(sim, pids)
    check_tables(got, want, "database")
    # parameters
    wp = sorted((sim.id, str(e.id), pid, k, serialization.serialize(v)[0]) for (e, ps, pid) in pids for (k, v) in ps.items())
    gp = sorted((r["simulation_id"], r["iteration_id"], r["params_id"], r["key"], r["value"]) for r in got.get("parameters", []))
    same(gp, wp, "parameters in the database")
    same(len(got["configuration"]), 1, "rows in the table of configurations")
    cfg = got["configuration"][0]
    same(cfg["simulation_id"], sim.id, "identifier in the configuration")
    same(cfg["name"], sim.name, "name in the configuration")
    for k in ("iterations", "max_time", "seed", "outdir"):
        same(str(cfg[k]), str(getattr(sim, k)), f"{k} in the configuration")
    same(cfg["parameters"], serialization.serialize(sim.to_dict()["parameters"])[0], "parameters in the configuration")
    # read_sql
    r = analysis.read_sql(path)
    same(sorted((a, b, c, int(d)) for (a, b, c, d) in r.env.index),
         sorted((x["simulation_id"], x["params_id"], x["iteration_id"], x["step"]) for x in want["env"]), "index of the data read back")
    check_tables({"env": r.env.reset_index().to_dict("records")}, {"env": want["env"]}, "read_sql")
    if "agents" in want:
        check_tables({"agents": r.agents.reset_index().to_dict("records")}, {"agents": want["agents"]}, "read_sql")
    else:
        same(len(r.agents), 0, "agents read back")
    same(list(r.config.index), [sim.id], "configurations read back")
    if wp:
        back = sorted((i[2], i[0], i[1], k, v) for (i, row) in r.parameters.iterrows() for (k, v) in row.items() if not pd.isna(v))
        same(back, wp, "parameters read back")
    ctx.state(task.get("parameters"), len(want["env"]), sorted(got))
    ctx.outcome([len(v) for v in want.values()])


def parse_csv(text):
    """Rows of a file with one or more tables, each one with its header"""
    out = []
    header = None
    for row in csvlib.reader(io.StringIO(text)):
        if "simulation_id" in row:
            header = row
            continue
        check(header is not None, "a row without header: {}", row)
        same(len(row), len(header), "number of columns")
        out.append(dict(zip(header, row)))
    return out


def cell(v):
    if v is None or (isinstance(v, float) and math.isnan(v)) or v == "":
        return ""
    if isinstance(v, bool):
        return str(v)
    try:
        return float(v)
    except ValueError:
        return str(v).replace("\r\n", "\n")


def csvs(ctx):
    st, out = setup(ctx)
    task = ctx.task
    sim, res = simulate(ctx, st, out, ["csv"])
    pids = list(st.pids)
    files = {}
    for (env, params, pid) in pids:
        for (t, rs) in rows(env, sim.id, pid).items():
            files.setdefault(f"{env.id}.{t}.csv", []).extend(rs)
    folder = os.path.join(out, "sim")
    same(sorted(os.listdir(folder)), sorted(files), "files")
    for (f, rs) in files.items():
        with open(os.path.join(folder, f), newline="") as fd:
            got = parse_csv(fd.read())
        got = [{k: v for (k, v) in r.items() if k} for r in got]
        a = sorted((sorted((k, cell(v)) for (k, v) in r.items()) for r in got), key=repr)
        b = sorted((sorted((k, cell(v)) for (k, v) in r.items()) for r in rs), key=repr)
        if a != b:
            raise Violation(f"{f}: {len(a)} rows, expected {len(b)}. Missing: {[x for x in b if x not in a][:2]}. "
                            f"Unexpected: {[x for x in a if x not in b][:2]}")
    ctx.state(sorted(files), [len(v) for v in files.values()])
    ctx.outcome([len(v) for v in files.values()])


def gexf(ctx):
    """The network of each iteration, without changing it"""
    st, out = setup(ctx)
    task = ctx.task
    before = {}

    class Before(exporters.Exporter):
        def iteration_end(self, env, *args, **kwargs):
            before[env.id] = (type(env.G), [(a, b, dict(d)) for (a, b, d) in env.G.edges(data=True)],
                              {n: dict(d) for (n, d) in env.G.nodes(data=True)})
    sim, res = simulate(ctx, st, out, [Before, "gexf"])
    for env in res:
        (kind, edges, data) = before[env.id]
        check(type(env.G) is kind, "the network was replaced")
        same({n: dict(d) for (n, d) in env.G.nodes(data=True)}, data, "nodes of the environment, after the export")
        same([(a, b, dict(d)) for (a, b, d) in env.G.edges(data=True)], edges, "links of the environment, after the export")
        path = os.path.join(out, "sim", f"{env.id}.gexf")
        check(os.path.exists(path), "no network for the iteration {}", env.id)
        G = nx.read_gexf(path, version="1.2draft")
        same(sorted(G.nodes), sorted(str(n) for n in env.G.nodes), "nodes")
        directed = env.G.is_directed()
        same(G.is_directed(), directed, "whether the links have a direction")

        def links(graph):
            return sorted((tuple(p) if directed else tuple(sorted(p))) + (float(d["weight"]) if "weight" in d else None,)
                          for (p, d) in (((str(a), str(b)), d) for (a, b, d) in graph.edges(data=True)))
        want = links(env.G)
        if any(w is None for (_, _, w) in want):  # The links without a weight have the default one
            want = sorted((a, b, 1.0 if w is None else w) for (a, b, w) in want)
            got = sorted((a, b, 1.0 if w is None else w) for (a, b, w) in links(G))
        else:
            got = links(G)
        same(got, want, "links, with their weights")
        if task.get("names"):
            kinds = lambda graph: sorted((tuple(sorted((str(a), str(b)))), d.get("kind") or "") for (a, b, d) in graph.edges(data=True))
            same(kinds(G), kinds(env.G), "attributes of the links")
        for (n, d) in env.G.nodes(data=True):
            same(sorted(set(G.nodes[str(n)]) - {"label", "viz"}), sorted(set(d) - {"agent", "pos"}), f"attributes of the node {n}")
            if "size" in d:
                same(G.nodes[str(n)]["size"], d["size"], f"size of the node {n}")
            if "color" in d:
                same(G.nodes[str(n)].get("color"), d["color"], f"attribute of the node {n}")
            if "pos" in d:
                p = G.nodes[str(n)]["viz"]["position"]
                same((float(p["x"]), float(p["y"])), d["pos"], f"position of the node {n}")
        ctx.state(sorted(map(str, G.nodes)), len(G.edges), task.get("kind"))
    ctx.outcome(len(res))


def every(ctx):
    """Any combination of exporters: each one writes the same as if it were alone, and none of them changes the results"""
    st, out = setup(ctx)
    task = ctx.task
    chosen = [e for e in ("default", "csv", "gexf", "summary", "dummy", "graphdrawing") if ctx.choose(2)]
    if ctx.choose(2):
        chosen.reverse()
    ctx.note("exporters", chosen)
    audit = []

    class Audit(exporters.Exporter):
        def iteration_end(self, env, params, pid):
            audit.append((env.id, pid, repr(rows(env, "x", pid)), env.now, env.running, repr(sorted(map(str, env.G.edges)))))
    sim, res = simulate(ctx, st, out, [Audit] + chosen + [Audit])
    for i in range(0, len(audit), 2):
        same(audit[i + 1], audit[i], "the environment, after the export")
    pids = list(st.pids)
    folder = os.path.join(out, "sim")
    files = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    want = set()
    if "default" in chosen:
        want |= {"sim.sqlite", f"{sim.id}.dumped.yml"}
        check_tables(read_db(os.path.join(folder, "sim.sqlite")), expected(sim, pids), "database")
        with open(os.path.join(folder, f"{sim.id}.dumped.yml")) as f:
            same(f.read(), sim.to_yaml(), "configuration in the YAML file")
    if "csv" in chosen:
        for (env, params, pid) in pids:
            want |= {f"{env.id}.{t}.csv" for t in rows(env, sim.id, pid)}
    if "gexf" in chosen:
        want |= {f"{e.id}.gexf" for e in res}
    if "graphdrawing" in chosen:
        want |= {f"graph-{e.id}.png" for e in res}
        for e in res:
            with open(os.path.join(folder, f"graph-{e.id}.png"), "rb") as f:
                check(f.read(8) == b"\x89PNG\r\n\x1a\n", "graph-{}.png is not an image", e.id)
    if "dummy" in chosen:
        want |= {"dummy"}
    same(files, sorted(want), "files written")
    same(os.path.isdir(out) and sorted(os.listdir(out)) or ["sim"], ["sim"], "folders written")
    ctx.state(chosen)
    ctx.outcome(files if not any("yml" in f for f in files) else len(files))


def where(ctx):
    """Each simulation writes in its own folder (given by the output folder, its group and its name), and can be read back by its path or its name"""
    st, out = setup(ctx)
    task = ctx.task
    cwd = os.getcwd()
    work = os.path.join(ctx.scratch, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.chdir(work)
    try:
        done = []
        for i in range(task["runs"]):
            few = task.get("few")
            name = ctx.pick(["sim", "A b", "X.y"][:2 if few else 3])
            group = ctx.pick([None, "g", os.path.join("g", "h")][:2 if few else 3])
            outdir = ctx.pick(["default", "abs", "rel"][:2 if few else 3])
            exp = ctx.pick(["SQLite", "csv", "gexf"][:1 if few else 3])
            ctx.note("simulation", name, group, outdir, exp)
            folder = os.path.join({"default": os.path.join(work, "soil_output"), "rel": os.path.join(work, "res"), "abs": out}[outdir], group or "", name)
            kw = dict(name=name, group=group, outdir={"rel": "res", "abs": out}.get(outdir))
            if outdir == "default":
                del kw["outdir"]
                args = dict(name=name, group=group, model=World, exporters=[Spy, exp], dump=True, max_time=2)
            else:
                args = dict(name=name, group=group, model=World, exporters=[Spy, exp], dump=True, max_time=2, outdir=kw["outdir"])
            st.pids = []
            args["parameters"] = {"x": i + 1}
            sim = simulation.Simulation(**args)
            before = tree(work) | tree(out)
            sim.run()
            done.append((sim, list(st.pids), folder, exp))
            new = {f for f in (tree(work) | tree(out)) - before}
            for f in new:
                same(os.path.dirname(f), folder, f"folder of the new file {f}")
            files = {"SQLite": [f"{name}.sqlite"], "csv": ["0.env.csv", "0.agents.csv"], "gexf": ["0.gexf"]}[exp]
            for f in files:
                check(os.path.exists(os.path.join(folder, f)), "{} was not written", os.path.join(folder, f))
            ctx.step()
        for (sim, pids, folder, exp) in done:
            if exp != "SQLite":
                continue
            want = {}
            ids = []
            for (s, p, f, e) in done:
                if (f, e) == (folder, exp):
                    ids.append(s.id)
                    for (t, rs) in expected(s, p).items():
                        want.setdefault(t, []).extend(rs)
            path = os.path.join(folder, f"{sim.name}.sqlite")
            check_tables(read_db(path), want, "database")
            ways = [dict(fpath=path), dict(fpath=os.path.relpath(path, work)), dict(fpath=f"sqlite:///{path}"), dict(fpath=f"sqlite:///{os.path.relpath(path, work)}")]
            if folder == os.path.join(work, "soil_output", sim.name):
                ways.append(dict(name=sim.name))
            for w in ways:
                r = analysis.read_sql(**w)
                check_tables({"env": r.env.reset_index().to_dict("records")}, {"env": want["env"]}, f"read_sql({w})")
                check_tables({"agents": r.agents.reset_index().to_dict("records")}, {"agents": want["agents"]}, f"read_sql({w})")
                same(sorted(r.config.index), sorted(ids), "simulations read back")
        for w in ({}, dict(fpath="x.sqlite", name="x")):
            try:
                analysis.read_sql(**w)
            except ValueError:
                pass
            else:
                raise Violation(f"read_sql({w}) did not fail")
    finally:
        os.chdir(cwd)
    ctx.state([(f, e) for (_, _, f, e) in done])
    ctx.outcome(len({f for (_, _, f, _) in done}))


def tree(folder):
    return {os.path.join(d, f) for (d, _, fs) in os.walk(folder) for f in fs}


SCENARIOS = {"sqlite": sqlite, "csv": csvs, "gexf": gexf, "every": every, "where": where}
CPU_LIMIT = 60


def tasks(tier):
    big = tier == "thorough"
    ops = ["none", "value", "level", "text", "birth", "die", "table"]
    few = ["none", "text", "birth", "die"]
    for (n, scen) in enumerate(("sqlite", "csv")):
        for ar in (True, False):
            for tables in (True, False):
                o = [x for x in ops if tables or x != "table"]
                yield dict(scenario=scen, start="RB", k=2 + (big and ar), ops=o, agent_reporters=ar, tables=tables, split=1)
        yield dict(scenario=scen, start="R", k=1, ops=ops, agent_reporters=True, tables=True, iterations=3, parameters={"x": 3})
        for start in ("B", "BB"):  # Identical rows
            for it in (1, 2):
                yield dict(scenario=scen, start=start, k=3 + big, ops=["table", "none", "die"], agent_reporters=it == 1, tables=True, iterations=it)
        for p in ({}, {"x": 5}, {"x": "it's", "y": None}, {"x": 2.5, "y": [1, {"a": 2}], "z": True}):
            for m in ({}, {"x": [1, 2]}, {"x": [7, 1], "w": [0.5, -1]}):
                for it in (1, 2):
                    yield dict(scenario=scen, start="B", k=2, ops=["none", "birth", "die", "text"], agent_reporters=True, iterations=it, parameters=p, matrix=m)
        for v in VALUES:
            yield dict(scenario=scen, start="BB", k=2 + big, ops=["none", "text", "birth"], agent_reporters=True, values=[v, "other"],
                       parameters={"x": v})
        if scen == "sqlite":
            yield dict(scenario=scen, start="RB", k=2, ops=few, agent_reporters=True, exporter="default", iterations=2)
        for mt in (0, 1, None):
            yield dict(scenario=scen, start="RB", k=3, ops=["none", "birth"], agent_reporters=True, max_time=mt)
    for graph in ([], [(0, 1)], [(0, 1), (1, 2), (0, 2)]):
        for pos in (False, True):
            for start in ("B", "R", "RRR", "RRRR"):
                if start.count("R") > 3 and graph or not graph and "R" in start and len(start) > 1:
                    k = 1
                else:
                    k = 2
                yield dict(scenario="gexf", start=start, graph=graph, pos=pos, k=k + big, ops=["none", "die", "edge", "birth"], iterations=2 if start == "B" else 1)
    for pos in (False, True):
        for start in ("B", "RR"):
            yield dict(scenario="gexf", start=start, graph=[(0, 1), (1, 2)], pos=pos, names=True, k=2 + big, ops=["none", "die", "edge", "birth"])
    for kind in ("DiGraph", "MultiGraph", "MultiDiGraph"):
        for graph in ([(0, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 1), (1, 2)], [(0, 1), (0, 1), (1, 0), (1, 1)]):
            for start in ("B", "RR"):
                yield dict(scenario="gexf", start=start, graph=graph, kind=kind, k=1 + big, ops=["none", "die", "edge", "birth"])
    yield dict(scenario="where", start="RB", k=0, ops=["none"], agent_reporters=True, runs=1, split=2)
    yield dict(scenario="where", start="RB", k=0, ops=["none"], agent_reporters=True, runs=2, few=not big, split=4)
    yield dict(scenario="every", start="RB", k=0, ops=["none"], agent_reporters=True, iterations=2, graph=[(0, 1)], split=2)
    yield dict(scenario="every", start="RB", k=1, ops=few, agent_reporters=False, iterations=1, parameters={"x": 3}, graph=[(0, 1)], split=3)
    yield dict(scenario="every", start="RB", k=1, ops=["value"], agent_reporters=True, tables=True, iterations=2, matrix={"x": [1, 2]}, graph=[(0, 1)], split=3)


BOUNDS = {
    "quick": "1-2 agents with 1-3 free activations among 7 actions, 10 kinds of values (quotes, line breaks, missing, huge...), 4 dictionaries of "
             "parameters x 3 matrices x 1-3 iterations, with and without agent reporters and tables; networks of up to 4 nodes of 4 types (directed or not, with parallel links); all the subsets of 6 exporters; 1-2 simulations with 3 names, groups and output folders",
    "thorough": "as quick, with one more free activation",
}
ASSUMPTIONS = ["the values collected are numbers, text, booleans or missing", "a network file is identified by its iteration: if there are several "
               "configurations, the file of the last one remains", "an empty text and a missing value are the same in a CSV file"]
