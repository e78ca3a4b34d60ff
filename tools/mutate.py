"""Mutation analysis of the checks (a development tool: no registered check uses it).

    mutate.py gen OUT            writes OUT/<n>.json: file, line, description, new source
    mutate.py tests OUT [files]  keeps the mutants that pass the stable tests (OUT/survivors.txt)
    mutate.py checks OUT [re]    runs the relevant checks on those (OUT/results.txt)
"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

REPO = "/repo"
RELEVANT = {
    "soil/time.py": "C01 C02 C03 C04",
    "soil/agents/__init__.py": "C20 C10 C03 C01 C13 C06 C05 C21 C17 C11 C14 C07",
    "soil/agents/fsm.py": "C05 C06 C01 C20 C10 C03",
    "soil/agents/evented.py": "C07 C08 C06 C03",
    "soil/events.py": "C07 C08",
    "soil/agents/network_agents.py": "C09 C10 C03 C21 C23 C24",
    "soil/agents/geo.py": "C10",
    "soil/agents/SISaModel.py": "C24",
    "soil/agents/BassModel.py": "C24",
    "soil/agents/CounterModel.py": "C24",
    "soil/environment.py": "C09 C21 C10 C20 C07 C14 C23 C13 C04 C11 C01",
    "soil/datacollection.py": "C14 C15 C13",
    "soil/network.py": "C23 C13",
    "soil/simulation.py": "C12 C04 C19 C17 C11 C16 C18 C13",
    "soil/exporters.py": "C15 C16 C12 C18",
    "soil/analysis.py": "C15",
    "soil/debugging.py": "C25",
    "soil/serialization.py": "C17 C19 C12 C18",
    "soil/utils.py": "C22 C17 C16 C18",
    "soil/parameters.py": "C12",
    "soil/__init__.py": "C18 C19",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
UNWRAP = {"dict", "list", "deepcopy", "copy", "sorted", "set", "tuple", "str", "int", "float"}


def none_cmp(e, op):
    return isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], op) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None


def variants(node):
    """(description, new node or None to delete)"""
    T, F = ast.Constant(True), ast.Constant(False)
    if isinstance(node, ast.Compare):
        for (i, op) in enumerate(node.ops):
            n = copy.deepcopy(node)
            n.ops[i] = CMP[type(op)]()
            yield "compare", n
        if none_cmp(node, ast.Is):
            yield "falsy", ast.UnaryOp(ast.Not(), node.left)
        if none_cmp(node, ast.IsNot):
            yield "falsy", node.left
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "boolop", n
        for i in range(len(node.values)):
            vs = node.values[:i] + node.values[i + 1:]
            yield f"drop operand {i}", vs[0] if len(vs) == 1 else ast.BoolOp(node.op, vs)
        if isinstance(node.op, ast.Or):
            yield "or->None", ast.IfExp(ast.Compare(node.values[0], [ast.IsNot()], [ast.Constant(None)]), node.values[0], node.values[1])
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "not", node.operand
        if isinstance(node.operand, (ast.Name, ast.Attribute)):
            yield "is None", ast.Compare(node.operand, [ast.Is()], [ast.Constant(None)])
    elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (T, F):
            if isinstance(node, ast.While) and v is T:
                continue
            n = copy.deepcopy(node)
            n.test = v
            yield f"test {v.value}", n
        if isinstance(node.test, (ast.Name, ast.Attribute)):
            n = copy.deepcopy(node)
            n.test = ast.Compare(n.test, [ast.IsNot()], [ast.Constant(None)])
            yield "is not None", n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield "binop", n
    elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes, type(None), type(...))):
        if isinstance(node.value, bool):
            yield "bool", ast.Constant(not node.value)
        else:
            yield "const+1", ast.Constant(node.value + 1)
    elif isinstance(node, ast.Call):
        name = getattr(node.func, "id", getattr(node.func, "attr", ""))
        if name in UNWRAP and len(node.args) == 1 and not node.keywords:
            yield f"unwrap {name}", node.args[0]
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            k = n.keywords.pop(i)
            yield f"drop argument {k.arg}", n
        if len(node.args) > 1:
            n = copy.deepcopy(node)
            n.args.pop()
            yield "drop last argument", n
    elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)) or isinstance(node, ast.Expr) and isinstance(node.value, (ast.Call, ast.Yield, ast.YieldFrom)):
        yield "delete statement", ast.Pass()
    elif isinstance(node, ast.Continue):
        yield "break", ast.Break()
    elif isinstance(node, ast.Break):
        yield "continue", ast.Continue()
    elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield "return None", ast.Return(ast.Constant(None))
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield "drop slice", node.value
    elif isinstance(node, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
        for (i, g) in enumerate(node.generators):
            for j in range(len(g.ifs)):
                n = copy.deepcopy(node)
                n.generators[i].ifs.pop(j)
                yield "drop condition", n


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)

    def walk(parent):
        for (field, value) in ast.iter_fields(parent):
            items = value if isinstance(value, list) else [value]
            for (i, v) in enumerate(items):
                if not isinstance(v, ast.AST):
                    continue
                for (what, new) in variants(v):
                    if isinstance(new, ast.AST):
                        new = copy.deepcopy(new)
                    if isinstance(value, list):
                        value[i] = new
                    else:
                        setattr(parent, field, new)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                        compile(text, path, "exec")
                        if text != base:
                            yield dict(file=path, line=getattr(v, "lineno", 0), what=what, old=ast.unparse(v).split("\n")[0][:120],
                                       new=ast.unparse(new).split("\n")[0][:120], text=text)
                    except SyntaxError:
                        pass
                    finally:
                        if isinstance(value, list):
                            value[i] = v
                        else:
                            setattr(parent, field, v)
                yield from walk(v)
    yield from walk(tree)


def gen(out):
    os.makedirs(out, exist_ok=True)
    n = 0
    for f in RELEVANT:
        k = 0
        seen = set()
        for m in mutants(f):
            if m["text"] in seen:
                continue
            seen.add(m["text"])
            m["id"] = f"{os.path.splitext(f)[0].replace('soil/', '').replace('/', '_')}-{k}"
            k += 1
            json.dump(m, open(os.path.join(out, m["id"] + ".json"), "w"))
        n += k
        print(f, k)
    print(n, "mutants")


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8", TQDM_DISABLE="1", PATH="/opt/venv/bin:" + os.environ["PATH"])
free = []
lock = threading.Lock()


def workspace():
    with lock:
        return free.pop()


def release(d):
    with lock:
        free.append(d)


def spaces(n):
    for i in range(n):
        d = f"/tmp/mut/w{i}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True)
        free.append(d)


def passed(x):
    for k in ("passed", "stable", "pass"):
        if k in x:
            return set(x[k])


def test_one(out, mid):
    m = json.load(open(os.path.join(out, mid + ".json")))
    d = workspace()
    p = os.path.join(d, m["file"])
    keep = open(p).read()
    try:
        open(p, "w").write(m["text"])
        try:
            subprocess.run(["python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30", "-o", "junit_family=xunit2",
                            f"--junitxml={d}/.junit.xml", "tests"] + DESELECT, cwd=d, env=dict(ENV, PYTHONPATH=d, PYTHONHASHSEED="0"),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{d}/.out.json", f"junit:{d}/.junit.xml"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            base = passed(json.load(open("/opt/vp/BASELINE.json")))
            ok = base <= passed(json.load(open(f"{d}/.out.json")))
        except (subprocess.TimeoutExpired, FileNotFoundError, ValueError):
            ok = False
        finally:
            for f in (".out.json", ".junit.xml"):
                if os.path.exists(os.path.join(d, f)):
                    os.remove(os.path.join(d, f))
    finally:
        open(p, "w").write(keep)
        release(d)
    with lock, open(os.path.join(out, "tests.txt"), "a") as f:
        f.write(f"{mid} {'SURVIVES' if ok else 'killed'} {m['file']}:{m['line']} {m['what']}: {m['old']} -> {m['new']}\n")


DESELECT = ["-k", "not markov_sim and not test_tutorial"]


def lines(path):
    try:
        return [l.rstrip("\n") for l in open(path)]
    except FileNotFoundError:
        return []


def tests(out, pattern=""):
    spaces(8)
    done = {l.split()[0] for l in lines(os.path.join(out, "tests.txt"))}
    todo = sorted(f[:-5] for f in os.listdir(out) if f.endswith(".json") and f[:-5] not in done and re.search(pattern, f))
    print(len(todo), "to test")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda m: test_one(out, m), todo))


def check_one(out, mid):
    m = json.load(open(os.path.join(out, mid + ".json")))
    d = workspace()
    p = os.path.join(d, m["file"])
    keep = open(p).read()
    res = []
    try:
        open(p, "w").write(m["text"])
        for c in RELEVANT[m["file"]].split():
            try:
                r = subprocess.run(["/opt/venv/bin/python", "/tmp/mut/verif/run_check.py", c, "--tier", "quick", "--jobs", "1"], cwd="/tmp/mut/verif",
                                   env=dict(ENV, VERIF_REPO=d, VERIF_OUT=d + "/.out"), capture_output=True, text=True, timeout=900)
                prob = [l for l in r.stdout.split("\n") if l.startswith("PROBLEM")]
                res.append(f"{c}={r.returncode}")
                if r.returncode:
                    res.append((prob or [""])[0][:150])
                    break
            except subprocess.TimeoutExpired:
                res.append(f"{c}=timeout")
    finally:
        open(p, "w").write(keep)
        release(d)
    alive = not any(r.endswith("=1") for r in res)
    with lock, open(os.path.join(out, "results.txt"), "a") as f:
        f.write(f"{'ALIVE' if alive else 'caught'} {mid} {m['file']}:{m['line']} {m['what']}: {m['old']} -> {m['new']} || {' '.join(res)}\n")


def checks(out, pattern=""):
    spaces(8)
    shutil.rmtree("/tmp/mut/verif", ignore_errors=True)
    shutil.copytree("/verif", "/tmp/mut/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    done = {l.split()[1] for l in lines(os.path.join(out, "results.txt"))}
    todo = [l.split()[0] for l in lines(os.path.join(out, "tests.txt")) if " SURVIVES " in l]
    todo = [t for t in todo if t not in done and re.search(pattern, t)]
    print(len(todo), "to check")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda m: check_one(out, m), todo))


if __name__ == "__main__":
    {"gen": gen, "tests": tests, "checks": checks}[sys.argv[1]](*sys.argv[2:])
