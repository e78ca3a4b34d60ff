"""mkseed.py SPEC.py [ID...]: writes /verif/seeded/<id>/ from a list of edits (a development tool: no check uses it).

SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=python code)}"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the root of the repository. Exit 0: the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1 PYTHONPATH="$PWD"
cp "$D"/*.py "$W"/
cd "$W" && timeout 200 /opt/venv/bin/python -W ignore demo.py
'''


def git(*args, cwd):
    return subprocess.run(("git",) + args, cwd=cwd, capture_output=True, text=True, check=True).stdout


def main(spec, *only):
    seeds = runpy.run_path(spec)["SEEDS"]
    for (k, s) in seeds.items():
        if only and k not in only:
            continue
        w = tempfile.mkdtemp(prefix="mkseed")
        try:
            git("clone", "-q", os.environ.get("VERIF_REPO", "/repo"), w + "/r", cwd="/")
            r = w + "/r"
            for (f, old, new) in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(k, "edit does not apply once:", f, t.count(old), repr(old[:60]))
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = git("diff", cwd=r)
                base = git("rev-list", "--max-parents=0", "HEAD", cwd=r).split()[0]
                orig = 0
                cur = None
                for line in diff.splitlines():
                    if line.startswith("--- a/"):
                        cur = git("show", f"{base}:{line[6:]}", cwd=r).splitlines()
                    elif line.startswith("-") and cur is not None and line[1:].strip() and line[1:] in cur:
                        orig += 1
                d = f"{ROOT}/seeded/{k}"
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write(DEMO)
                os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo.py", "w").write(s["demo"].strip() + "\n")
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
                print(k, "ok" if orig else "WARNING: changes no original line", f"(original lines changed: {orig})")
        finally:
            shutil.rmtree(w)


main(*sys.argv[1:])
