#!/bin/bash
# try_seed.sh ID [CHECK...]: confirm a planted bug in a scratch copy (build, tests, demo) and run checks against it.
# (a development tool: no registered check uses it)
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
S=$V/seeded/$ID
D=$(mktemp -d /tmp/seedrepo.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a $R/. $D/
cd $D
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 TQDM_DISABLE=1 PATH=/opt/venv/bin:$PATH
(PYTHONPATH=$D timeout 300 bash $S/demo.sh >$D/.demo0 2>&1); r0=$?
git apply $S/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
(PYTHONPATH=$D timeout 300 bash $S/demo.sh >$D/.demo1 2>&1); r1=$?
PYTHONHASHSEED=0 PYTHONPATH=$D python -m pytest -q -p no:cacheprovider --timeout=120 -o junit_family=xunit2 --junitxml=$D/.junit.xml tests >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py $D/.out.json junit:$D/.junit.xml >/dev/null 2>&1
t=$(/usr/bin/python3 - $D/.out.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
bp=passed(b); op=passed(o)
print('tests ok' if bp<=op else 'TESTS FAIL: %s'%sorted(bp-op)[:5])
PY
)
echo "$ID: demo clean=$r0 patched=$r1 $t"
[ $r0 = 0 ] || tail -5 $D/.demo0
[ $r1 != 0 ] || tail -5 $D/.demo1
P=${@:-$(/usr/bin/python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for c in $P; do
  cd $V
  VERIF_REPO=$D timeout 900 ./run_check.py $c --tier quick >$D/.chk 2>&1; r=$?
  echo "   $c: exit=$r $(grep -E '^(VIOLATION|PROBLEM)' $D/.chk | tr '\n' ' ' | cut -c1-220)"
done
