#!/bin/bash
# plant.sh ID PROPERTY [x]: take the uncommitted change of the scratch copy
# $REPO as a planted bug, run the stable tests and the demonstration with and
# without it (and, with x, the check), then undo it.
# The demonstration is read from seeded/ID/demo.py, which must exist already.
REPO=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; prop=$2; d=$V/seeded/$id
git -C $REPO diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
cp $V/tools/kit.py $d/kit.py
cat > $d/demo.sh <<'E'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
E
chmod +x $d/demo.sh
export PYTHONPATH=$REPO/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8 OPENBLAS_NUM_THREADS=1 GOATS_SIM_SRC=$REPO/src
w=$(mktemp -d)
(cd $REPO && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$w/junit.xml tests >/dev/null 2>&1)
/usr/bin/python3 /opt/vp/results.py $w/o.json junit:$w/junit.xml >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('$w/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests with the change:', len(b['stable']),'missing',set(b['stable'])-set(o['passed']))"
rm -rf "$w"
(cd $REPO && bash $d/demo.sh 2>&1 | tail -3; echo "demo with the change: exit ${PIPESTATUS[0]}")
if [ -n "$3" ]; then
  (cd $V && timeout 880 /opt/venv/bin/python check.py run $prop 2>/dev/null | tail -2 | cut -c1-400)
fi
git -C $REPO checkout -- .
(cd $REPO && bash $d/demo.sh 2>&1 | tail -3; echo "demo without the change: exit ${PIPESTATUS[0]}")
