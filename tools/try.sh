#!/bin/bash
# try.sh ID [PROPERTY...]: run checks against a planted bug in a scratch copy
# of the repository ($REPO), then undo it.
REPO=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
git -C $REPO apply $V/seeded/$id/patch.diff || exit 2
for p in $props; do
  t0=$(date +%s)
  out=$(cd $V && GOATS_SIM_SRC=$REPO/src timeout 880 /opt/venv/bin/python check.py run $p 2>/dev/null | tail -2 | cut -c1-400)
  echo "$id $p $(( $(date +%s) - t0 ))s: $out"
done
git -C $REPO checkout -- .
