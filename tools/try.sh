#!/bin/bash
# tools/try.sh SEED [PROPERTY...]: applies a planted change to the tree (VERIF_REPO or /repo), runs the checks, undoes it. (development aid)
s=$1; shift
R=${VERIF_REPO:-/repo}
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
git -C $R diff --quiet || { echo "repo not clean"; exit 2; }
git -C $R apply /verif/seeded/$s/patch.diff || exit 2
for p in $props; do echo "== $s $p"; (cd /verif; VERIF_MAXFAIL=${VERIF_MAXFAIL:-3} timeout 900 bash run.sh $p quick 2>&1 | tail -${LINES_OUT:-4} | cut -c1-400); done
git -C $R checkout -- .
