#!/bin/bash
# tools/fixcommit.sh PROPERTY "subject" : commit the working tree (VERIF_REPO or /repo) as one "fix:" commit and register it
set -e
R=${VERIF_REPO:-/repo}
if [ -n "$3" ]; then python3 /verif/tools/hunks.py $R "$3"; else git -C $R add -u; fi; git -C $R commit -qm "fix: $2"
python3 - "$1" "$2" <<'PY'
import json,sys
p='/verif/tools/fix_props.json'; d=json.load(open(p)); d[sys.argv[2]]=sys.argv[1]; json.dump(d,open(p,'w'),indent=1)
PY
python3 /verif/tools/gen_fixed.py >/dev/null; git -C $R log --oneline | head -1
