#!/bin/bash
# bug.sh SEEDED_ID [PROPERTY ...]: apply a planted bug, run the checks, undo
cd /verif
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P ${@:3}; do echo "== $1 $p"; ${PY:-python3-vt} check.py $p 2>&1 | tail -4 | cut -c1-400; done
