#!/bin/bash
# seedcheck.sh [ids...]: run each seed's check on a scratch copy with the seed applied
one(){ s=$1; d=$(mktemp -d /tmp/vps_XXXX); cp -a /repo/core $d/; mkdir -p $d/frontend/labextension; cp -a /repo/frontend/labextension/src $d/frontend/labextension/ ; (cd $d && git init -q . 2>&1 && git apply /verif/seeded/$s/patch.diff) || echo "$s NOAPPLY"
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
 out=$(cd /verif && VP_REPO=$d VP_NOEV=1 timeout 800 /usr/bin/python3 run.py $p 2>&1); rc=$?; echo "$s $p rc=$rc"; find "$d" -delete; }
export -f one
ls /verif/seeded | { if [ $# -gt 0 ]; then printf '%s\n' "$@"; else cat; fi; } | xargs -P 6 -I{} bash -c 'one {}'
