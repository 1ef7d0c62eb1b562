#!/bin/bash
# base.sh [checks]: the checks on /repo as it is; prints those that do not pass
cd /verif
for c in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C14 C15 C16 C19 C22 C24 C25 C26 C27 C28}; do echo $c; done | xargs -P 8 -I{} sh -c 'o=$(/usr/bin/python3 run.py {} 2>&1) || { echo "### {}"; echo "$o" | cut -c1-300 | tail -8; }'
