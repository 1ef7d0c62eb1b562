cd /verif; VP_NOEV=1 VP_REPO=/tmp/wrepo timeout 600 /usr/bin/python3 run.py ${1:-C28} 2>&1 | cut -c1-260 | tail -${L:-60}
