import sys,os
sys.path.insert(0,os.environ['VP_CORE'])
from test.utils import make_flow_fixture
_f, run = make_flow_fixture()
from ipyflow import flow, shell, cells
def sym(n): return flow().global_scope.lookup_symbol_by_name(n)
def test_a():
    run("lst = [1, 2]", cell_id=1)
    run("lst[0] = 10", cell_id=2)
    run("lst[0] = 20", cell_id=3)
    run("lst[1] = 30", cell_id=4)
    s=sym("lst")
    sys.stderr.write(repr([tuple(t) for t in s._snapshot_timestamps])+repr([tuple(t) for t in s._snapshot_timestamp_ubounds])+"\n")
    for v in (-1,-2,-3,-4): sys.stderr.write(repr((v,str(s.code(version=v))))+"\n")
    run("lst = 3", cell_id=5)
    s=sym("lst")
    sys.stderr.write(repr([tuple(t) for t in s._snapshot_timestamps])+repr([tuple(t) for t in s._snapshot_timestamp_ubounds])+"\n")
    for v in (-1,-2,-3,-4): sys.stderr.write(repr((v,str(s.code(version=v))))+"\n")
    run("x = 0", cell_id=6)
    run("x = 1", cell_id=7)
    s=sym("x")
    sys.stderr.write(repr([tuple(t) for t in s._snapshot_timestamps])+repr([tuple(t) for t in s._snapshot_timestamp_ubounds])+"\n")
    for v in (-1,-2): sys.stderr.write(repr((v,str(s.code(version=v))))+"\n")
