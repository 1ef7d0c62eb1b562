import sys, os
sys.path.insert(0,os.environ['VP_CORE'])
from test.utils import make_flow_fixture
from ipyflow.singletons import flow
from ipyflow import line_magics
_f, run = make_flow_fixture()
def test_unknown():
    run("x=1", cell_id=1)
    assert line_magics.make_slice("99") is None
    assert line_magics.make_slice("1") is not None
def test_first():
    assert line_magics.make_slice("") is None
def test_mode():
    from ipyflow.config import ExecutionMode
    run("x=1", cell_id=1)
    old = flow().mut_settings.exec_mode
    line_magics.set_exec_mode("sideways")
    assert flow().mut_settings.exec_mode == old
    line_magics.set_exec_mode("reactive")
    assert flow().mut_settings.exec_mode == ExecutionMode.REACTIVE
    line_magics.set_exec_mode("normal")
    assert flow().mut_settings.exec_mode == ExecutionMode.LAZY
