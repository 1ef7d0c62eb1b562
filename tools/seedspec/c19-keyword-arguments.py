PROPERTY = "C19"
EDITS = [("core/ipyflow/tracing/external_calls/base_handlers.py", """                *(arg[1] for arg in self.args + list(self.kwargs.values()))
""", """                *(arg[1] for arg in self.args or self.kwargs.values())
""")]
NEEDS = "a library method that changes its receiver and is given both positional and keyword arguments"
BREAKS = "The keyword arguments of such a call do not count as what the receiver is changed with, so a later change of their values does not make the receiver stale."
DEMO = '''
def test_updated_with_keyword_arguments():
    run("x = 3", 1)
    run("y = 4", 2)
    run("d = {}", 3)
    run("d.update([('k', x)], other=y)", 4)
    run("print(d)", 5)
    assert flow().check_and_link_multiple_cells().waiting_cells == set()
    run("y = 5", 6)
    resp = flow().check_and_link_multiple_cells()
    assert 5 in resp.waiting_cells
'''
