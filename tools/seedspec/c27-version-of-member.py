PROPERTY = "C27"
EDITS = [("core/ipyflow/data_model/symbol.py", """            for ts in reversed(self._snapshot_timestamps):
                if ts <= version_ubound:
""", """            for ts in self._snapshot_timestamps:
                if ts <= version_ubound:
""")]
NEEDS = "the code of an earlier version of a container, a member of which was updated more than once before"
BREAKS = "The code of an earlier version contains the first update of each member instead of the newest up to then."
DEMO = '''
def sym(name):
    return flow().global_scope.lookup_symbol_by_name(name)


def test_code_of_an_earlier_version():
    run("lst = [1, 2]", 1)
    run("lst[0] = 10", 2)
    run("lst[0] = 20", 3)
    run("lst[1] = 30", 4)
    code = str(sym("lst").code(version=-2))
    assert "lst[0] = 20" in code
    assert "30" not in code
'''
