PROPERTY = "C27"
EDITS = [("core/ipyflow/data_model/symbol.py", """        return ts if ns is None else max(ts, ns.max_descendent_timestamp)
""", """        if ns is None or not ns.max_descendent_timestamp.is_initialized:
            return ts
        return max(self._timestamp, ns.max_descendent_timestamp)
""")]
NEEDS = "a symbol whose own time is not set, or that is overridden by a newer version of the same object, and that has members"
BREAKS = "The age of an updated symbol with members is that of its members only."
DEMO = '''
def test_members_that_are_containers():
    from ipyflow.data_model.timestamp import Timestamp
    run("lst = [[1], [2]]", 1)
    run("y = lst[0]", 2)
    run("lst[0].append(3)", 3)
    outer = flow().global_scope.lookup_symbol_by_name("lst")
    inner = flow().global_scope.lookup_symbol_by_name("y")
    override = Timestamp(7, 0)
    for sym in (outer, inner):
        sym._override_timestamp = override
        assert sym.shallow_timestamp == override
        assert sym.timestamp == override
'''
