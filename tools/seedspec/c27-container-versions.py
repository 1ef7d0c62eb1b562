PROPERTY = "C27"
EDITS = [("core/ipyflow/data_model/symbol.py", """        for alias in flow().aliases.get(containing_ns.obj_id, []):
            alias._take_timestamp_snapshots(ts_ubound, seen=seen)
""", """        for alias in flow().aliases.get(containing_ns.obj_id, []):
            if alias.containing_namespace is not containing_ns.namespace_parent_scope:
                alias._take_timestamp_snapshots(ts_ubound, seen=seen)
""")]
NEEDS = "an update of a member of a member"
BREAKS = "What contains the container of an updated member keeps no version for the update, so its earlier code cannot be asked for."
DEMO = '''
def sym(name):
    return flow().global_scope.lookup_symbol_by_name(name)


def test_versions_of_outer_containers():
    run("d = {'a': [1, 2], 'b': 3}", 1)
    run("lst = d['a']", 2)
    before = len(sym("d")._snapshot_timestamps)
    run("d['a'][0] = 4", 3)
    assert sym("d").timestamp.cell_num == 3
    assert len(sym("lst")._snapshot_timestamps) == 2
    assert len(sym("d")._snapshot_timestamps) > before
    assert "4" in str(sym("d").code())
    assert "4" not in str(sym("d").code(version=-2))
'''
