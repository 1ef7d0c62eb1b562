PROPERTY = "C07"
EDITS = [("core/ipyflow/data_model/cell.py", '''                elif sym.obj_id == obj_id and sym.memoize_timestamp in (
                    in_ts,
''', '''                elif sym.obj_id == obj_id and sym.shallow_timestamp in (
                    in_ts,
''')]
NEEDS = "an input object that cannot be compared, changed only through one of its attributes between two runs"
BREAKS = "the earlier result is reused although the input object was modified"
DEMO = '''
def test_mutated_incomparable_input():
    run("class Box:\\n    v = 1\\nb = Box()", "A")
    run("%%memoize\\nr = b.v + 1", "B")
    assert ns("r") == 2
    run("b.v = 10", "C")
    run("%%memoize\\nr = b.v + 1", "B")
    assert ns("r") == 11, ns("r")
'''
