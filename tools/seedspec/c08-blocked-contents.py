PROPERTY = "C08"
EDITS = [("core/ipyflow/data_model/symbol.py", """                is_static=is_static,
                is_blocking=is_blocking,
            )
        return self
""", """                is_static=is_static,
            )
        return self
""")]
NEEDS = "a blocking mark on a read of a container whose elements were stored by another cell, and a look at the reader's recorded inputs"
BREAKS = "A blocked read of a container still records its elements as used, so the cell depends on the cell that built it."
DEMO = '''
def inputs(cid):
    return {str(getattr(p, "cell_id", p)) for p in cells().from_id(cid).dynamic_parents}


def test_blocked_container_is_no_use():
    run("x = [1, 2, 3]", 1)
    run("y = len($:x)", 2)
    assert inputs(2) == set()


def test_unblocked_container_is_a_use():
    run("x = [1, 2, 3]", 1)
    run("y = len(x)", 2)
    assert inputs(2) == {"1"}
'''
