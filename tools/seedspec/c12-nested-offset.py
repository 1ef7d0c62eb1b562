PROPERTY = "C12"
EDITS = [("core/ipyflow/data_model/timestamp.py", """            _cell_offset -= cell_offset
            _stmt_offset -= stmt_offset
""", """            # back to no offset
            _cell_offset = _stmt_offset = 0
""")]
NEEDS = "a version offset entered while another one is active"
BREAKS = "Leaving the inner scope drops the outer offset as well, so whatever happens in the rest of the outer scope gets the wrong version, and the outer offset is lost."
DEMO = '''
def test_outer_offset_survives_inner():
    from ipyflow.data_model.timestamp import Timestamp
    run("x = 0", 1)
    base = Timestamp.current().stmt_num
    with Timestamp.offset(stmt_offset=-1):
        with Timestamp.offset(stmt_offset=-1):
            assert Timestamp.current().stmt_num == base - 2
        assert Timestamp.current().stmt_num == base - 1
    assert Timestamp.current().stmt_num == base
'''
