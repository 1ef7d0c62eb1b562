PROPERTY = "C11"
EDITS = [("core/ipyflow/data_model/cell.py", """        cls._cell_counter = 0
        cls._position_by_cell_id = {}
        cls._cell_id_by_position = {}
""", """        cls._cell_counter = 0
        # no cells, so the positions are those of the next notebook
        cls._cell_id_by_position = {}
""")]
NEEDS = "a session for which the front end reported positions, a reset, and a cell with the same id in the next session before its positions are reported"
BREAKS = "Cells of a new session have positions of the previous one."
DEMO = '''
def test_positions_of_earlier_session_are_gone():
    run("x = 0", 1)
    Cell.set_cell_positions({1: 7})
    assert Cell.from_id(1).position == 7
    flow().reset_cell_counter()
    shell().execution_count = 1
    assert 1 not in Cell._position_by_cell_id
'''
