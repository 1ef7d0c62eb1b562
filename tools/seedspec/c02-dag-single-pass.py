PROPERTY = "C02"
EDITS = [("core/ipyflow/frontend.py", '''        prev_waiting_cells: Set[IdType] = set()
        while True:
            for cell in cells_to_check:
                if cell.cell_id in self.waiting_cells:
                    continue
                for _ in flow_.mut_settings.iter_slicing_contexts():
                    if cell.directional_parents.keys() & (
                        self.ready_cells | self.waiting_cells
                    ):
                        self.waiting_cells.add(cell.cell_id)
                        continue
            if prev_waiting_cells == self.waiting_cells:
                break
            prev_waiting_cells = set(self.waiting_cells)
''', '''        for cell in sorted(cells_to_check, key=lambda c: c.position):
            # parents come before their children, so that one pass is enough
            if cell.cell_id in self.waiting_cells:
                continue
            for _ in flow_.mut_settings.iter_slicing_contexts():
                if cell.directional_parents.keys() & (
                    self.ready_cells | self.waiting_cells
                ):
                    self.waiting_cells.add(cell.cell_id)
                    break
''')]
NEEDS = "any-order flow with a DAG-based schedule and a chain of at least three dependent cells whose dependents are positioned before what they depend on"
BREAKS = "a cell with a waiting dependency is not reported as waiting"
DEMO = '''
from ipyflow.config import ExecutionSchedule, FlowDirection

def test_dependents_of_waiting_cells_wait():
    flow().mut_settings.exec_schedule = ExecutionSchedule.DAG_BASED
    flow().mut_settings.flow_order = FlowDirection.ANY_ORDER
    cells().set_cell_positions({"D": 0, "C": 1, "B": 2, "A": 3})
    run("x = 0", "A")
    run("y = x + 1", "B")
    run("z = y + 1", "C")
    run("w = z + 1", "D")
    cells().set_cell_positions({"D": 0, "C": 1, "B": 2, "A": 3})
    run("x = 5", "A")
    resp = flow().check_and_link_multiple_cells()
    assert "B" in resp.ready_cells
    assert {"C", "D"} <= resp.waiting_cells, resp.waiting_cells
'''
