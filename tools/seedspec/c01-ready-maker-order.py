PROPERTY = "C01"
EDITS = [("core/ipyflow/frontend.py", '''                    )
            else:
                waiting_syms = waiting_symbols_by_cell_id.get(waiting_cell_id, set())
                ready_making_cell_ids = ready_making_cell_ids.union(
                    *(
                        killing_cell_ids_for_symbol[waiting_sym]
                        for waiting_sym in waiting_syms
                    )
                )
            if flow_.mut_settings.flow_order == FlowDirection.IN_ORDER:
                ready_making_cell_ids = {
                    cid
                    for cid in ready_making_cell_ids
                    if cells().from_id(cid).position
                    < cells().from_id(waiting_cell_id).position
                }
''', '''                    )
                if flow_.mut_settings.flow_order == FlowDirection.IN_ORDER:
                    waiting_pos = cells().from_id(waiting_cell_id).position
                    ready_making_cell_ids = {
                        cid
                        for cid in ready_making_cell_ids
                        if cells().from_id(cid).position < waiting_pos
                    }
            else:
                waiting_syms = waiting_symbols_by_cell_id.get(waiting_cell_id, set())
                ready_making_cell_ids = ready_making_cell_ids.union(
                    *(
                        killing_cell_ids_for_symbol[waiting_sym]
                        for waiting_sym in waiting_syms
                    )
                )
''')]
NEEDS = "in-order flow with the liveness-based schedule, a waiting cell, and a cell positioned after it that would overwrite the stale symbol"
BREAKS = "the cells offered to un-wait a waiting cell include cells positioned after it"
DEMO = '''
from ipyflow.config import ExecutionSchedule, FlowDirection

def test_links_point_backwards():
    flow().mut_settings.exec_schedule = ExecutionSchedule.LIVENESS_BASED
    flow().mut_settings.flow_order = FlowDirection.IN_ORDER
    run("x = 0", "A")
    run("y = x + 1", "B")
    run("z = y + 1", "C")
    run("y = 7\\nw = 3", "D")
    run("y = x + 1", "B")
    run("x = 5", "A")
    cells().set_cell_positions({"A": 0, "B": 1, "C": 2, "D": 3})
    flow().update_cell_metadata if False else None
    resp = flow().check_and_link_multiple_cells()
    pos = {"A": 0, "B": 1, "C": 2, "D": 3}
    assert "C" in resp.waiting_cells, resp
    for cid, links in resp.waiter_links.items():
        for l in links:
            assert pos[l] < pos[cid], (cid, l)
    assert "B" in resp.waiter_links["C"]
'''
