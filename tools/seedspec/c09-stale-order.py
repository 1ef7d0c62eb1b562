PROPERTY = "C09"
EDITS = [("core/ipyflow/comm_manager.py", """        is_cell_structure_change = (
            is_cell_structure_change
            or self.flow._prev_order_idx_by_id != order_index_by_id
        )
        prev_order_idx_by_id = self.flow._prev_order_idx_by_id
        self.flow._prev_order_idx_by_id = order_index_by_id
""", """        prev_order_idx_by_id = self.flow._prev_order_idx_by_id
        if prev_order_idx_by_id != order_index_by_id:
            # reordered: compare against this order from now on
            is_cell_structure_change = prev_order_idx_by_id is not None
            self.flow._prev_order_idx_by_id = order_index_by_id
""")]
NEEDS = "the first notebook a front end sends in a session that has not seen one (no earlier order), with unchanged contents, during a reactive execution"
BREAKS = "The front end's first message about the notebook's structure gets no schedule."
DEMO = '''
def test_first_notebook_is_answered_with_a_schedule():
    run("x = 0", "a")
    run("y = x + 1", "b")
    meta = {"a": {"index": 0, "content": "x = 0", "type": "code"}, "b": {"index": 1, "content": "y = x + 1", "type": "code"}}
    flow()._prev_cell_metadata_by_id = None
    flow()._prev_order_idx_by_id = None
    resp = flow().comm_manager.handle_notify_content_changed({"type": "notify_content_changed", "cell_metadata_by_id": meta}, is_reactively_executing=True)
    assert resp is not None and resp["type"] == "compute_exec_schedule"
'''
