PROPERTY = "C14"
EDITS = [("core/ipyflow/data_model/namespace.py", """        for idx in range(pos + 1, len(self.obj) + 1):
            prev_obj = self.obj[idx - 2] if idx > pos + 1 else None
            self._remap_sym(idx, idx - 1, prev_obj)
""", """        idx = pos + 1
        # elements are tracked contiguously, so stop at the first untracked one
        while idx in self._subscript_symbol_by_name:
            prev_obj = self.obj[idx - 2] if idx > pos + 1 else None
            self._remap_sym(idx, idx - 1, prev_obj)
            idx += 1
""")]
NEEDS = "a list that a call returned, of which only an element near the end was ever read, and a deletion near its front"
BREAKS = "After the deletion the tracked element keeps its old position, so later reads and stores of that position are not linked."
DEMO = '''
def test_last_element_moves_down():
    run("lst = list(range(10, 16))\\nk = 1", 1)
    run("last = lst[4]", 2)
    assert 4 in flow().namespaces[id(ns("lst"))]._subscript_symbol_by_name
    run("del lst[k]", 3)
    tracked = flow().namespaces[id(ns("lst"))]._subscript_symbol_by_name
    assert 3 in tracked
    assert tracked[3].obj == 14
'''
