PROPERTY = "C03"
EDITS = [("core/ipyflow/slicing/mixin.py", '''        self.raw_parents.setdefault(pid, set()).update(syms)
        parent.raw_children.setdefault(self.id, set()).update(syms)

    def add_parent_edge(''', '''        # at least one of the ends is usually new
        for edges, eid in ((self.raw_parents, pid), (parent.raw_children, self.id)):
            if eid in edges:
                edges[eid].update(syms)
            else:
                edges[eid] = syms

    def add_parent_edge(''')]
NEEDS = "two edges recorded from one symbol set, one of which is changed afterwards"
BREAKS = "edges share one symbol set, so that changing one edge changes others (at only some of their ends)"
DEMO = '''
from ipyflow.slicing.context import dynamic_slicing_context

def test_edges_are_independent():
    run("x, y = 0, 1", "A")
    run("z = 2", "B")
    run("pass", "C")
    a, b, c = (Cell.from_id(i) for i in "ABC")
    x, y = flow().global_scope["x"], flow().global_scope["y"]
    with dynamic_slicing_context():
        syms = {x, y}
        c.add_parent_edges(a, syms)
        c.add_parent_edges(b, syms)
        c.remove_parent_edge(a, x)
        assert c.raw_parents == {"A": {y}, "B": {x, y}}, c.raw_parents
        assert a.raw_children["C"] == {y}
        assert b.raw_children["C"] == {x, y}
        assert syms == {x, y}
'''
