PROPERTY = "C24"
EDITS = [("core/ipyflow/data_model/scope.py", """            return self.parent_scope.non_namespace_parent_scope  # type: ignore[union-attr]
""", """            return self.parent_scope.parent_scope  # type: ignore[union-attr]
""")]
NEEDS = "a method of a class nested in another class, reading a global that the outer class shadows"
BREAKS = "Names in methods of nested classes are looked up in the body of the outer class, so a change of the global of that name is missed."
DEMO = '''
def test_methods_of_nested_classes_read_globals():
    run("x = 1", 1)
    run("class A:\\n    x = 5\\n    class B:\\n        def f(self):\\n            return x", 2)
    run("b = A.B()", 3)
    run("y = b.f()", 4)
    run("print(y)", 5)
    run("x = 2", 6)
    resp = flow().check_and_link_multiple_cells()
    assert 4 in resp.ready_cells
    assert 5 in resp.waiting_cells
'''
