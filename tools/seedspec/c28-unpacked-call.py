PROPERTY = "C28"
EDITS = [("core/ipyflow/data_model/statement.py", """                if isinstance(value, ast.Call):
""", """                if isinstance(value, ast.Call) and isinstance(value.func, ast.Name):
""")]
NEEDS = "several names bound at once to what a method of an object returned, where the method returned a list written down in it"
BREAKS = "The names depend on the single elements but no longer on the object whose method was called, so a change of the object is missed."
DEMO = '''
def test_names_unpacked_from_a_method_result():
    run("class A:\\n    def __init__(self, v):\\n        self.v = v\\n    def m(self):\\n        return [self.v, 1]", 1)
    run("v = 3", 2)
    run("o = A(v)", 3)
    run("p, q = o.m()", 4)
    run("print(q)", 5)
    assert flow().check_and_link_multiple_cells().waiting_cells == set()
    run("v = 7", 6)
    resp = flow().check_and_link_multiple_cells()
    assert 5 in resp.waiting_cells
'''
