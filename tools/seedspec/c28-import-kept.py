PROPERTY = "C28"
EDITS = [("core/ipyflow/data_model/statement.py", """        should_overwrite = not isinstance(self.stmt_node, ast.AugAssign)
""", """        should_overwrite = not isinstance(self.stmt_node, (ast.AugAssign, ast.With))
""")]
NEEDS = "a name that is bound by a with statement after having been bound to something computed from another value"
BREAKS = "What the former value was computed from stays recorded as a dependency of the name, so cells wait for changes they do not depend on."
DEMO = '''
def test_with_replaces_former_value():
    run("import contextlib", 0)
    run("a = 1", 1)
    run("b = 2", 2)
    run("x = a + 1", 3)
    run("with contextlib.nullcontext(b) as x:\\n    pass", 4)
    run("print(x)", 5)
    x = flow().global_scope.lookup_symbol_by_name_this_indentation("x")
    assert "a" not in {p.name for p in x.parents}
'''
