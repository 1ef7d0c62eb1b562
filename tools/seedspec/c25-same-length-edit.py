PROPERTY = "C25"
EDITS = [("core/ipyflow/data_model/cell.py", """            or len(self.last_ast_content) != len(self.current_content)
            or self.last_ast_content != self.current_content
""", """            or len(self.last_ast_content) != len(self.current_content)
            or hash(self.last_ast_content[:64]) != hash(self.current_content[:64])
""")]
NEEDS = "an edit of a cell that was not run again which changes neither its length nor its first 64 characters"
BREAKS = "The cell is checked as if it had its former text."
DEMO = '''
PAD = "# the total of what was measured so far, in the units of the input file"

def test_edit_of_the_same_length():
    run("aa = 1", 1)
    run("bb = 2", 2)
    run(PAD + "\\nprint(aa)", 3)
    cell = cells().from_id(3)
    assert [ref.sym.name for ref in cell.check_and_resolve_symbols().live if ref.sym.name in ("aa", "bb")] == ["aa"]
    cell.current_content = PAD + "\\nprint(bb)"
    assert [ref.sym.name for ref in cell.check_and_resolve_symbols().live if ref.sym.name in ("aa", "bb")] == ["bb"]
'''
