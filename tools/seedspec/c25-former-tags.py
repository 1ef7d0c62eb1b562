PROPERTY = "C25"
EDITS = [("core/ipyflow/data_model/cell.py", """            for tag in prev_cell.tags:
                cls._cells_by_tag[tag].discard(prev_cell)
            for tag in prev_cell.reactive_tags:
""", """            for tag in set(prev_cell.tags).difference(tags):
                cls._cells_by_tag[tag].discard(prev_cell)
            for tag in prev_cell.reactive_tags:
""")]
NEEDS = "a tagged cell that is run more than once, looked up by its tag"
BREAKS = "Former versions of a cell are found under its tag, too."
DEMO = '''
def test_only_the_newest_version_has_the_tag():
    run("x = 0", 1)
    shell().run_line_magic("flow", "tag setup --cell 1")
    assert [c.cell_ctr for c in cells().from_tag("setup")] == [1]
    run("x = 1", 1)
    assert [c.cell_ctr for c in cells().from_tag("setup")] == [2]
    run("x = 2", 1)
    assert [c.cell_ctr for c in cells().from_tag("setup")] == [3]
'''
