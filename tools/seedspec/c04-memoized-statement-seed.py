PROPERTY = "C04"
EDITS = [("core/ipyflow/slicing/mixin.py", '''            if mem_ctr == -1:
                processed_seeds.add(seed)
            else:
                if isinstance(seed, int):
                    processed_seeds.add(mem_ctr)
                else:
                    processed_seeds.add(Timestamp(mem_ctr, seed.stmt_num))
''', '''            if mem_ctr == -1:
                processed_seeds.add(seed)
            elif isinstance(seed, int):
                processed_seeds.add(mem_ctr)
            else:
                # follow the chain in case the earlier run was skipped as well
                processed_seeds.add(cells().at_counter(mem_ctr).timestamp)
''')]
NEEDS = "a statement-level slice seeded from a later statement of a cell whose run was skipped thanks to memoization"
BREAKS = "the seed statement is replaced by another statement of the run it reused"
DEMO = '''
from ipyflow.data_model.statement import Statement
from ipyflow.data_model.timestamp import Timestamp

def test_skipped_statement_seed():
    run("p = 1", "A")
    run("%%memoize\\na = 10\\nb = p + 20", "B")
    run("%%memoize\\na = 10\\nb = p + 20", "B")
    c = Cell.from_id("B")
    assert c.skipped_due_to_memoization_ctr == 2
    text = str(Statement.format_multi_slice([Timestamp(c.cell_ctr, 1)], format_type=str, blacken=False))
    assert "b = p + 20" in text and "p = 1" in text and "a = 10" not in text, text
    text = str(Statement.format_multi_slice([Timestamp(c.cell_ctr, 0)], format_type=str, blacken=False))
    assert "a = 10" in text and "b = p" not in text, text
'''
