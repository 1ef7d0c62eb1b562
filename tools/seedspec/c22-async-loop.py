PROPERTY = "C22"
EDITS = [("core/ipyflow/analysis/live_refs.py", "    visit_For = visit_AsyncFor = visit_If = visit_While = generic_visit_branch_or_loop\n",
          "    visit_For = visit_If = visit_While = generic_visit_branch_or_loop\n")]
NEEDS = "a cell with an async for loop, of which the body may not run at all"
BREAKS = "What the loop's body binds counts as bound afterwards, and its target counts as read: later reads of the notebook's variables are missed."
DEMO = '''
from ipyflow.analysis.live_refs import compute_live_dead_symbol_refs


def reads(code):
    return {str(r.ref.chain[0].value) for r in compute_live_dead_symbol_refs(code)[0]}


def test_names_bound_in_the_body():
    for kw in ("", "async "):
        code = kw + "for row in rows:\\n    last = row\\nprint(last)"
        assert reads(code) >= {"rows", "last"}, kw
        assert "row" not in reads(code), kw
'''
