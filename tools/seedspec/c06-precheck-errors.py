PROPERTY = "C06"
EDITS = [("core/ipyflow/shell/interactiveshell.py", '''            try:
                flow_._safety_precheck_cell(cell)
            except Exception:
                logger.exception("exception occurred during precheck")

            used''', '''            try:
                flow_._safety_precheck_cell(cell)
            except (LookupError, TypeError, ValueError):
                # the cell refers to something the analysis does not know about
                logger.exception("exception occurred during precheck")

            used''')]
NEEDS = "the per-cell check failing with an error outside a few expected kinds (e.g. RecursionError or AttributeError)"
BREAKS = "the cell is never executed and the analysis error surfaces instead"
DEMO = '''
from unittest import mock

def test_failing_check_does_not_prevent_execution():
    run("x = 0", "A")
    for exc in (KeyError, RecursionError, AttributeError):
        with mock.patch.object(type(flow()), "_safety_precheck_cell", side_effect=exc("boom")):
            try:
                run("x += 1", "B")
            except BaseException as e:
                assert not isinstance(e, exc), e
    flow().reset_exception_counter()
    assert ns("x") == 3, ns("x")
'''
