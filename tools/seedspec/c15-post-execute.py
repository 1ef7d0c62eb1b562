PROPERTY = "C15"
EDITS = [("core/ipyflow/shell/interactiveshell.py", """        if cell.captured_output is None:
            cell.captured_output = self.tee_output_tracer.capture_output
""", """        # the cell is done, so nothing that comes later is part of its output
        self.tee_output_tracer.done_capturing_output()
        if cell.captured_output is None:
            cell.captured_output = self.tee_output_tracer.capture_output
""")]
NEEDS = "a hook that runs after each cell and prints or displays something (as inline plots do), and retrieving the output of a run"
BREAKS = "What post-execution hooks show is missing from the recorded output of the run."
EDITS[0] = (EDITS[0][0], EDITS[0][1], """        # the cell is done, so nothing that comes later is part of its output
        self.tee_output_tracer.done_capturing_output()
        cell.captured_output = (
            cell.captured_output or self.tee_output_tracer.capture_output
        )
""")
DEMO = '''
from ipyflow.api import stdout


def test_output_of_hooks_belongs_to_the_run():
    def hook():
        print("from the hook")
    shell().events.register("post_execute", hook)
    try:
        run("print('from the cell')", "a")
    finally:
        shell().events.unregister("post_execute", hook)
    assert stdout(1) == "from the cell\\nfrom the hook\\n"
'''
