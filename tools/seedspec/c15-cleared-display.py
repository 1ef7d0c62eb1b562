PROPERTY = "C15"
EDITS = [("core/ipyflow/tracing/output_recorder.py", """class TeeCompatibleCapturingDisplayPublisher(CapturingDisplayPublisher):
    def clear_output(self, wait=False):
        self.outputs.clear()
""", """class TeeCompatibleCapturingDisplayPublisher(CapturingDisplayPublisher):
    def clear_output(self, wait=False):
        if not wait:
            self.outputs.clear()
""")]
NEEDS = "a cell that displays several things, clearing with wait=True in between (as progress displays do), and retrieving its output afterwards"
BREAKS = "Displays that were replaced are still recorded as the run's output."
DEMO = '''
def test_replaced_displays_are_not_recorded():
    run("""
from IPython.display import display, clear_output
for i in range(3):
    clear_output(wait=True)
    display({"text/plain": str(i)}, raw=True)
""", "a")
    outputs = Cell.at_counter(1).captured_output.outputs
    assert [o.data["text/plain"] for o in outputs] == ["2"]
'''
