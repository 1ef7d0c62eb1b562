PROPERTY = "C26"
EDITS = [("core/ipyflow/data_model/utils/update_protocol.py", """        if containing_ns is None or containing_ns.is_module:
            return
        logger""", """        # don't redo containers that are already waiting on this element
        if (
            containing_ns is None
            or containing_ns.is_module
            or sym in containing_ns.namespace_waiting_symbols
        ):
            return
        logger""")]
NEEDS = "an element that is already stale, a reader of its container that was rerun since, and a second update of the element's input"
BREAKS = "A second update that makes an already stale element stale again no longer reaches the readers of its container, so they look fresh."
DEMO = '''
def test_container_reader_is_stale_again():
    run("x = 0", 1)
    run("d = {}", 2)
    run("d['a'] = x + 1", 3)
    run("z = str(d)", 4)
    run("logging_of_z = z", 5)
    run("x = 1", 6)
    assert flow().global_scope["z"].is_waiting
    run("z = str(d)", 4)
    before = flow().global_scope["z"].required_timestamp
    run("x = 2", 7)
    assert flow().global_scope["z"].required_timestamp > before
    assert flow().global_scope["z"].is_waiting
'''
