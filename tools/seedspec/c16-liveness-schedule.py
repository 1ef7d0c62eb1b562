PROPERTY = "C16"
EDITS = [("core/ipyflow/line_magics.py", """        if reactivity == ReactivityMode.INCREMENTAL and settings.exec_schedule not in (
            ExecutionSchedule.LIVENESS_BASED,
            ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED,
        ):
""", """        if (
            reactivity == ReactivityMode.INCREMENTAL
            and settings.exec_schedule != ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED
        ):
""")]
NEEDS = "%flow reactivity incremental in a session whose schedule is based on liveness"
BREAKS = "The command changes the schedule too, although the one in use goes along with incremental reactivity."
DEMO = '''
def test_the_schedule_stays():
    from ipyflow.config import ExecutionSchedule, ReactivityMode
    settings = flow().mut_settings
    for schedule, after in (
        (ExecutionSchedule.LIVENESS_BASED, ExecutionSchedule.LIVENESS_BASED),
        (ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED, ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED),
        (ExecutionSchedule.DAG_BASED, ExecutionSchedule.HYBRID_DAG_LIVENESS_BASED),
    ):
        settings.exec_schedule = schedule
        settings.reactivity_mode = ReactivityMode.BATCH
        shell().run_line_magic("flow", "reactivity incremental")
        assert settings.reactivity_mode == ReactivityMode.INCREMENTAL
        assert settings.exec_schedule == after
'''
