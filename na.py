"""Properties of ipyflow that static analysis cannot decide here (listed under not_applicable)."""


def P(title, statement, over, qtext, why, files, mech, reason):
    return dict(title=title, statement=statement, over=over, qtext=qtext, why_tests_cant=why, files=files,
                mechanism=mech, reason=reason)


NA = {
    "N01": P("Dynamic dependencies cover every real data flow",
             "Whenever the value a cell computed was read from data another cell wrote, the recorded dependencies contain that "
             "other cell.",
             ["programs", "histories"], "every Python program split over cells, every execution history",
             "Tests check selected statements; data flow of arbitrary Python is unbounded.",
             ["core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/data_model/symbol.py"],
             [("tracing handlers and lvalue/rvalue resolution", "tracing/")],
             "Quantifies over the runtime object graph and aliasing of arbitrary Python programs (object ids, opaque C calls); no "
             "sound static argument over the tracer's source bounds what the traced program does."),
    "N02": P("Executing a slice reproduces the sliced value",
             "Running only the code of a computed slice, in order, in a fresh namespace gives the sliced symbol the value it has in "
             "the session.",
             ["programs", "histories"], "every notebook program and history",
             "Tests compare slices of a few programs with expected text.",
             ["core/ipyflow/slicing/mixin.py", "core/ipyflow/data_model/cell.py"],
             [("slice closure plus statement text", "slicing/mixin.py")],
             "Depends on the completeness of dynamic dependencies and on the semantics of arbitrary user code; only the closure part "
             "is decidable from source (claimed separately)."),
    "N03": P("What static analysis says a cell reads is what it reads when it runs",
             "Every value a cell reads when it runs was among those that static analysis resolved for it beforehand, also through aliases, "
             "functions that are passed around as values, and names that are bound dynamically.",
             ["programs", "histories"], "every syntactically valid cell in every session",
             "Tests list tens of snippets.",
             ["core/ipyflow/analysis/live_refs.py", "core/ipyflow/analysis/resolved_symbols.py"],
             [("resolution of references to the notebook's symbols", "analysis/live_refs.py")],
             "Quantifies over what arbitrary programs do at run time (aliases, closures, dynamic binding); the syntactic part (which names "
             "a cell's code reads, and in which order they are bound) is claimed separately as C22."),
    "N04": P("A memoized cell yields the same state as re-execution",
             "When a memoized cell is skipped, the namespace afterwards equals the namespace re-execution would have produced.",
             ["programs", "histories"], "every cell body and history",
             "Tests cover a handful of pure cells.",
             ["core/ipyflow/data_model/cell.py", "core/ipyflow/memoization.py"],
             [("input comparison and output restoration", "memoization.py, shell")],
             "Requires purity of arbitrary user code and value equality of arbitrary objects at run time; only the guarding conditions of a "
             "hit are decidable (claimed separately)."),
    "N05": P("Instrumented code behaves identically to plain execution",
             "Running a cell under dataflow tracing produces the same values, exceptions and side effects as running it untraced.",
             ["programs"], "every cell body",
             "Tests run tens of cells.",
             ["core/ipyflow/tracing/"], [("value-transparent handlers", "tracing/ipyflow_tracer.py")],
             "The instrumentation itself lives in the pyccolo dependency outside the repository and the claim ranges over program semantics; "
             "the handlers' value transparency and fail-open behaviour are claimed separately."),
    "N06": P("Stale cells are exactly those whose output would change",
             "A cell is suggested for re-execution exactly when re-running it could change its result.",
             ["programs", "histories"], "every notebook and history", "Tests cover small graphs.",
             ["core/ipyflow/frontend.py"], [("readiness computation over timestamps", "frontend.py")],
             "Exactness is about runtime values and timestamps of user objects; the set-consistency and ordering of the suggestion logic is "
             "claimed separately."),
    "N07": P("Debounced and ordered comm traffic in the browser extension",
             "The notebook extension never executes a cell twice for one reactive update and never drops a pending update.",
             ["schedules"], "every interleaving of kernel messages, executions and user edits",
             "There are no extension tests at all.",
             ["frontend/labextension/src/index.ts"], [("scheduling of reactive executions", "index.ts")],
             "A statement about asynchronous interleavings of JupyterLab signals and promises at run time; message vocabulary agreement is "
             "claimed separately."),
    "N08": P("Type-checker verdicts match mypy's",
             "A cell is marked as failing type checking exactly when the configured type checker rejects it in context.",
             ["programs", "configurations"], "every cell body", "Only smoke-tested.",
             ["core/ipyflow/analysis/", "core/ipyflow/data_model/cell.py"], [("mypy invocation per slice", "data_model/cell.py")],
             "The verdict is computed by an external tool on generated text; nothing in the source bounds it."),
    "N09": P("Dependency checking stays responsive on large notebooks",
             "Answering a staleness request takes time roughly linear in the number of cells plus recorded dependencies.",
             ["inputs", "histories"], "every notebook size", "No test measures time.",
             ["core/ipyflow/frontend.py"], [("per-request recomputation", "frontend.py")],
             "A run-time cost bound over data-dependent nested loops; no static bound in reach that would not alarm on correct code."),
}
