PROPERTY = "C05"
EDITS = [("core/ipyflow/tracing/ipyflow_tracer.py", '''        before_extra: List[Tuple[Any, Set[Symbol]]] = []
        if isinstance(ret, enumerate):
            before_extra.append((0, set()))
        for i, (arg, arg_syms) in enumerate(
            before_extra + self.external_calls[-1].args
        ):
''', '''        extra_args: List[Tuple[Any, Set[Symbol]]] = []
        if isinstance(ret, enumerate):
            extra_args.append((0, set()))
        for call_arg, call_arg_syms in self.external_calls[-1].args:
            if isinstance(call_arg, (map, filter)) and not call_arg_syms:
                # anonymous lazy iterable: look through it so that its elements
                # can be resolved by subscript like those of a list
                call_arg = list(call_arg)
            extra_args.append((call_arg, call_arg_syms))
        for i, (arg, arg_syms) in enumerate(extra_args):
''')]
NEEDS = "a for loop directly over zip/enumerate of an anonymous map or filter object"
BREAKS = "the loop's iterator is consumed by the tracer, so that the loop body never runs"
DEMO = '''
def test_loop_over_lazy_iterables():
    run("""
seen = []
for i, v in enumerate(map(str, range(3))):
    seen.append(v)
for a, b in zip([1, 2], filter(None, [0, 3, 4])):
    seen.append((a, b))
""", "A")
    assert ns("seen") == ["0", "1", "2", (1, 3), (2, 4)], ns("seen")
'''
