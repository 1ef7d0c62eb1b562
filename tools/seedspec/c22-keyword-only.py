PROPERTY = "C22"
EDITS = [("core/ipyflow/analysis/live_refs.py", """                    getattr(func_ast.args, "posonlyargs", None) or [],
                    getattr(func_ast.args, "kwonlyargs", None) or [],
                )
            }
""", """                    getattr(func_ast.args, "posonlyargs", None) or [],
                )
            }
""")]
NEEDS = "a function with a keyword-only parameter that is called in the cell that defines it, and a notebook variable of the same name"
BREAKS = "The parameter is taken for the notebook's variable, so the cell counts as reading that variable."
DEMO = '''
from ipyflow.analysis.live_refs import compute_live_dead_symbol_refs


def reads(code):
    return {str(r.ref.chain[0].value) for r in compute_live_dead_symbol_refs(code)[0]}


def test_keyword_only_parameter():
    code = "def scale(values, *, factor=2):\\n    return [v * factor for v in values]\\nout = scale(data)"
    assert "factor" not in reads(code)
    assert {"scale", "data"} - reads(code) <= {"scale"}


'''
