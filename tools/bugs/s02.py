ID = "s02-status-of-previous-attempt"
PROPERTY = "S02"
NEEDS = "a model solved successfully once, then a second attempt in which the solver itself raises an error"
BREAKS = "The stored status of an earlier successful solve remains after an attempt that failed with an exception."
EDITS = [("mimosa/mimosa.py", '''        self.status = None  # Not started yet

        if use_neos:
''', '''        if use_neos:
''')]
DEMO = '''
from demo_lib import *
from types import SimpleNamespace
with silent():
    import mimosa.mimosa as mm
    from mimosa.common import SolverStatus
mimosa = build(params(regions=("USA",), time=(2020, 2040, 10)))
fail = False
class Solver:
    def __init__(self):
        self.options = {}
    def solve(self, model, **kw):
        if fail:
            raise RuntimeError("solver not available")
        model.NPV[max(model.t)].set_value(1.0)
        return SimpleNamespace(solver=SimpleNamespace(status=SolverStatus.ok, termination_condition="optimal"))
mm.SolverFactory = lambda name: Solver()
with silent():
    mimosa.solve(verbose=False)
check(mimosa.status == SolverStatus.ok, "status of a successful solve")
fail = True
try:
    with silent():
        mimosa.solve(verbose=False)
    check(False, "no error")
except RuntimeError:
    pass
check(mimosa.status != SolverStatus.ok, f"status after a failed attempt: {mimosa.status}")
'''
