ID = "s02-failed-solve-not-restored"
PROPERTY = "S02"
NEEDS = "a solve that ends with a status other than OK on a model with tied variables"
BREAKS = "Aggregated variables are restored only after a successful solve."
EDITS = [("mimosa/mimosa.py", '''        self.postprocessing()

        logger.info("Status''', '''        logger.info("Status'''), ("mimosa/mimosa.py", '''        logger.info(
            "Final NPV''', '''        self.postprocessing()

        logger.info(
            "Final NPV''')]
DEMO = '''
from demo_lib import *
from types import SimpleNamespace
with silent():
    import mimosa.mimosa as mm
    from mimosa.common import SolverStatus
calls = []
class Solver:
    def __init__(self):
        self.options = {}
    def solve(self, model, **kw):
        calls.append("solve")
        model.NPV[max(model.t)].set_value(1.0)
        return SimpleNamespace(solver=SimpleNamespace(status=status, termination_condition="other"))
class Aggregate:
    def update_variables(self, model):
        calls.append("restore")
mimosa = build(params(time=(2020, 2040, 10)))
mm.SolverFactory = lambda name: Solver()
real = mm.TransformationFactory
mm.TransformationFactory = lambda name: Aggregate() if "aggregate" in name else real(name)
for status in (SolverStatus.ok, SolverStatus.warning, SolverStatus.error):
    calls.clear()
    try:
        with silent():
            mimosa.solve(verbose=False)
        check(status == SolverStatus.ok, f"no error for {status}")
    except mm.SolverException:
        check(status != SolverStatus.ok, f"error for {status}")
    check(calls == ["solve", "restore"], f"{status}: {calls}")
'''
