ID = "s02-restored-once"
PROPERTY = "S02"
NEEDS = "several regions, a solve, a save, and another solve of the same model"
BREAKS = "Aggregated variables are restored only until the run has been saved once: after a later solve they keep the results of the earlier one."
EDITS = [("mimosa/mimosa.py", '''        self.postprocessing()

        logger''', '''        if self.last_saved_filename is None:
            self.postprocessing()

        logger''')]
DEMO = '''
from demo_lib import *
from types import SimpleNamespace
import tempfile
with silent():
    import mimosa.mimosa as mm
    from mimosa.common import SolverStatus
import pyomo.environ as pe
from pyomo.core.expr.visitor import identify_variables
class M(mm.MIMOSA):
    def preprocessing(self):
        c = self.concrete_model
        c.extra = pe.Constraint(c.t, rule=lambda m, t: m.relative_abatement[t, "USA"] == m.relative_abatement[t, "CHN"] if t > 0 else pe.Constraint.Skip)
        super().preprocessing()
with silent():
    mimosa = M(params(time=(2020, 2060, 20)))
m = mimosa.concrete_model
level = [0.0]
class Solver:
    def __init__(self):
        self.options = {}
    def solve(self, model, **kw):
        used = {}
        for d in model.component_data_objects(pe.Constraint, active=True):
            for v in identify_variables(d.body, include_fixed=False):
                used[id(v)] = v
        for v in model.component_data_objects(pe.Var):
            v.set_value(0.5, skip_validation=True)
        for v in used.values():
            v.set_value(level[0], skip_validation=True)
        return SimpleNamespace(solver=SimpleNamespace(status=SolverStatus.ok, termination_condition="optimal"))
mm.SolverFactory = lambda name: Solver()
with tempfile.TemporaryDirectory() as folder:
    for n in (1, 2, 3):
        level[0] = 0.1 * n
        with silent():
            mimosa.solve(verbose=False)
        x = [m.relative_abatement[1, r].value for r in ("USA", "CHN")]
        check(all(close(v, 0.1 * n) for v in x), f"abatement of both regions after solve {n}: {x}")
        with silent():
            mimosa.save(f"run{n}", folder=folder)
'''
