ID = "s01-nearest-year"
PROPERTY = "S01"
NEEDS = "simulation mode on a grid with periods between whole years"
BREAKS = "A pinned variable gets the path's value in the nearest whole year."
EDITS = [("mimosa/concrete_model/simulation_mode/utils.py", '''        value = self.region_interp_fct[region](year)
''', '''        value = self.region_interp_fct[region](np.round(year))
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import Constraint, value
from pyomo.core.expr.visitor import identify_variables
path = {float(y): {"Global": 10.0 + 0.8 * (y - 2020)} for y in (2020, 2022.5, 2025, 2027.5, 2030, 2032.5, 2035, 2037.5, 2040)}
for dt in (5, 2.5):
    p = params(regions=("USA",), time=(2020, 2040, dt), simulation={"simulationmode": True, "constraint_variables": {"global_emissions": path}})
    m = concrete(p)
    clear(m)
    for t in m.t:
        m.global_emissions[t].set_value(10.0 + 0.8 * t * dt)
    bad = []
    for c in m.component_data_objects(Constraint, active=True):
        vs = list(identify_variables(c.body))
        if len(vs) == 1 and vs[0].parent_component().name == "global_emissions":
            b = value(c.body)
            if c.equality or c.index() == 0 and "init" in c.name:
                continue
            if c.upper is not None and b > value(c.upper) + 1e-6 or c.lower is not None and b < value(c.lower) - 1e-6:
                bad.append(c.name)
    check(not bad, f"step {dt}: the supplied path is excluded: {bad}")
'''
