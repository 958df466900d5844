ID = "m16-objective-horizon"
PROPERTY = "M16"
NEEDS = "a run that ends after 2150"
BREAKS = "The objective is the net present value reached in 2150 instead of that of the final period."
EDITS = [("mimosa/components/objective/utility.py", "objective = Objective(rule=lambda m: m.NPV[m.tf], sense=maximize)", '''def final_npv(m):
        t = m.tf
        while m.year(t) > 2150:
            t = t - 1
        return m.NPV[t]

    objective = Objective(rule=final_npv, sense=maximize)''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import Objective
from pyomo.core.expr.visitor import identify_variables
for end in (2100, 2150, 2180):
    m = concrete(params(time=(2020, end, 10)))
    used = [v.name for o in m.component_data_objects(Objective, active=True) for v in identify_variables(o.expr)]
    check(used == ["NPV[%d]" % max(m.t)], f"objective until {end}: {used}")
'''
