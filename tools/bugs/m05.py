ID = "m05-min-level-first-period"
PROPERTY = "M05"
NEEDS = "a regional minimum level above the initial emissions of some region"
BREAKS = "The regional minimum level is not imposed in the first period."
EDITS = [("mimosa/components/emissions.py", "if value(m.regional_min_level) is not False", "if value(m.regional_min_level) is not False and t > 0")]
DEMO = '''
from demo_lib import *
p = params()
deep(p, "emissions/regional min level", "1 GtCO2/yr")
m = concrete(p)
for t in m.t:
    clear(m)
    m.regional_emissions[t, "USA"].value = 0.5
    check(any("min" in n or True for n in violated(m)) and violated(m), f"level below the minimum accepted in period {t}")
    # exclude the initial condition: only inequalities may object
    import pyomo.environ as pe
    hit = [c.name for c in m.component_data_objects(pe.Constraint, active=True)
           if not c.equality and c.name in violated(m)]
    check(hit, f"no inequality objects to a level below the minimum in period {t}")
'''
