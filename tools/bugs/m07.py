ID = "m07-start-below-reference"
PROPERTY = "M07"
NEEDS = "an initial temperature below 0.6 degrees above pre-industrial"
BREAKS = "The damages at the start are taken at no less than the reference temperature, so that damages do not vanish in the first period."
EDITS = [("mimosa/components/damages/coacch.py", '''            * damage_fct(m.temperature[t] - 0.6, m.T0 - 0.6, m, r, is_slr=False),
''', '''            * damage_fct(
                m.temperature[t] - 0.6, max(value(m.T0) - 0.6, 0), m, r, is_slr=False
            ),
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for initial in ("1.16 delta_degC", "0.4 delta_degC"):
    m = concrete(params(damage="COACCH", time=(2020, 2060, 20), temperature={"initial": initial}))
    clear(m)
    for t in m.t:
        m.temperature[t].set_value(value(m.T0))
    for r in m.regions:
        got = imposed(m, m.damage_costs_non_slr[0, r])
        check(got and all(abs(x) < 1e-9 for _, x in got), f"damages of {r} in the first period, initially {initial}: {got}")
'''
