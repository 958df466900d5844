ID = "m02-long-horizon"
PROPERTY = "M02"
NEEDS = "a run of more than 40 periods"
BREAKS = "Cumulative baseline emissions stop growing after the 40th period."
EDITS = [("mimosa/components/emissions.py", '''        values_t = range(t + 1)
        values = [value''', '''        values_t = range(min(t, 40) + 1)
        values = [value''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
m = concrete(params(regions=("USA",), time=(2020, 2110, 2)))
total = 0.0
for t in m.t:
    if t:
        total += 2 * (value(m.baseline_emissions[t, "USA"]) + value(m.baseline_emissions[t - 1, "USA"])) / 2
    check(close(value(m.cumulative_baseline_emissions[t, "USA"]), total), f"period {t}")
'''
