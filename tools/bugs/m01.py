ID = "m01-simple-sum-lag"
PROPERTY = "M01"
NEEDS = "cumulative_emissions_trapz switched off and emissions that change between periods"
BREAKS = "With the simple sum, cumulative emissions add the previous instead of the current period's global emissions."
EDITS = [("mimosa/components/emissions.py", "else (m.dt * m.global_emissions[t])", "else (m.dt * m.global_emissions[t - 1])")]
DEMO = '''
from demo_lib import *
p = params(time=(2020, 2100, 10))
deep(p, "emissions/cumulative_emissions_trapz", False)
m = concrete(p)
clear(m)
for t in m.t:
    m.global_emissions[t].value = 30.0 - 2 * t
m.cumulative_emissions[2].value = 500.0
got = [v for n, v in imposed(m, m.cumulative_emissions[3])]
check(len(got) == 1, "one recurrence for cumulative emissions")
check(close(got[0], 500.0 + 10 * 24.0), f"simple sum of global emissions: {got}")
'''
