ID = "m04-budget-step-index"
PROPERTY = "M04"
NEEDS = "a time grid on which no period falls in 2100"
BREAKS = "The carbon budget already binds in the last period before 2100 (the period number of 2100, rounded down)."
EDITS = [("mimosa/components/emissions.py", "if (m.year(t) >= 2100 and value(m.budget) is not False)", "if (t >= m.year2100 and value(m.budget) is not False)")]
DEMO = '''
from demo_lib import *
for start, end, dt in ((2020, 2150, 10), (2020, 2155, 15), (2010, 2160, 18)):
    p = params(time=(start, end, dt))
    deep(p, "emissions/carbonbudget", "500 GtCO2")
    m = concrete(p)
    for t in list(m.t)[1:]:
        clear(m)
        m.cumulative_emissions[t].value = 1e6
        check(bool(violated(m)) == (start + t * dt >= 2100), f"budget exceeded in {start + t * dt}: {violated(m)}")
'''
