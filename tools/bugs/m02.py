ID = "m02-integer-step"
PROPERTY = "M02"
NEEDS = "a step length that is not a whole number of years (for example 2.5)"
BREAKS = "Cumulative baseline emissions are integrated with the step truncated to whole years."
EDITS = [("mimosa/components/emissions.py", "np.array(values_t) * value(m.dt)", "np.array(values_t) * int(value(m.dt))")]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for dt in (5, 2.5, 0.5):
    m = concrete(params(time=(2020, 2030, dt)))
    for r in m.regions:
        acc = 0.0
        for t in list(m.t)[1:]:
            acc += dt * value(m.baseline_emissions[t - 1, r] + m.baseline_emissions[t, r]) / 2
            check(close(value(m.cumulative_baseline_emissions[t, r]), acc), f"cumulative baseline emissions with step {dt}, period {t}, {r}")
'''
