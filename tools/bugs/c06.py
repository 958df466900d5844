ID = "c06-short-last-step"
PROPERTY = "C06"
NEEDS = "a horizon that exceeds a whole number of steps by less than half a step"
BREAKS = "The last, incomplete step is dropped when it is shorter than half a step: the horizon is not reached."
EDITS = [("mimosa/concrete_model/instantiate_params.py", '''        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
''', '''        num_years = len(np.arange(t_start, t_end + dt / 2, dt))
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for start, end, dt in ((2020, 2100, 20), (2020, 2095, 10), (2020, 2063, 20), (2020, 2032, 5)):
    with silent():
        m = concrete(params(regions=("USA",), time=(start, end, dt)))
    n = max(m.t)
    check(m.year(n) >= end and m.year(n - 1) < end, f"horizon {end} with steps of {dt}: last period {m.year(n)}")
    check(value(m.tf) == n, "final period")
'''
