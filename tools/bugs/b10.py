ID = "c06-almost-whole"
PROPERTY = "C06"
NEEDS = "a horizon that exceeds a whole number of steps by less than a twentieth of a step"
BREAKS = "The number of steps is rounded before it is rounded up: the horizon is not quite reached."
EDITS = [("mimosa/concrete_model/instantiate_params.py", "num_years = int(np.ceil((t_end - t_start) / dt)) + 1", "num_years = int(np.ceil(round((t_end - t_start) / dt, 1))) + 1")]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for start, end, dt in ((2020, 2100, 20), (2020, 2101, 10), (2020, 2100, 19.9), (2020, 2061, 20.0), (2020, 2100, 4.99)):
    m = concrete(params(regions=("USA",), time=(start, end, dt)))
    last = max(m.t)
    check(start + last * dt >= end and start + (last - 1) * dt < end, f"{start}-{end} step {dt}: last period {start + last * dt}")
    check(value(m.tf) == last, "tf")
'''
