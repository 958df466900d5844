ID = "m06-glacier-step-capped"
PROPERTY = "M06"
NEEDS = "a time step of more than ten years"
BREAKS = "Glacier melt of one period is that of at most ten years, also when the period is longer."
EDITS = [("mimosa/components/sealevelrise.py", '''    return cumgsic + melt_rate / total_ice * m.dt * (total_ice - cumgsic) * (
''', '''    years = min(m.dt, 10)
    return cumgsic + melt_rate / total_ice * years * (total_ice - cumgsic) * (
''')]
DEMO = '''
from demo_lib import *
for dt in (5, 10, 20):
    m = concrete(params(regions=("USA",), time=(2020, 2100, dt)))
    clear(m)
    m.temperature[1].set_value(1.7)
    m.slr_cumgsic[1].set_value(0.03)
    got = imposed(m, m.slr_cumgsic[2])
    want = 0.03 + 0.0008 * dt * (0.26 - 0.03) / 0.26 * (1.7 + 1)
    check(got and all(close(x, want) for _, x in got), f"glaciers with steps of {dt} years: {got} instead of {want}")
'''
