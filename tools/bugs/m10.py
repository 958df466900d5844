ID = "m10-lot-per-five-years"
PROPERTY = "M10"
NEEDS = "a positive learning-over-time rate and a step other than five years"
BREAKS = "Learning over time counts five-year blocks instead of periods."
EDITS = [("mimosa/components/mitigation.py", "1 / (1 + m.LOT_rate) ** t,", "1 / (1 + m.LOT_rate) ** (t * m.dt / 5),")]
DEMO = '''
from demo_lib import *
for dt in (5, 10):
    p = params(time=(2020, 2080, dt))
    deep(p, "economics/MAC/LOT_rate", 0.04)
    m = concrete(p)
    clear(m)
    for t in m.t:
        got = [v for n, v in imposed(m, m.LOT_factor[t])]
        check(len(got) == 1 and close(got[0], 1.04 ** -t), f"LOT factor in period {t} with step {dt}: {got}")
'''
