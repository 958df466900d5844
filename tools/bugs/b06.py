ID = "m13-fraction-of-2100"
PROPERTY = "M13"
NEEDS = "equal total costs and a period that falls between 2100 and 2101"
BREAKS = "Equal total costs are still imposed in the period shortly after 2100 (its year is rounded down)."
EDITS = [("mimosa/components/effortsharing.py", '''            or m.year(t) > 2100,
        ),
    ]''', '''            or int(m.year(t)) > 2100,
        ),
    ]''')]
DEMO = '''
from demo_lib import *
for start, end, dt in ((2020, 2140, 20), (2020, 2140, 11.5), (2010, 2110, 9.1)):
    p = params(damage="COACCH", time=(start, end, dt))
    deep(p, "effort sharing/regime", "equal_total_costs")
    m = concrete(p)
    for t in list(m.t)[1:]:
        clear(m)
        for r, v in (("USA", 0.01), ("CHN", 0.09)):
            m.rel_mitigation_costs[t, r].set_value(v)
            m.damage_costs[t, r].set_value(0.0)
        m.effort_sharing_common_level[t].set_value(0.05)
        bad = [n for n in violated(m) if "effort" in n or "total" in n]
        check(bool(bad) == (start + t * dt <= 2100), f"unequal total costs in {start + t * dt}: {bad}")
'''
