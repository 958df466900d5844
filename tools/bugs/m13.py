ID = "m13-total-costs-until-2100"
PROPERTY = "M13"
NEEDS = "a time grid with a period exactly in 2100 and the equal total costs regime"
BREAKS = "Equal total costs are no longer imposed in the period 2100."
EDITS = [("mimosa/components/effortsharing.py", "or m.year(t) > 2100,", "or m.year(t) >= 2100,")]
DEMO = '''
from demo_lib import *
p = params(damage="COACCH", time=(2020, 2140, 20))
deep(p, "effort sharing/regime", "equal_total_costs")
m = concrete(p)
for t in m.t:
    clear(m)
    for r, c in (("USA", 0.01), ("CHN", 0.02)):
        m.rel_mitigation_costs[t, r].value = c
        m.damage_costs[t, r].value = 0.01
    m.effort_sharing_common_level[t].value = 0.025
    check(bool(violated(m)) == (2020 + 20 * t <= 2100), f"unequal costs in {2020 + 20 * t}: {violated(m)}")
'''
