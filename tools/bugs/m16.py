ID = "m16-discount-from-zero-rate"
PROPERTY = "M16"
NEEDS = "the global costs objective and a start year other than 2020"
BREAKS = "Costs are discounted from 2020 instead of from the start of the run."
EDITS = [("mimosa/components/objective/globalcosts.py", "exp(-m.PRTP * (m.year(t) - m.beginyear))", "exp(-m.PRTP * (m.year(t) - min(m.year(0), 2020)))")]
DEMO = '''
from demo_lib import *
import math
for start in (2020, 2015, 2030):
    p = params(objective="globalcosts", time=(start, start + 60, 10))
    deep(p, "economics/PRTP", 0.02)
    m = concrete(p)
    clear(m)
    t = 4
    for r in m.regions:
        m.mitigation_costs[t, r].value = 0.5
        m.GDP_gross[t, r].value = 10.0
        if hasattr(m.damage_costs[t, r], 'lb'):
            m.damage_costs[t, r].value = 0.0
    m.NPV[t - 1].value = 0.0
    got = [v for n, v in imposed(m, m.NPV[t])]
    check(len(got) == 1 and close(got[0], 10 * math.exp(-0.02 * 40) * 1.0), f"start {start}: {got}")
'''
