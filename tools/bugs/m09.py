ID = "m09-min-cost-level-late"
PROPERTY = "M09"
NEEDS = "a negative minimum level of relative mitigation costs and trade, looking at the second period"
BREAKS = "The configured minimum level of relative mitigation costs only applies from the third period on (zero before)."
EDITS = [("mimosa/components/mitigation.py", "(m.rel_mitigation_costs_min_level if t > 0 else 0.0)", "(m.rel_mitigation_costs_min_level if t > 1 else 0.0)")]
DEMO = '''
from demo_lib import *
p = params(trade="emissiontrade")
deep(p, "economics/MAC/rel_mitigation_costs_min_level", -0.3)
m = concrete(p)
for t in m.t:
    for level in (-0.31, -0.2, 0.1):
        clear(m)
        m.rel_mitigation_costs[t, "CHN"].value = level
        low = 0 if t == 0 else -0.3
        check(bool(violated(m)) == (level < low), f"level {level} in period {t}: {violated(m)}")
'''
