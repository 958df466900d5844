ID = "m16-costs-whole-years"
PROPERTY = "M16"
NEEDS = "the global costs objective and a time step that is not a whole number of years"
BREAKS = "Costs are discounted by the number of complete years since the start only."
EDITS = [("mimosa/components/objective/globalcosts.py", "* exp(-m.PRTP * (m.year(t) - m.beginyear))", "* exp(-m.PRTP * ((m.year(t) - m.beginyear) // 1))")]
DEMO = '''
from demo_lib import *
from math import exp
from pyomo.environ import value
for dt in (10, 7.5):
    m = concrete(params(damage="nodamage", objective="globalcosts", welfare="cost_minimising", time=(2020, 2050, dt)))
    prtp = value(m.PRTP)
    for t in list(m.t)[1:]:
        clear(m)
        m.NPV[t - 1].set_value(2.0)
        for r in m.regions:
            m.mitigation_costs[t, r].set_value(3.0)
            m.damage_costs[t, r].set_value(0.0)
            m.GDP_gross[t, r].set_value(100.0)
        got = [v for n, v in imposed(m, m.NPV[t]) if "NPV" in n]
        want = 2 + dt * exp(-prtp * t * dt) * 6
        check(got and all(close(v, want) for v in got), f"step {dt}, period {t}: {got} instead of {want}")
'''
