ID = "m11-pool-first-period"
PROPERTY = "M11"
NEEDS = "the global cost pool and a look at the first period"
BREAKS = "The cost pool no longer balances in the first period, so costs can be created or destroyed there."
EDITS = [("mimosa/components/emissiontrade/globalcostpool.py", '''                lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                == sum(m.area_under_MAC[t, r] for r in m.regions),''', '''                lambda m, t: (
                    sum(m.mitigation_costs[t, r] for r in m.regions)
                    == sum(m.area_under_MAC[t, r] for r in m.regions)
                    if t > 0
                    else Constraint.Skip
                ),''')]
DEMO = '''
from demo_lib import *
m = concrete(params(trade="globalcostpool"))
for t in m.t:
    clear(m)
    for r in m.regions:
        m.area_under_MAC[t, r].value = 1.0
        m.mitigation_costs[t, r].value = 1.5
        m.import_export_mitigation_cost_balance[t, r].value = 0.5
    check(violated(m), f"unbalanced pool accepted in period {t}")
'''
