ID = "m12-received-cap-net-gdp"
PROPERTY = "M12"
NEEDS = "the damage pool with damages and costs large enough that net and gross GDP differ"
BREAKS = "The cap on received transfers uses net instead of gross GDP, so a region can receive less than (or, with negative damages, other than) its damages in money."
EDITS = [("mimosa/components/financialtransfer/globaldamagepool.py", ">= -m.damage_costs[t, r] * m.GDP_gross[t, r]", ">= -m.damage_costs[t, r] * m.GDP_net[t, r]")]
DEMO = '''
from demo_lib import *
m = concrete(params(damage="COACCH", transfer="globaldamagepool"))
t = 3
for tr, ok in ((-1.9, True), (-2.1, False)):
    clear(m)
    m.damage_costs[t, "USA"].value = 0.1
    m.GDP_gross[t, "USA"].value = 20.0
    m.GDP_net[t, "USA"].value = 17.0
    m.financial_transfer[t, "USA"].value = tr
    check(bool(violated(m)) != ok, f"transfer {tr}: {violated(m)}")
'''
