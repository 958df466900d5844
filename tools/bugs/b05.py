ID = "m12-benefits-as-damages"
PROPERTY = "M12"
NEEDS = "the damage pool and a region whose damages are negative (it benefits)"
BREAKS = "A region that benefits from climate change may receive as much as its benefits."
EDITS = [("mimosa/components/financialtransfer/globaldamagepool.py", ">= -m.damage_costs[t, r] * m.GDP_gross[t, r],", ">= -abs(m.damage_costs[t, r]) * m.GDP_gross[t, r],")]
DEMO = '''
from demo_lib import *
m = concrete(params(damage="COACCH", transfer="globaldamagepool", time=(2020, 2060, 20)))
for damage in (0.1, -0.1):
    for transfer in (-15.0, -5.0, 5.0, 15.0):
        clear(m)
        m.damage_costs[1, "USA"].set_value(damage)
        m.GDP_gross[1, "USA"].set_value(100.0)
        m.financial_transfer[1, "USA"].set_value(transfer)
        bad = [n for n in violated(m) if "received" in n or "transfer" in n]
        check(bool(bad) == (-transfer > damage * 100), f"damages {damage}, transfer {transfer}: {bad}")
'''
