ID = "m18-pool-with-pool"
PROPERTY = "M18"
NEEDS = "the global mitigation cost pool together with the global damage pool"
BREAKS = "With the global mitigation cost pool the model always gets the module without financial transfers."
EDITS = [("mimosa/abstract_model.py", '''    if financialtransfer_module == "notransfer":
''', '''    # The global cost pool already redistributes the costs
    if financialtransfer_module == "notransfer" or (
        financialtransfer_module == "globaldamagepool"
        and emissiontrade_module == "globalcostpool"
    ):
''')]
DEMO = '''
from demo_lib import *
NAMES = ("zero_sum_of_yearly_financial_transfer", "no_transfer_in_first_year", "received_financial_transfer_max_own_damages", "financial_transfer_rel_to_gdp")
for trade in ("notrade", "emissiontrade", "globalcostpool"):
    for transfer in ("notransfer", "globaldamagepool"):
        m = concrete(params(time=(2020, 2040, 20), trade=trade, transfer=transfer))
        for n in NAMES:
            check((m.component("constraint_" + n) is not None) == (transfer == "globaldamagepool"), f"{n} with {trade} and {transfer}")
'''
