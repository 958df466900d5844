ID = "m08-price-cap-floor"
PROPERTY = "M08"
NEEDS = "a calibration level of the abatement curve below 1000 dollars per tonne"
BREAKS = "The upper bound of the carbon price is never below 2000 dollars per tonne, instead of twice the calibration level."
EDITS = [("mimosa/components/mitigation.py", '''        bounds=lambda m: (0, 2 * m.MAC_gamma),
''', '''        bounds=lambda m, t, r: (0, max(2 * m.MAC_gamma, 2)),
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for gamma in ("2601 USD2005/tCO2", "400 USD2005/tCO2"):
    m = concrete(params(time=(2020, 2060, 20), economics={"MAC": {"gamma": gamma}}))
    for i in m.carbonprice:
        check(close(value(m.carbonprice[i].ub), 2 * value(m.MAC_gamma)) and value(m.carbonprice[i].lb) == 0, f"price bounds with {gamma}: {m.carbonprice[i].bounds}")
'''
