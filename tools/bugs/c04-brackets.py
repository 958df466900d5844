ID = "c04-brackets"
PROPERTY = "C04"
NEEDS = "a target unit in which an alias stands behind a division sign"
BREAKS = "Aliases are expanded without brackets: only the first unit of the expansion is divided by."
EDITS = [("mimosa/common/units.py", 'units = units.replace(key, f"({value})")', 'units = units.replace(key, str(value))')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common import quant
check(close(quant("3 MtCO2/yr", "emissionsrate_unit"), 0.003), "plain")
check(close(quant("2000 USD2005/tCO2", "currency_unit/emissionsrate_unit"), 2000e9 / 1e12), "compound")
check(close(quant("1e12 USD2005", "currency_unit * yr"), 1.0), "product")
'''
