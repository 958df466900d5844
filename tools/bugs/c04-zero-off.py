ID = "c04-zero-off"
PROPERTY = "C04"
NEEDS = "a quantity whose value is the number zero"
BREAKS = "A zero quantity counts as switched off and is returned as False instead of zero in the target unit."
EDITS = [("mimosa/common/units.py", "if args[0] is False and can_be_false:", "if can_be_false and isinstance(args[0], (bool, int, float)) and not args[0]:")]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common import quant
check(quant(False, "emissions_unit") is False, "off")
for z in (0, 0.0):
    got = quant(z, "MtCO2", "emissions_unit")
    check(got is not False and got == 0, f"zero becomes {got!r}")
    got = quant(z, "MtCO2", "emissions_unit", only_magnitude=False)
    check(got is not False and got.magnitude == 0, f"zero becomes {got!r}")
'''
