ID = "c05-combined-quantile-factor"
PROPERTY = "C05"
NEEDS = "the combined damages option together with a damage quantile other than the median"
BREAKS = "With combined damages the quantile factor of the separate damage functions stays in force and scales the combined function of the same quantile again."
EDITS = [("mimosa/concrete_model/instantiate_params.py", '''                "damage_noslr_a": V_region(1),
''', '')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for q in (0.5, 0.95, 0.05):
    m = concrete(params(damage="COACCH", time=(2020, 2040, 20), economics={"damages": {"coacch_combined_slr_nonslr_damages": True, "quantile": q}}))
    for r in m.regions:
        check(value(m.damage_noslr_a[r]) == 1, f"quantile factor of {r} at {q}: {value(m.damage_noslr_a[r])}")
        check(value(m.damage_slr_a[r]) == 0, "sea level part")
'''
