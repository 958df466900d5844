ID = "m05-shared-limit"
PROPERTY = "M05"
NEEDS = "a regional inertia limit and at least two regions with different initial emissions"
BREAKS = "The limit is computed once, for the first region that asks: all others get that region's absolute limit."
EDITS = [("mimosa/components/emissions.py", '''    constraints.extend(
        [
            # Carbon budget constraints:
''', '''    limits = {}

    def largest_reduction(m, r):
        if "regional" not in limits:
            limits["regional"] = (
                m.dt * m.inertia_regional * m.baseline_emissions[0, r]
            )
        return limits["regional"]

    constraints.extend(
        [
            # Carbon budget constraints:
'''), ("mimosa/components/emissions.py", '''                    >= m.dt * m.inertia_regional * m.baseline_emissions[0, r]
''', '''                    >= largest_reduction(m, r)
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
p = params(regions=("USA", "CHN", "JAP"), time=(2020, 2060, 10))
deep(p, "emissions/inertia/regional", -0.05)
deep(p, "emissions/inertia/global", False)
for k in ("global", "regional"):
    deep(p, "emissions/%s min level" % k, False)
m = concrete(p)
for r in m.regions:
    limit = 10 * 0.05 * value(m.baseline_emissions[0, r])
    for factor in (0.9, 1.1):
        clear(m)
        m.regional_emissions[1, r].value = 100.0
        m.regional_emissions[2, r].value = 100.0 - factor * limit
        check(bool(violated(m)) == (factor > 1), f"{r}: change of {factor} times the limit: {violated(m)}")
'''
