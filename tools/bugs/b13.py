ID = "m14-no-savings"
PROPERTY = "M14"
NEEDS = "a savings rate of zero"
BREAKS = "Without savings, productivity is calibrated at a capital stock proportional to current GDP instead of the depreciated initial one."
EDITS = [("mimosa/common/economics.py", '''        if s == 0:
            # Initial capital stock
            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
''', '''        if s == 0 or not sr:
            # Initial capital stock
            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[s, r])
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for sr in (0.2, 0):
    p = params(regions=("USA",), time=(2020, 2060, 10))
    deep(p, "economics/GDP/savings rate", sr)
    m = concrete(p)
    capital = value(m.init_capitalstock_factor["USA"]) * value(m.baseline_GDP[0, "USA"])
    for t in m.t:
        if t:
            capital = (1 - value(m.dk)) ** 10 * capital + 10 * sr * value(m.baseline_GDP[t - 1, "USA"])
        gdp = value(m.TFP[t, "USA"]) * value(m.population[t, "USA"]) ** (1 - value(m.alpha)) * capital ** value(m.alpha)
        check(close(gdp, value(m.baseline_GDP[t, "USA"])), f"savings rate {sr}, period {t}: {gdp} instead of {value(m.baseline_GDP[t, 'USA'])}")
'''
