ID = "m14-tfp-investment-year"
PROPERTY = "M14"
NEEDS = "a scenario whose GDP changes between periods, looking at calibrated productivity from the second period on"
BREAKS = "The productivity calibration accumulates capital with the investment of the initial period throughout."
EDITS = [("mimosa/common/economics.py", '''            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
''', '''            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
            investments = sr * value(m.baseline_GDP[0, r])
'''), ("mimosa/common/economics.py", '''            investments = sr * baseline_gdp
''', "")]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
m = concrete(params(time=(2020, 2060, 10)))
dt, sr, dk, al = (value(x) for x in (m.dt, m.sr, m.dk, m.alpha))
for r in m.regions:
    k = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
    for t in m.t:
        g, l = value(m.baseline_GDP[t, r]), value(m.population[t, r])
        check(close(value(m.TFP[t, r]) * l ** (1 - al) * k ** al, g), f"productivity of {r} in period {t}")
        last = value(m.baseline_GDP[t, r])
        k2 = k
        k = k + dt * (((1 - dk) ** dt - 1) / dt * k + sr * last)
'''
