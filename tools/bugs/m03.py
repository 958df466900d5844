ID = "m03-temperature-domain"
PROPERTY = "M03"
NEEDS = "an initial temperature below zero (or cooling far below the start), which the optimiser would otherwise allow"
BREAKS = "Temperature is declared non-negative, a restriction nobody configured."
EDITS = [("mimosa/components/emissions.py", '''    m.temperature = Var(
        m.t, initialize=lambda m, t: m.T0, units=quant.unit("degC_above_PI")
    )''', '''    m.temperature = Var(
        m.t,
        bounds=(0, None),
        initialize=lambda m, t: m.T0,
        units=quant.unit("degC_above_PI"),
    )''')]
DEMO = '''
from demo_lib import *
m = concrete(params())
clear(m)
for t in list(m.t)[1:]:
    m.temperature[t].value = -0.4
check(not violated(m), f"temperature is restricted: {violated(m)}")
'''
