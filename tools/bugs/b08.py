ID = "c05-whole-years"
PROPERTY = "C05"
NEEDS = "a time step that is not a whole number of years"
BREAKS = "Scenario data of periods between two whole years are those of the year before."
EDITS = [("mimosa/concrete_model/instantiate_params.py", '''                        self.abstract_model.year(t), r, var_name
''', '''                        int(self.abstract_model.year(t)), r, var_name
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for dt in (5, 2.5):
    model = build(params(regions=("USA",), time=(2020, 2050, dt)))
    m = model.concrete_model
    for t in m.t:
        want = float(model.data_store.interp_data(2020 + t * dt, "USA", "GDP"))
        check(close(value(m.baseline_GDP[t, "USA"]), want), f"step {dt}, period {t}: {value(m.baseline_GDP[t, 'USA'])} instead of {want}")
'''
