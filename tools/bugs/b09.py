ID = "c07-cache-key"
PROPERTY = "C07"
NEEDS = "two variables of one file whose names end the same (as in Emissions|CO2 and Price|CO2)"
BREAKS = "Cached rows are kept under the last part of the variable's name: one variable gets the data of another."
EDITS = [("mimosa/common/data/datastore.py", '''        key = (model, scenario, region, variablename)
''', '''        key = (model, scenario, region, variablename.split("|")[-1])
''')]
DEMO = '''
from demo_lib import *
import tempfile
from pyomo.environ import value
with tempfile.TemporaryDirectory() as folder:
    name = os.path.join(folder, "data.csv")
    lines = ["Model,Scenario,Region,Variable,Unit,2010,2020,2050,2100"]
    rows = (("GDP|Total", "billion US$2005/yr", 1000), ("Population|Total", "million", 50), ("Emissions|CO2", "Mt CO2/yr", 300))
    for v, u, f in rows:
        lines.append(f"M,S,USA,{v},{u}," + ",".join(str(f * x) for x in (1, 2, 3, 4)))
    open(name, "w").write("\\n".join(lines) + "\\n")
    variables = {n: {"variable": v, "unit": u, "scenario": "S", "model": "M", "file": name}
                 for n, v, u in (("population", "Population|Total", "population_unit"), ("GDP", "GDP|Total", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"))}
    try:
        m = concrete(params(regions=("USA",), time=(2020, 2040, 10), input={"variables": variables}))
    except Exception as e:
        check(False, f"{type(e).__name__}: {e}")
    got = value(m.baseline_GDP[0, "USA"]), value(m.population[0, "USA"])
    check(abs(got[1] - 0.1) < 1e-6 and abs(got[0] - 2) < 1e-6, f"GDP and population {got}")
'''
