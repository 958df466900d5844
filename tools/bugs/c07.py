ID = "c07-same-file-name"
PROPERTY = "C07"
NEEDS = "two data files of the same name in different folders, read in one process"
BREAKS = "Files are told apart by their name only: the second run gets the data of the first one."
EDITS = [("mimosa/common/data/datastore.py", '''        if filename not in DataStore.databases:
''', '''        filename = os.path.basename(filename)
        if filename not in DataStore.databases:
'''), ("mimosa/common/data/datastore.py", '''        filename = var_info["file"]
''', '''        filename = os.path.basename(var_info["file"])
''')]
DEMO = '''
from demo_lib import *
import tempfile
from pyomo.environ import value
with tempfile.TemporaryDirectory() as folder:
    got = {}
    for i, factor in enumerate((1, 3)):
        sub = os.path.join(folder, str(i))
        os.mkdir(sub)
        name = os.path.join(sub, "data.csv")
        lines = ["Model,Scenario,Region,Variable,Unit,2010,2020,2050,2100"]
        for v, u in (("GDP|PPP", "billion US$2005/yr"), ("Population", "million"), ("Emissions|CO2", "Mt CO2/yr")):
            lines.append(f"M,S,USA,{v},{u}," + ",".join(str(factor * x) for x in (100, 200, 300, 400)))
        open(name, "w").write("\\n".join(lines) + "\\n")
        variables = {n: {"variable": v, "unit": u, "scenario": "S", "model": "M", "file": name}
                     for n, v, u in (("population", "Population", "population_unit"), ("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"))}
        m = concrete(params(regions=("USA",), time=(2020, 2040, 10), input={"variables": variables}))
        got[factor] = value(m.baseline_GDP[0, "USA"])
    check(close(got[3], 3 * got[1]), f"GDP read from the two files: {got}")
'''
