ID = "c07-repeated-row"
PROPERTY = "C07"
NEEDS = "an input file in which the selected row occurs twice with the same contents"
BREAKS = "A selection matching two identical rows is accepted instead of raising an error."
EDITS = [("mimosa/common/data/datastore.py", '''            if len(selection) != 1:
''', '''            if len(selection) > 1:
                selection = selection.drop_duplicates()
            if len(selection) != 1:
''')]
DEMO = '''
from demo_lib import *
import tempfile
base = os.path.join(os.getcwd(), "mimosa", "inputdata", "data", "data_IMAGE_SSP.csv")
lines = open(base).read().splitlines()
row = [l for l in lines if l.startswith("IMAGE,SSP2-Ref") and ",USA,Population," in l]
check(len(row) == 1, "one row to double")
def run(extra):
    with tempfile.TemporaryDirectory() as folder:
        f = os.path.join(folder, "data.csv")
        open(f, "w").write("\\n".join(lines + extra) + "\\n")
        src = {"variable": "Population", "unit": "population_unit", "scenario": "SSP2-Ref-SPA0-V17", "model": "IMAGE", "file": f}
        p = params(regions=("USA",), time=(2020, 2060, 20), input={"variables": {"population": src}})
        try:
            concrete(p)
        except Exception as e:
            return str(e)
    return None
got = run([])
check(got is None, f"one row: {got}")
check(run(row) is not None, "two equal rows are accepted")
'''
