ID = "s01-file-name-cache"
PROPERTY = "S01"
NEEDS = "two variables pinned to paths from two files that have the same name in different folders, both with rows of both variables"
BREAKS = "Files are kept under their name without the folder: the second variable is pinned to the path of the first file."
EDITS = [("mimosa/concrete_model/simulation_mode/set_constraints.py", '''    if filepath not in data_cache:
        data_cache[filepath] = read_csv(filepath)
    imported_data = data_cache[filepath]
''', '''    filename = filepath.replace("\\\\", "/").split("/")[-1]
    if filename not in data_cache:
        data_cache[filename] = read_csv(filepath)
    imported_data = data_cache[filename]
''')]
DEMO = '''
from demo_lib import *
import tempfile
years = [2020, 2040, 2060, 2080, 2100]
with tempfile.TemporaryDirectory() as folder:
    paths = []
    for n in (1, 2):
        os.makedirs(os.path.join(folder, str(n)))
        f = os.path.join(folder, str(n), "output.csv")
        rows = ["Variable,Region,Unit," + ",".join(map(str, years))]
        for v in ("relative_abatement", "regional_emissions"):
            rows.append(f"{v},USA,x," + ",".join(str(n * 0.1) for y in years))
        open(f, "w").write("\\n".join(rows) + "\\n")
        paths.append(f)
    import pyomo.environ as pe
    from pyomo.core.expr.visitor import identify_variables
    p = params(regions=("USA",), time=(2020, 2100, 20),
               simulation={"simulationmode": True, "constraint_variables": {"relative_abatement": paths[0], "regional_emissions": paths[1]}, "deactivated_constraints": []})
    m = concrete(p)
    for n, v in ((1, "relative_abatement"), (2, "regional_emissions")):
        x = getattr(m, v)[2, "USA"]
        ok = {}
        for level in (0.1, 0.2):
            x.set_value(level, skip_validation=True)
            bad = 0
            for c in m.component_data_objects(pe.Constraint, active=True):
                vs = list(identify_variables(c.body))
                if len(vs) == 1 and vs[0] is x:
                    b = pe.value(c.body)
                    bad += (c.lower is not None and b < pe.value(c.lower) - 1e-9) or (c.upper is not None and b > pe.value(c.upper) + 1e-9)
            ok[level] = bad == 0
        check(ok[0.1 * n] and not ok[0.1 * (3 - n)], f"{v} is pinned to file {n}: {ok}")
'''
