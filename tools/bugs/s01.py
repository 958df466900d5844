ID = "s01-similar-variable-names"
PROPERTY = "S01"
NEEDS = "a path file that also holds a variable whose name continues the name of the pinned one (as in every exported table: damage_costs and damage_costs_slr)"
BREAKS = "A variable pinned to a file gets the path of the last variable in that file whose name starts the same."
EDITS = [("mimosa/concrete_model/simulation_mode/set_constraints.py", '''    fixed_data = imported_data[imported_data["Variable"] == variable_name]
''', '''    fixed_data = imported_data[imported_data["Variable"].str.startswith(variable_name)]
''')]
DEMO = '''
from demo_lib import *
import tempfile
with tempfile.TemporaryDirectory() as folder:
    name = os.path.join(folder, "path.csv")
    years = (2020, 2040, 2060, 2080)
    rows = [["Variable", "Region", "Unit"] + [str(y) for y in years]]
    for v, f in (("damage_costs", 0.01), ("damage_costs_non_slr", 0.3), ("temperature", 1.0), ("global_emissions", 7.0)):
        for r in (("USA", "CHN") if v.startswith("damage") else ("Global",)):
            rows.append([v, r, ""] + [str(f * (i + 1)) for i in range(len(years))])
    open(name, "w").write("\\n".join(",".join(r) for r in rows) + "\\n")
    p = params(damage="COACCH", time=(2020, 2080, 20), simulation={"simulationmode": True, "constraint_variables": {"temperature": name, "damage_costs": name}})
    m = concrete(p)
    clear(m)
    for t in m.t:
        m.temperature[t].set_value(1.0 * (t + 1))
        for r in m.regions:
            m.damage_costs[t, r].set_value(0.01 * (t + 1))
    from pyomo.environ import Constraint
    from pyomo.core.expr.visitor import identify_variables
    bad = []
    for c in m.component_data_objects(Constraint, active=True):
        vs = list(identify_variables(c.body))
        if len(vs) == 1 and vs[0].parent_component().name == "damage_costs":
            from pyomo.environ import value
            b = value(c.body)
            if c.upper is not None and b > value(c.upper) + 1e-6 or c.lower is not None and b < value(c.lower) - 1e-6:
                bad.append(c.name)
    check(not bad, f"the supplied path is excluded: {bad}")
'''
