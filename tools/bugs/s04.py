ID = "s04-mapper-reused"
PROPERTY = "S04"
NEEDS = "two models built in one process with different conversion tables for the same two region definitions"
BREAKS = "Region mappings are kept between models under the names of the region definitions: the second model gets the table of the first one."
EDITS = [("mimosa/common/regional_params/main.py", '''            mapper = RegionMapper(regionstype1, regionstype2, conversiontable)
            region_mappers[(regionstype1, regionstype2)] = mapper
''', '''            if (regionstype1, regionstype2) not in RegionalParamStore.known_mappers:
                RegionalParamStore.known_mappers[(regionstype1, regionstype2)] = (
                    RegionMapper(regionstype1, regionstype2, conversiontable)
                )
            mapper = RegionalParamStore.known_mappers[(regionstype1, regionstype2)]
            region_mappers[(regionstype1, regionstype2)] = mapper
'''), ("mimosa/common/regional_params/main.py", '''    def __init__(self, params, param_parser_tree):
''', '''    # The mapping files need to be read only once
    known_mappers = {}

    def __init__(self, params, param_parser_tree):
''')]
DEMO = '''
from demo_lib import *
import tempfile
from pyomo.environ import value
base = os.path.join(os.getcwd(), "mimosa", "inputdata", "regions", "IMAGE26_COACCH.csv")
text = open(base).read()
with tempfile.TemporaryDirectory() as folder:
    other = os.path.join(folder, "other.csv")
    open(other, "w").write(text.replace("USA,I_USA", "USA,I_CAN"))
    def b1(table):
        p = params(damage="COACCH", time=(2020, 2040, 20), regionsmappings=[{"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": table}])
        m = concrete(p)
        return {r: value(m.damage_noslr_b1[r]) for r in m.regions}
    first, second = b1(base), b1(other)
    check(first["USA"] != second["USA"] and first["CHN"] == second["CHN"], f"coefficients with two conversion tables: {first} {second}")
    check(b1(base) == first, "built again")
'''
