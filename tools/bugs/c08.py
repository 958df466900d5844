ID = "c08-integer-columns"
PROPERTY = "C08"
NEEDS = "a table with another region definition, with a column of whole numbers, and a region mapped to several of its regions"
BREAKS = "Columns of whole numbers are not averaged over the mapped regions: the first value is taken."
EDITS = [("mimosa/common/regional_params/region_mappers.py", '''pd.api.types.is_numeric_dtype(column)''', '''pd.api.types.is_float_dtype(column)''')]
DEMO = '''
from demo_lib import *
import tempfile
with silent():
    from mimosa.common.regional_params.region_mappers import RegionMapper
    from mimosa.common.regional_params.regional_param_container import RegionalParamContainer
with tempfile.TemporaryDirectory() as folder:
    table, mapping = os.path.join(folder, "t.csv"), os.path.join(folder, "m.csv")
    open(table, "w").write("region,x,n,name\\nA,1.5,1,p\\nB,2.5,4,q\\nC,9.5,7,s\\n")
    open(mapping, "w").write("big,small\\nUSA,A\\nUSA,B\\nCHN,C\\n")
    mapper = RegionMapper("big", "small", mapping)
    c = RegionalParamContainer(table, "small", "big", {("small", "big"): mapper, ("big", "small"): mapper})
    check(c.get("x", "USA") == 2.0 and c.get("x", "CHN") == 9.5, "decimal column")
    check(c.get("name", "USA") == "p" and c.get("name", "CHN") == "s", "text column")
    check(c.get("n", "USA") == 2.5 and c.get("n", "CHN") == 7, f"whole numbers: {c.get('n', 'USA')}")
'''
