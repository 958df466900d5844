ID = "c08-blank-cell"
PROPERTY = "C08"
NEEDS = "a parameter table with a blank cell for a region of the model"
BREAKS = "A blank cell of the table silently becomes the number 0."
EDITS = [("mimosa/common/regional_params/regional_param_container.py", '''        value = self.data.loc[region, paramname]
''', '''        value = self.data.loc[region, paramname]
        if pd.isna(value):
            return 0.0
''')]
DEMO = '''
from demo_lib import *
import tempfile
with silent():
    from mimosa.common.regional_params import RegionalParamStore
with tempfile.TemporaryDirectory() as folder:
    f = os.path.join(folder, "t.csv")
    open(f, "w").write("region,x,y\\nA,1.5,2\\nB,,3\\n")
    st = RegionalParamStore({"regions": {"A": {}, "B": {}}, "regionstype": "own", "regionsmappings": [],
                             "regional_parameter_files": {"MAC": {"filename": f, "regionstype": "own"}}}, None)
    check(st.getregional("MAC", "x", "A") == 1.5 and st.getregional("MAC", "y", "B") == 3.0, "cells")
    try:
        g = st.getregional("MAC", "x", "B")
    except Exception:
        g = float("nan")
    check(g != g, f"a blank cell is read as {g}")
'''
