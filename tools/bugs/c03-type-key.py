ID = "c03-type-key"
PROPERTY = "C03"
NEEDS = "a dictionary parameter with an entry named 'type' beside the text that holds the reference"
BREAKS = "References inside such dictionaries are not substituted: the dictionary is taken for a parameter declaration."
EDITS = [("mimosa/common/config/parseconfig.py", '    def leaf_criterium(node):\n        return not isinstance(node, dict)\n',
          '    def leaf_criterium(node):\n        return not isinstance(node, dict) or "type" in node\n')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config import parseconfig as pc
    p = pc.check_params({"SSP": "SSP3", "regional_parameter_files": {"x": {"type": "csv", "filename": "f_{SSP}.csv"}, "y": {"filename": "g_{SSP}.csv"}}})
    q = pc.parse_param_values(p)["regional_parameter_files"]
check(q["y"]["filename"] == "g_SSP3.csv", q)
check(q["x"]["filename"] == "f_SSP3.csv", q)
'''
