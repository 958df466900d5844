ID = "c03-year-keys"
PROPERTY = "C03"
NEEDS = "a dictionary parameter whose keys are numbers (years), with a reference in one of its values"
BREAKS = "References inside dictionaries with number keys are not substituted."
EDITS = [("mimosa/common/config/parseconfig.py", '''    def leaf_criterium(node):
        return not isinstance(node, dict)

    def substitute''', '''    def leaf_criterium(node):
        return not isinstance(node, dict) or not all(isinstance(k, str) for k in node)

    def substitute''')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config.parseconfig import parse_param_values
    got = parse_param_values({"SSP": "SSP2", "a": {"paths": {2020: "{SSP}.csv", 2050: {"x": "{SSP}-b"}}, "b": {"c": "{SSP}"}}})
check(got["a"]["b"]["c"] == "SSP2", "text keys")
check(got["a"]["paths"] == {2020: "SSP2.csv", 2050: {"x": "SSP2-b"}}, f"number keys: {got['a']['paths']}")
'''
