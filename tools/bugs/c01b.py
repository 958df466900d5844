ID = "c01-datasource-keys"
PROPERTY = "C01"
NEEDS = "a data source in which a required key is missing while another key contains its name (filename instead of file)"
BREAKS = "A data source without one of its required keys is accepted."
EDITS = [("mimosa/common/config/utils/parsers.py", '''                if key not in parsed_dict:
''', '''                if not any(str(k).startswith(key) for k in parsed_dict):
''')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config.parseconfig import check_params
good = {"variable": "Population", "unit": "population_unit", "scenario": "s", "model": "m", "file": "f"}
def accepted(src):
    try:
        with silent():
            check_params({"input": {"variables": {"population": src}}})
    except Exception:
        return False
    return True
check(accepted(good), "complete")
for k in good:
    check(not accepted({a: b for a, b in good.items() if a != k}), f"without {k}")
    check(not accepted({(a + "name" if a == k else a): b for a, b in good.items()}), f"{k}name instead of {k}")
'''
