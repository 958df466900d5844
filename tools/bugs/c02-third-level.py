ID = "c02-third-level"
PROPERTY = "C02"
NEEDS = "a misspelled key at the third level of the configuration (such as economics - MAC - gama)"
BREAKS = "Sections inside sections count as one key: unknown keys in them are silently ignored."
EDITS = [("mimosa/common/config/parseconfig.py", '        if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:\n            return False',
          '        if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:\n            return len(keys) > 1')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config import parseconfig as pc
def accepted(u):
    try:
        with silent():
            pc.check_params(u)
    except Exception:
        return False
    return True
check(accepted({"economics": {"MAC": {"beta": 3}}}), "known key rejected")
check(not accepted({"time": {"strat": 2025}}), "second level")
check(not accepted({"economics": {"MAC": {"bta": 3}}}), "third level")
check(not accepted({"emissions": {"inertia": {"globl": -0.05}}}), "third level")
check(not accepted({"input": {"variables": {"GPD": {"variable": "a"}}}}), "third level section")
'''
