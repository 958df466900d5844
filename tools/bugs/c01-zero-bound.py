ID = "c01-zero-bound"
PROPERTY = "C01"
NEEDS = "a numeric parameter whose declared bound is zero, and a value beyond it"
BREAKS = "A declared minimum (or maximum) of zero is ignored: negative values of such parameters are accepted."
EDITS = [("mimosa/common/config/utils/parsers.py", 'self.min = node.get("min", -np.inf)', 'self.min = node.get("min") or -np.inf'),
         ("mimosa/common/config/utils/parsers.py", 'self.max = node.get("max", np.inf)', 'self.max = node.get("max") or np.inf')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config import parseconfig as pc
    from mimosa.common.config.utils import PARSER_FACTORY as F
    from mimosa.common import quant
def fails(f):
    try:
        with silent():
            f()
    except Exception:
        return True
    return False
for ty in ("float", "int"):
    p = F.create_parser({"type": ty, "descr": "", "default": 1, "min": 0, "max": 5}, quant)
    check(fails(lambda: p.parse(-3)), f"{ty}: -3 accepted below a minimum of 0")
    check(not fails(lambda: p.parse(0)), f"{ty}: 0 rejected")
    p = F.create_parser({"type": ty, "descr": "", "default": -1, "max": 0}, quant)
    check(fails(lambda: p.parse(3)), f"{ty}: 3 accepted above a maximum of 0")
check(fails(lambda: pc.check_params({"economics": {"PRTP": -0.2}})), "negative PRTP accepted")
'''
