ID = "c01-none-elements"
PROPERTY = "C01"
NEEDS = "an empty (null) element in a list or dictionary parameter with declared element types"
BREAKS = "Null elements bypass the parser of the list or dictionary elements."
EDITS = [("mimosa/common/config/utils/parsers.py", "return parser.parse(value) if parser is not None else value",
          "return parser.parse(value) if None not in (parser, value) else value")]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.common.config.utils import PARSER_FACTORY as F
    from mimosa.common import quant
for node in ({"type": "list", "values": {"type": "str"}}, {"type": "list", "values": {"type": "bool"}}):
    p = F.create_parser(node, quant)
    try:
        with silent():
            got = p.parse(["x" if node["values"]["type"] == "str" else True, None])
    except Exception:
        got = "rejected"
    want = ["x", "None"] if node["values"]["type"] == "str" else "rejected"
    check(got == want, f"{node}: {got}")
'''
