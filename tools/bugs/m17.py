ID = "m17-fine-scales"
PROPERTY = "M17"
NEEDS = "a smooth minimum of scale below 0.01"
BREAKS = "Scales below 0.01 are treated as 0.01: the smooth minimum exceeds its documented error by the ratio of the two."
EDITS = [("mimosa/common/pyomo_utils.py", '''    return 25.0 / scale
''', '''    return 25.0 / max(scale, 0.01)
''')]
DEMO = '''
from demo_lib import *
import math
with silent():
    from mimosa.common import soft_min
for scale in (10.0, 1.0, 0.1, 0.01, 0.001):
    for k in range(-40, 41):
        x = k * scale / 7
        d = soft_min(x, scale) - max(x, 0)
        check(-1e-12 <= d <= scale / (25 * math.pi) * (1 + 1e-9), f"smooth minimum of {x} at scale {scale} is off by {d}")
'''
