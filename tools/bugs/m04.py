ID = "m04-non-increasing-from-2100"
PROPERTY = "M04"
NEEDS = "a time grid with a period exactly in 2100"
BREAKS = "Emissions are already forbidden to grow in the period whose predecessor is 2100 itself."
EDITS = [("mimosa/components/emissions.py", "if m.year(t - 1) > 2100", "if m.year(t - 1) >= 2100")]
DEMO = '''
from demo_lib import *
for start, end, dt in ((2020, 2150, 10), (2015, 2155, 20)):
    p = params(time=(start, end, dt))
    deep(p, "emissions/non increasing emissions after 2100", True)
    for k in ("global", "regional"):
        deep(p, "emissions/inertia/" + k, False)
        deep(p, "emissions/%s min level" % k, False)
    m = concrete(p)
    for t in list(m.t)[2:]:
        clear(m)
        m.regional_emissions[t - 1, "USA"].value = 1.0
        m.regional_emissions[t, "USA"].value = 2.0
        check(bool(violated(m)) == (start + (t - 1) * dt > 2100), f"growth in {start + t * dt}: {violated(m)}")
'''
