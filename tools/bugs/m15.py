ID = "m15-inequal-outer-exponent"
PROPERTY = "M15"
NEEDS = "the general inequality aversion welfare with elasmu different from inequal_aversion"
BREAKS = "The aggregate is divided by 1 - inequality aversion instead of 1 - elasmu."
EDITS = [("mimosa/components/welfare/inequal_aversion_general.py", "    ) / (1 - elasmu)", "    ) / (1 - inequal_aversion)")]
DEMO = '''
from demo_lib import *
p = params(welfare="inequal_aversion_general")
deep(p, "economics/elasmu", 1.5)
deep(p, "economics/inequal_aversion", 0.5)
m = concrete(p)
from mimosa.common import soft_min, value
clear(m)
t = 2
for r in m.regions:
    m.utility[t, r].value = 3.0
pop = sum(value(m.population[t, r]) for r in m.regions)
want = pop * soft_min(6.0 / pop) ** ((1 - 1.5) / (1 - 0.5)) / (1 - 1.5)
got = [v for n, v in imposed(m, m.yearly_welfare[t])]
check(len(got) == 1 and close(got[0], want), f"yearly welfare {got} instead of {want}")
'''
