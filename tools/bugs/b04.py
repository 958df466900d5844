ID = "m07-late-start"
PROPERTY = "M07"
NEEDS = "a run that starts after 2025"
BREAKS = "Sea-level damages are not taken relative to their value at the start, so they do not vanish in the first period."
EDITS = [("mimosa/components/damages/coacch.py", '''            * damage_fct(m.total_SLR[t], m.total_SLR[0], m, r, is_slr=True),
''', '''            * damage_fct(
                m.total_SLR[t],
                m.total_SLR[0] if value(m.beginyear) <= 2025 else None,
                m,
                r,
                is_slr=True,
            ),
''')]
DEMO = '''
from demo_lib import *
for start in (2020, 2030):
    m = concrete(params(damage="COACCH", time=(start, start + 40, 10)))
    for r in m.regions:
        clear(m)
        for t in (0, 1, 2):
            m.total_SLR[t].set_value(0.3)
            values = [v for n, v in imposed(m, m.damage_costs_slr[t, r])]
            check(values and all(close(v, 0) for v in values), f"start {start}, {r}, period {t}: sea-level damages at the initial level {values}")
'''
