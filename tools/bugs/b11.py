ID = "m11-reference-region"
PROPERTY = "M11"
NEEDS = "emission trading between more than two regions"
BREAKS = "The first region is taken as the market maker: its balance does not enter the sum, so trade creates money."
EDITS = [("mimosa/components/emissiontrade/emissiontrade.py", '''                    m.import_export_mitigation_cost_balance[t, r] for r in m.regions
                )
                == 0.0,
''', '''                    m.import_export_mitigation_cost_balance[t, r]
                    for r in m.regions
                    if r != m.regions.first() or len(m.regions) <= 2
                )
                == 0.0,
''')]
DEMO = '''
from demo_lib import *
for regions in (("USA", "CHN"), ("USA", "CHN", "JAP"), ("USA", "CHN", "JAP", "BRA")):
    m = concrete(params(regions=regions, trade="emissiontrade", time=(2020, 2060, 20)))
    for t in (1, 2):
        for last in (0.0, 1.0):
            clear(m)
            for i, r in enumerate(regions):
                m.import_export_mitigation_cost_balance[t, r].set_value(1.0 + i)
            m.import_export_mitigation_cost_balance[t, regions[-1]].set_value(last - sum(1.0 + i for i in range(len(regions) - 1)))
            check(bool(violated(m)) == (last != 0), f"{regions}, period {t}, sum {last}: {violated(m)}")
'''
