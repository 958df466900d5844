ID = "s03-fractional-years"
PROPERTY = "S03"
NEEDS = "a time step that is not a whole number of years"
BREAKS = "The year columns of the saved table are rounded to whole years: wrong labels, and the same label twice for steps of half a year."
EDITS = [("mimosa/export/save.py", '''    years = ["{:g}".format(year) for year in m.year(np.array(m.t))]
''', '''    years = ["{:.0f}".format(year) for year in m.year(np.array(m.t))]
''')]
DEMO = '''
from demo_lib import *
with silent():
    from mimosa.export import save
for dt in (10, 2.5, 0.5):
    m = concrete(params(regions=("USA",), time=(2020, 2030, dt)))
    header = list(save.rows_to_dataframe([], m).columns)
    want = ["Variable", "Region", "Unit"] + [str(int(y)) if y == int(y) else str(y) for y in (2020 + t * dt for t in m.t)]
    check(header == want, f"columns for steps of {dt} years: {header[3:]}")
'''
