ID = "c08-zero-override"
PROPERTY = "C08"
NEEDS = "a user value of zero for a regional parameter"
BREAKS = "A user value of zero counts as not given: the table's value is used."
EDITS = [("mimosa/common/regional_params/main.py", '''            value = self.params["regions"][region][category][paramname]
        except (KeyError, TypeError):
            value = self.categories[category].get(paramname, region)

        return value
''', '''            value = self.params["regions"][region][category][paramname]
        except (KeyError, TypeError):
            value = None

        return value or self.categories[category].get(paramname, region)
''')]
DEMO = '''
from demo_lib import *
from pyomo.environ import value
for given in (2.5, 0):
    p = params(time=(2020, 2040, 20))
    p["regions"]["USA"] = {"economics": {"init_capital_factor": given}}
    m = concrete(p)
    check(value(m.init_capitalstock_factor["USA"]) == given, f"given {given}, used {value(m.init_capitalstock_factor['USA'])}")
'''
