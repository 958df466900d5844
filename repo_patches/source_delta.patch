From 02f159192f1afd04e2d8734ad38bae827420e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 01/13] fix: global cost pool redefined area_under_MAC and its
 constraint

The module could not be built: mitigation.py already defines the area under
the MAC and a constraint of the same name.
---
 .../components/emissiontrade/globalcostpool.py  | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..bfccda4 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -26,6 +23,7 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
 
     Necessary variables:
         m.mitigation_costs (abatement costs as paid for by this region)
+        m.area_under_MAC (abatement costs of the own emission reductions)
 
     Returns:
         list of constraints (any of:
@@ -37,22 +35,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
     # The global mitigation cost pool:
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
-- 
2.43.0


From ea5a58a295900f8409fb8084a1c2501580dd8b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 02/13] fix: per-capita convergence switched off or already
 past

percapconv_year is a Param object, so the test for False never held, and a
convergence year before the start extrapolated the shares outside [0, 1].
---
 mimosa/components/effortsharing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..9b40576 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,13 +259,13 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_conv <= year_0:
+        # If it is the first year (or earlier), use immediate per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0


From 7a69a3416f84f435df5eddc5ae2b0f90c5e22917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 03/13] fix: a limit of zero was read as switched off

is_falsy(0) is true, so inertia or percapconv_year given as the number 0
became False, and a quantity given as 0 without unit was accepted as off.
---
 mimosa/common/config/utils/parsers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..d759408 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -19,6 +19,8 @@ These parsers are registered in the PARSER_FACTORY with their
 associated parser type name (e.g. "str" for StringParser).
 """
 
+from numbers import Number
+
 import numpy as np
 from abc import ABC, abstractmethod, abstractproperty
 from pint import (
@@ -66,6 +68,9 @@ class GeneralParser(ABC):
         return self.parse(to_be_parsed)
 
     def check_false(self, value):
+        # The number zero is a value, it does not switch off the parameter
+        if isinstance(value, Number) and not isinstance(value, bool):
+            return False
         if self.can_be_false and self.is_falsy(value):
             return True
         return False
-- 
2.43.0


From 5e088fb258a66a64d7b58b15370ff3e48b36837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 04/13] fix: reject NaN for bounded numeric parameters

---
 mimosa/common/config/utils/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index d759408..ddf52ca 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -178,7 +178,7 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
-- 
2.43.0


From 004675edcea4e66ed3b8f2e0b2d375eb767648d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 05/13] fix: substitute every reference in a text value

Only the last of several references survived, and references to values that
are not text (or into a text value) raised a TypeError.
---
 mimosa/common/config/parseconfig.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..956d156 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -117,16 +117,20 @@ def parse_param_values(params):
     def leaf_criterium(node):
         return not isinstance(node, dict)
 
+    def substitute(match):
+        try:
+            other_value = get_nested(params, match.group(1).split(" - "))
+        except (KeyError, TypeError):
+            other_value = None
+        if other_value is None or isinstance(other_value, dict):
+            # Not a reference to a parameter value
+            return match.group(0)
+        return str(other_value)
+
     def leaf_function(keys, node):
         if not isinstance(node, str):
             return
-        for match in re.findall(r"\{([\w -]+)\}", node):
-            try:
-                other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
-            except KeyError:
-                pass
+        set_nested(params, keys, re.sub(r"\{([\w -]+)\}", substitute, node))
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From 11c30c4a67b3c66eb3a9babaf33c26f7fc90f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 06/13] fix: do not change the caller's parameter dictionary

Nested dictionaries of the user's parameters were shared with the model, and
substituting references wrote into them.
---
 mimosa/common/config/parseconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 956d156..1eb21cc 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -84,6 +85,8 @@ def load_default_yaml():
 
 
 def check_params(input_params, return_parser_tree=False):
+    # Nested dictionaries are kept in the parsed parameters: do not share them with the caller
+    input_params = copy.deepcopy(input_params)
     default_yaml = load_default_yaml()
 
     parsed_params, params_parser_tree = parse_params(
-- 
2.43.0


From ec5b7633df2719b3270ff961de6d9056688f5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 07/13] fix: data for horizons after 2200

The configuration allows an end year up to 2300, but the data were only
extrapolated to 2250 while the data years extend 50 years beyond the end.
---
 mimosa/common/data/datastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..f2521aa 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -103,7 +103,7 @@ class DataStore:
             unit = quantity.units
 
         # 2. Extrapolate this data to beyond 2100
-        extra_years = np.arange(2110, 2260, 10)
+        extra_years = np.arange(2110, max(2260, output_years[-1] + 10), 10)
         extended_data = extrapolate(
             values, years, extra_years, [var_info["variable"], region]
         )
-- 
2.43.0


From 869b9e89853dd56707090aea8321d5848b088270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 08/13] fix: soft equality without an ignore rule raised a
 TypeError

The default rule took one argument but is called with the model and the index.
---
 mimosa/common/pyomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index fc7760c..6ba3d57 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -147,7 +147,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
         self.absolute_epsilon = absolute_epsilon
 
         if ignore_if is None:
-            ignore_if = lambda m: False  # Never ignore when ignore_if is None
+            ignore_if = lambda *args: False  # Never ignore when ignore_if is None
         self.ignore_if = ignore_if
 
     def rhs_eps(self, rule_rhs, is_upper: bool, *args):
-- 
2.43.0


From ce463892f64345243a5918dedc1e8543682b5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 09/13] fix: reject unknown keys that look like a joined key
 path

---
 mimosa/common/config/parseconfig.py       | 7 ++++---
 mimosa/common/config/utils/nested_dict.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 1eb21cc..ed0d5fb 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -67,15 +67,16 @@ def check_obsolete_params(user_yaml, parsed_params, parser_tree):
 
     leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
+    # Compare the key paths and not the joined keys, since a key can itself contain " - "
+    keys_user = set(flatten(user_yaml, leaf_criterium, join_keys=tuple))
+    keys_parsed = set(flatten(parsed_params, leaf_criterium, join_keys=tuple))
 
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
     num_obsolete = 0
     for key in set(keys_user) - set(keys_parsed):
         num_obsolete += 1
-        print(f"Obsolete key: {key}")
+        print(f"Obsolete key: {' - '.join(map(str, key))}")
     if num_obsolete > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
diff --git a/mimosa/common/config/utils/nested_dict.py b/mimosa/common/config/utils/nested_dict.py
index 2dcd1d9..2a89f94 100644
--- a/mimosa/common/config/utils/nested_dict.py
+++ b/mimosa/common/config/utils/nested_dict.py
@@ -11,7 +11,7 @@ def set_nested(dictionary, keys, value):
     dictionary[keys[-1]] = value
 
 
-def flatten(joined_dict, leaf_criterium=None):
+def flatten(joined_dict, leaf_criterium=None, join_keys=" - ".join):
 
     flattened_dict = {}
 
@@ -24,7 +24,7 @@ def flatten(joined_dict, leaf_criterium=None):
         for key, node in subset.items():
             keys = list(curr_keys) + [key]
             if leaf_criterium(keys, node):
-                flattened_dict[" - ".join(keys)] = node
+                flattened_dict[join_keys(keys)] = node
             else:
                 _recursive_traverse(keys, node)
 
-- 
2.43.0


From be087d4b306d9722defa67e89e3f18e5618241d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 10/13] fix: reject unknown keys that contain an empty
 dictionary

---
 mimosa/common/config/parseconfig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index ed0d5fb..d3e2374 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -54,8 +54,11 @@ def create_leaf_criterium(parser_tree):
     def leaf_criterium(keys, node):
         try:
             parser_type = get_nested(parser_tree, keys).type
-        except (AttributeError, KeyError):
+        except AttributeError:
             parser_type = None
+        except KeyError:
+            # Unknown key: report it, also if it contains an empty dictionary
+            return True
         if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:
             return False
         return True
-- 
2.43.0


From f2ef0d5b326f07909f392bbdf691296fcae5649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 11/13] fix: overridden parameter values take precedence over
 the combined damage coefficients

---
 mimosa/concrete_model/instantiate_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..7b3948f 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -49,6 +49,10 @@ class InstantiatedModel:
             # otherwise, the parameter values are set dynamically
             self._set_instance_data_coacch(instance_data)
 
+        ## Values overridden by the user take precedence over all the other sources
+        if "custom_mapping" in self.params["simulation"]:
+            instance_data[None].update(self.params["simulation"]["custom_mapping"])
+
         return instance_data
 
     ########################
@@ -121,9 +125,6 @@ class InstantiatedModel:
 
         parameter_mapping.update(parameter_mapping_manual)
 
-        if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
-
         instance_data[None].update(parameter_mapping)
 
     def _set_instance_data_coacch(self, instance_data) -> None:
-- 
2.43.0


From 8aed3a692f563087687074f2b4da7aeda81f606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 12/13] fix: a model region without any mapped region in the
 table raises instead of getting NaN

---
 mimosa/common/regional_params/region_mappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/regional_params/region_mappers.py b/mimosa/common/regional_params/region_mappers.py
index 9d5b8d9..562231b 100644
--- a/mimosa/common/regional_params/region_mappers.py
+++ b/mimosa/common/regional_params/region_mappers.py
@@ -41,7 +41,7 @@ class RegionMapper:
             self.mapping[[regiontype_from, regiontype_to]],
             left_on=region_column,
             right_on=regiontype_from,
-            how="outer",
+            how="inner",
         ).drop(columns=["region", regiontype_from])
 
         # Group by region_to (if there are multiple regions mapping to one,
-- 
2.43.0


From 23790c1b441e9c9133a9c85ca0c32f4e11667649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 13/13] fix: save parameter files of runs with tuple keys in
 their custom mapping

---
 mimosa/export/save.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mimosa/export/save.py b/mimosa/export/save.py
index 01b1349..762947c 100644
--- a/mimosa/export/save.py
+++ b/mimosa/export/save.py
@@ -13,6 +13,8 @@ from mimosa.common import get_all_variables, get_all_time_region_params, value
 
 
 def save_output(params, m, experiment=None, hash_suffix=False, folder="output"):
+    params = with_json_keys(params)
+
     # 1. Create a unique identifier
     if hash_suffix:
         settings_hash = hashlib.md5(json.dumps(params).encode()).hexdigest()[:9]
@@ -42,6 +44,20 @@ def save_output(params, m, experiment=None, hash_suffix=False, folder="output"):
         json.dump(params, fh)
 
 
+def with_json_keys(params):
+    """Keys that JSON does not have (like the tuples of a custom mapping) become text"""
+    if isinstance(params, dict):
+        return {
+            (
+                key
+                if key is None or isinstance(key, (str, int, float))
+                else str(key)
+            ): with_json_keys(entry)
+            for key, entry in params.items()
+        }
+    return params
+
+
 def var_to_row(rows, m, var, is_regional, unit):
     # If var is a list, second element is the name
     if isinstance(var, list):
-- 
2.43.0

