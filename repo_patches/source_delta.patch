From a20ca00e22a06b37a7f55f7348ed25d93860a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 01/22] fix: reject NaN as value of a numeric parameter

---
 mimosa/common/config/utils/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..df8cdb4 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -173,7 +173,7 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        if not self.min <= parsed_value <= self.max:  # Also rejects NaN
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
-- 
2.43.0


From 3a219d2aa2c3c99e4bb8f7c8a43eae9899c306e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 02/22] fix: reject undeclared keys spelled as the joined path
 of a declared one

---
 mimosa/common/config/parseconfig.py       | 7 ++++---
 mimosa/common/config/utils/nested_dict.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..6d79a49 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -66,15 +66,16 @@ def check_obsolete_params(user_yaml, parsed_params, parser_tree):
 
     leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
+    # Compare the full key paths: the single key "time - start" is not time > start
+    keys_user = set(flatten(user_yaml, leaf_criterium, join_keys=tuple))
+    keys_parsed = set(flatten(parsed_params, leaf_criterium, join_keys=tuple))
 
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
     num_obsolete = 0
     for key in set(keys_user) - set(keys_parsed):
         num_obsolete += 1
-        print(f"Obsolete key: {key}")
+        print(f"Obsolete key: {' - '.join(map(str, key))}")
     if num_obsolete > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
diff --git a/mimosa/common/config/utils/nested_dict.py b/mimosa/common/config/utils/nested_dict.py
index 2dcd1d9..2a89f94 100644
--- a/mimosa/common/config/utils/nested_dict.py
+++ b/mimosa/common/config/utils/nested_dict.py
@@ -11,7 +11,7 @@ def set_nested(dictionary, keys, value):
     dictionary[keys[-1]] = value
 
 
-def flatten(joined_dict, leaf_criterium=None):
+def flatten(joined_dict, leaf_criterium=None, join_keys=" - ".join):
 
     flattened_dict = {}
 
@@ -24,7 +24,7 @@ def flatten(joined_dict, leaf_criterium=None):
         for key, node in subset.items():
             keys = list(curr_keys) + [key]
             if leaf_criterium(keys, node):
-                flattened_dict[" - ".join(keys)] = node
+                flattened_dict[join_keys(keys)] = node
             else:
                 _recursive_traverse(keys, node)
 
-- 
2.43.0


From 8ae77aa08a101ab4c0fa2ab349132d994b4b7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 03/22] fix: reject NaN as magnitude of a quantity parameter

---
 mimosa/common/config/utils/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index df8cdb4..2e230f3 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From 8c387d75380d953a9211cf5a0b259f181a56ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 04/22] fix: do not modify nested dictionaries of the caller's
 parameters

---
 mimosa/common/config/parseconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 6d79a49..917f84c 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -87,6 +88,9 @@ def load_default_yaml():
 def check_params(input_params, return_parser_tree=False):
     default_yaml = load_default_yaml()
 
+    # The parsed parameters should not share nested objects with the input
+    input_params = copy.deepcopy(input_params)
+
     parsed_params, params_parser_tree = parse_params(
         default_yaml, input_params, return_parser_tree=True
     )
-- 
2.43.0


From bba6697f933f49fb89ace331d8b732918f749ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 05/22] fix: resolve all references in a parameter value, also
 to non-text parameters

---
 mimosa/common/config/parseconfig.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 917f84c..92f2df4 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -125,13 +125,16 @@ def parse_param_values(params):
     def leaf_function(keys, node):
         if not isinstance(node, str):
             return
+        new_value = node
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
-            except KeyError:
-                pass
+            except (KeyError, TypeError):
+                continue
+            if not isinstance(other_value, (dict, list)):
+                new_value = new_value.replace(f"{{{match}}}", str(other_value))
+        if new_value != node:
+            set_nested(params, keys, new_value)
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From c1b97de769a098447868b81893b3c36ecb9a7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 06/22] fix: global cost pool module builds again (remove
 equations now defined in the mitigation component)

---
 .../emissiontrade/globalcostpool.py           | 24 ++-----------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..cb20415 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -37,22 +34,10 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
-    # The global mitigation cost pool:
+    # The global mitigation cost pool (the area under the MAC and the mitigation costs,
+    # including the import/export balance, are defined in the mitigation component):
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +80,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From 3bb126defb0207ffa95edf836e98c0c5a7a9560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 07/22] fix: per-capita convergence without convergence year,
 or with one before the first model year

---
 mimosa/components/effortsharing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..e729334 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,13 +259,13 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_t >= year_conv:
+        # From the convergence year on, use per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0


From dacba467d2e690f6b5463ab778f61f1b06e13cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 08/22] fix: soft equality constraints without ignore_if can be
 built

---
 mimosa/common/pyomo_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index fc7760c..c25e463 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -138,7 +138,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
             rule_rhs (typing.Callable): function (right-hand side) with parameters m, [t], [r]
             name (str, optional): name of the constraint, useful for debugging. Defaults to None.
             epsilon (float, optional): tolerance for upper/lower bounds. Defaults to 0.005.
-            ignore_if (typing.Callable): function with parameters m that returns True when constraint should be ignored
+            ignore_if (typing.Callable): function with parameters m, [t], [r] that returns True when constraint should be ignored
         """
         super().__init__(rule_lhs, [f"{name}_upperbound", f"{name}_lowerbound"])
 
@@ -147,7 +147,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
         self.absolute_epsilon = absolute_epsilon
 
         if ignore_if is None:
-            ignore_if = lambda m: False  # Never ignore when ignore_if is None
+            ignore_if = lambda m, *args: False  # Never ignore when ignore_if is None
         self.ignore_if = ignore_if
 
     def rhs_eps(self, rule_rhs, is_upper: bool, *args):
-- 
2.43.0


From 0c9edf27e8374f22e59bf83c3df5c9dbdd718ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 09/22] fix: SCC pathway can be computed again (constructor,
 baseline series and parameter values follow the current interfaces)

---
 mimosa/socialcostofcarbon/scc.py | 81 ++++++++++++++++----------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/mimosa/socialcostofcarbon/scc.py b/mimosa/socialcostofcarbon/scc.py
index 3801aaa..5c075d0 100644
--- a/mimosa/socialcostofcarbon/scc.py
+++ b/mimosa/socialcostofcarbon/scc.py
@@ -1,8 +1,9 @@
 import numpy as np
 import pandas as pd
-from collections import namedtuple
 
-from mimosa.common import regional_params, data
+from mimosa.abstract_model import create_abstract_model
+from mimosa.common import regional_params, data, value
+from mimosa.common.config.parseconfig import check_params, parse_param_values
 from mimosa.concrete_model.instantiate_params import InstantiatedModel
 from mimosa.concrete_model.simulation_mode.set_constraints import _get_interp_data
 from mimosa.components import sealevelrise
@@ -12,32 +13,37 @@ from mimosa.components.damages.coacch import damage_fct
 class SCC:
     # pylint: disable=no-member
     def __init__(self, params: dict):
-        self.params = params
-        self.regions = params["regions"]
+        params, parser_tree = check_params(params, True)
+        self.params = parse_param_values(params)
 
         # Create the regional parameter store
-        self.regional_param_store = regional_params.RegionalParamStore(self.params)
+        self.regional_param_store = regional_params.RegionalParamStore(
+            self.params, parser_tree
+        )
 
         # Create the data store
-        self.data_store = data.DataStore(self.params, self.regional_param_store)
-
-        self.data_functions = DataFunctions()
-
+        self.data_store = data.DataStore(self.params)
+
+        modules = self.params["model"]
+        abstract_model = create_abstract_model(
+            modules["damage module"],
+            modules["emissiontrade module"],
+            modules["financialtransfer module"],
+            modules["welfare module"],
+            modules["objective module"],
+        )
         instantiated_model = InstantiatedModel(
-            self.data_functions,
+            abstract_model,
             self.regional_param_store,
             self.data_store,
-            False,
         )
 
-        # From the instantiated model, only the parameter data ("instance_data")
-        # is used. Note that we use the default namespace parameters, "None"
-        instance_data = instantiated_model.instance_data[None]
-        self.data = dict_to_object(instance_data)
+        # From the instantiated model, only the parameter values are used.
+        self.data = instantiated_model.concrete_model
 
-        self.regions = self.data.regions
+        self.regions = list(self.data.regions)
         self.years_i = list(self.data.t)
-        self.years = [self.data_functions.year(i) for i in self.years_i]
+        self.years = [self.data.year(i) for i in self.years_i]
 
         self.check_regional_emissions_input()
 
@@ -74,12 +80,12 @@ class SCC:
 
         else:
             out["regional_emissions"] = pd.DataFrame(
-                {r: self.data_functions.baseline_emissions(years, r) for r in regions},
+                {r: self.data_store.interp_data(years, r, "emissions") for r in regions},
                 index=years,
             ).T
 
         out["gdp"] = pd.DataFrame(
-            {r: self.data_functions.GDP(years, r) for r in regions},
+            {r: self.data_store.interp_data(years, r, "GDP") for r in regions},
             index=years,
         ).T
 
@@ -96,30 +102,36 @@ class SCC:
         )
 
         # 3. From this, calculate temperature increase
-        T0 = self.data.T0
-        TCRE = self.data.TCRE
+        T0 = value(self.data.T0)
+        TCRE = value(self.data.TCRE)
         out["temperature"] = T0 + TCRE * cumulative_emissions
 
         # 4. And calculate SLR
-        total_slr = pd.Series()
+        total_slr = pd.Series(index=years, dtype=float)
         for t in self.years_i:
             if t == 0:
-                slr_thermal = sealevelrise.slr_thermal_expansion_init(self.data)
+                slr_thermal = value(sealevelrise.slr_thermal_expansion_init(self.data))
                 slr_cumgsic = 0.015
                 slr_cumgis = 0.006
             else:
                 prev_temp = out["temperature"][years[t - 1]]
-                slr_thermal = sealevelrise.slr_thermal_expansion(
-                    slr_thermal, prev_temp, self.data
+                slr_thermal = value(
+                    sealevelrise.slr_thermal_expansion(
+                        slr_thermal, prev_temp, self.data
+                    )
+                )
+                slr_cumgsic = value(
+                    sealevelrise.slr_gsic(slr_cumgsic, prev_temp, self.data)
+                )
+                slr_cumgis = value(
+                    sealevelrise.slr_gis(slr_cumgis, prev_temp, self.data)
                 )
-                slr_cumgsic = sealevelrise.slr_gsic(slr_cumgsic, prev_temp, self.data)
-                slr_cumgis = sealevelrise.slr_gis(slr_cumgis, prev_temp, self.data)
             total_slr[years[t]] = slr_thermal + slr_cumgsic + slr_cumgis
 
         # 5. Calculate regional damages
         out["damages_temperature"] = pd.DataFrame(
             {
-                r: self.data.damage_scale_factor
+                r: value(self.data.damage_scale_factor)
                 * damage_fct(
                     out["temperature"] - 0.6,
                     out["temperature"].iloc[0] - 0.6,
@@ -133,7 +145,7 @@ class SCC:
 
         out["damages_slr"] = pd.DataFrame(
             {
-                r: self.data.damage_scale_factor
+                r: value(self.data.damage_scale_factor)
                 * damage_fct(total_slr, total_slr.iloc[0], self.data, r, True)
                 for r in regions
             }
@@ -143,14 +155,3 @@ class SCC:
         out["damages_absolute"] = out["damages_total"] * out["gdp"]
 
         self.output = out
-
-
-class DataFunctions:
-    pass
-
-
-def dict_to_object(data_dict: dict, name="object"):
-    obj = namedtuple(name, data_dict.keys())(
-        *[v[None] if list(v.keys()) == [None] else v for v in data_dict.values()]
-    )
-    return obj
-- 
2.43.0


From bddedb196b96c94f627644625b0e7cd149d76ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 10/22] fix: SCC no longer ignores supplied emissions silently
 when a region is missing from them

---
 mimosa/socialcostofcarbon/scc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mimosa/socialcostofcarbon/scc.py b/mimosa/socialcostofcarbon/scc.py
index 5c075d0..da4342e 100644
--- a/mimosa/socialcostofcarbon/scc.py
+++ b/mimosa/socialcostofcarbon/scc.py
@@ -56,17 +56,19 @@ class SCC:
             filepath_or_data = self.params["simulation"]["constraint_variables"][
                 "regional_emissions"
             ]
-            self.override_regional_emissions = True
-            data_cache = {}
-            interp_data = _get_interp_data(
-                filepath_or_data, data_cache, "regional_emissions"
-            )
-            self.new_regional_emissions = pd.DataFrame(
-                {r: interp_data.get(r, self.years) for r in self.regions},
-                index=self.years,
-            ).T
         except KeyError:
             self.override_regional_emissions = False
+            return
+
+        self.override_regional_emissions = True
+        data_cache = {}
+        interp_data = _get_interp_data(
+            filepath_or_data, data_cache, "regional_emissions"
+        )
+        self.new_regional_emissions = pd.DataFrame(
+            {r: interp_data.get(r, self.years) for r in self.regions},
+            index=self.years,
+        ).T
 
     def calculate_damages(self):
         out = {}
-- 
2.43.0


From eecaac06869360823cfe72c4964b73306f078ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 11/22] fix: regions without data in a mapped regional
 parameter file are an error, not NaN

---
 mimosa/common/regional_params/region_mappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/regional_params/region_mappers.py b/mimosa/common/regional_params/region_mappers.py
index 9d5b8d9..9ba4a7c 100644
--- a/mimosa/common/regional_params/region_mappers.py
+++ b/mimosa/common/regional_params/region_mappers.py
@@ -41,7 +41,8 @@ class RegionMapper:
             self.mapping[[regiontype_from, regiontype_to]],
             left_on=region_column,
             right_on=regiontype_from,
-            how="outer",
+            how="inner",
+            sort=True,
         ).drop(columns=["region", regiontype_from])
 
         # Group by region_to (if there are multiple regions mapping to one,
-- 
2.43.0


From 318f65f8935d40faff4890c6cb38f63e8f1f9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 12/22] fix: an input database that was rewritten is read again
 instead of served from the process-wide cache

---
 mimosa/common/data/datastore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..212b107 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -24,6 +24,7 @@ class DataStore:
     # Class property and not instance property to reduce redundancy
     databases = {}
     cached_data = {}
+    file_versions = {}
 
     def __init__(self, params):
         self.params = params
@@ -36,17 +37,21 @@ class DataStore:
             self._data_values[var_name] = self._create_data_values(var_info)
 
     def _select_database(self, filename):
-        """Makes sure the file doesn't need to be read multiple times"""
+        """Makes sure the file doesn't need to be read multiple times, as long as
+        it doesn't change"""
         full_path = os.path.join(
             os.path.dirname(__file__),
             "../../",
             filename,
         )
-        if filename not in DataStore.databases:
+        file_stat = os.stat(full_path)
+        version = (file_stat.st_mtime_ns, file_stat.st_size)
+        if DataStore.file_versions.get(filename) != version:
             database = pd.read_csv(full_path)
             database.columns = database.columns.str.lower()
             DataStore.databases[filename] = database
             self.cached_data[filename] = {}
+            DataStore.file_versions[filename] = version
 
     def _create_data_years(self):
         beginyear = self.params["time"]["start"]
-- 
2.43.0


From adce7344aae13980ac1635cbd8c40ebbb981df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 13/22] fix: resolve references to text parameters that contain
 references themselves

---
 mimosa/common/config/parseconfig.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 92f2df4..5d3e303 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -122,17 +122,26 @@ def parse_param_values(params):
     def leaf_criterium(node):
         return not isinstance(node, dict)
 
-    def leaf_function(keys, node):
-        if not isinstance(node, str):
-            return
+    def resolve(node, resolving):
         new_value = node
         for match in re.findall(r"\{([\w -]+)\}", node):
+            if match in resolving:  # Circular reference
+                continue
             try:
                 other_value = get_nested(params, match.split(" - "))
             except (KeyError, TypeError):
                 continue
+            if isinstance(other_value, str):
+                # The other parameter might contain references itself
+                other_value = resolve(other_value, resolving + [match])
             if not isinstance(other_value, (dict, list)):
                 new_value = new_value.replace(f"{{{match}}}", str(other_value))
+        return new_value
+
+    def leaf_function(keys, node):
+        if not isinstance(node, str):
+            return
+        new_value = resolve(node, [" - ".join(map(str, keys))])
         if new_value != node:
             set_nested(params, keys, new_value)
 
-- 
2.43.0


From 36730149d0a4f464daf3ee5fa894e3502dafa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 14/22] fix: custom parameter values also override those of the
 combined damage function

---
 mimosa/concrete_model/instantiate_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..eb50dd7 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -49,6 +49,10 @@ class InstantiatedModel:
             # otherwise, the parameter values are set dynamically
             self._set_instance_data_coacch(instance_data)
 
+        ## Custom parameter values override all other values
+        if "custom_mapping" in self.params["simulation"]:
+            instance_data[None].update(self.params["simulation"]["custom_mapping"])
+
         return instance_data
 
     ########################
@@ -121,9 +125,6 @@ class InstantiatedModel:
 
         parameter_mapping.update(parameter_mapping_manual)
 
-        if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
-
         instance_data[None].update(parameter_mapping)
 
     def _set_instance_data_coacch(self, instance_data) -> None:
-- 
2.43.0


From e2372e7ac6d6e0c258d3e7282e05a4b9f2acfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 15/22] fix: no extra model year when the division of the
 horizon by the step is rounded up

---
 mimosa/concrete_model/instantiate_params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index eb50dd7..b12841f 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -67,6 +67,9 @@ class InstantiatedModel:
         t_end = params["time"]["end"]
         dt = params["time"]["dt"]
         num_years = int(np.ceil((t_end - t_start) / dt)) + 1
+        if num_years > 1 and t_start + (num_years - 2) * dt > t_end - 1e-6:
+            # Rounding errors in the division: the second to last year reaches the end already
+            num_years -= 1
         self.abstract_model.year = lambda t: t_start + t * dt
         year2100 = int((2100 - t_start) / dt)
 
-- 
2.43.0


From 9aa04106f542bff202d9bd1a93884d420d66d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:03 +0000
Subject: [PATCH 16/22] fix: reject booleans for numeric parameters instead of
 turning them into 0 or 1

---
 mimosa/common/config/utils/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 2e230f3..1eabbf6 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -166,6 +166,9 @@ class NumParser(GeneralParser):
     def parse(self, value):
         if self.check_false(value):
             return False
+        if isinstance(value, bool):
+            # Python would convert these to the numbers 0 or 1
+            self.error(f"Value {value} is not a number")
         try:
             parsed_value = self.num_type_fct(value)
         except ValueError:
-- 
2.43.0


From 301368abc341696870817045b3229c17a004f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:43 +0000
Subject: [PATCH 17/22] fix: minimum and maximum payment levels of the global
 cost pool are enforced

---
 .../emissiontrade/globalcostpool.py           | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index cb20415..b47f0c0 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,6 +13,7 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
+    value,
     quant,
 )
 
@@ -90,5 +91,27 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     m.max_rel_payment_level = Param(
         doc="::economics.emission trade.max rel payment level"
     )
+    constraints.extend(
+        [
+            RegionalConstraint(
+                lambda m, t, r: (
+                    m.mitigation_costs[t, r]
+                    >= m.min_rel_payment_level * m.area_under_MAC[t, r]
+                    if value(m.min_rel_payment_level) is not False
+                    else Constraint.Skip
+                ),
+                "min_rel_payment_level",
+            ),
+            RegionalConstraint(
+                lambda m, t, r: (
+                    m.mitigation_costs[t, r]
+                    <= m.max_rel_payment_level * m.area_under_MAC[t, r]
+                    if value(m.max_rel_payment_level) is not False
+                    else Constraint.Skip
+                ),
+                "max_rel_payment_level",
+            ),
+        ]
+    )
 
     return constraints
-- 
2.43.0


From fa79898cbf1c17bda2d291ae078f772925c3929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:35 +0000
Subject: [PATCH 18/22] fix: variables without time dimension can be saved

---
 mimosa/common/pyomo_utils.py |  2 ++
 mimosa/export/save.py        | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index c25e463..087f511 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -260,6 +260,8 @@ def has_time_and_region_dim(var):
 
 
 def get_indices(var):
+    if not var.is_indexed():
+        return []
     return [index.local_name for index in var.index_set().subsets()]
 
 
diff --git a/mimosa/export/save.py b/mimosa/export/save.py
index 01b1349..ad6efd9 100644
--- a/mimosa/export/save.py
+++ b/mimosa/export/save.py
@@ -9,7 +9,12 @@ import hashlib
 import numpy as np
 import pandas as pd
 
-from mimosa.common import get_all_variables, get_all_time_region_params, value
+from mimosa.common import (
+    get_all_variables,
+    get_all_time_region_params,
+    get_indices,
+    value,
+)
 
 
 def save_output(params, m, experiment=None, hash_suffix=False, folder="output"):
@@ -54,8 +59,14 @@ def var_to_row(rows, m, var, is_regional, unit):
     if is_regional:
         for r in m.regions:
             rows.append([name, r, unit] + [value(var[t, r]) for t in m.t])
-    else:
+    elif "t" in get_indices(var):
         rows.append([name, "Global", unit] + [value(var[t]) for t in m.t])
+    # Variables that don't depend on time have the same value in every year
+    elif "regions" in get_indices(var):
+        for r in m.regions:
+            rows.append([name, r, unit] + [value(var[r]) for _ in m.t])
+    else:
+        rows.append([name, "Global", unit] + [value(var) for _ in m.t])
 
 
 def rows_to_dataframe(rows, m):
-- 
2.43.0


From b690cb882ad1fc16fa6c87d27df36a347eeb673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:48 +0000
Subject: [PATCH 19/22] fix: simulation data continue beyond 2150 for longer
 horizons

---
 mimosa/concrete_model/simulation_mode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index 89fbf3a..b1b5e73 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -42,7 +42,7 @@ class InterpolatingData:
     def interp(row):
         values = row.values
         years = row.index.astype(float).to_numpy()
-        extra_years = np.arange(years[-1] + 5, 2151, 5)
+        extra_years = np.arange(years[-1] + 5, 2251, 5)
 
         new_values = extrapolate(values, years, extra_years, "for_simulation_mode")
         all_years = np.concatenate([years, extra_years])
-- 
2.43.0


From f582791accd90f03b0c06d81cef80db9c414b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:03 +0000
Subject: [PATCH 20/22] fix: horizons up to the declared maximum of 2300 can be
 built

---
 mimosa/common/data/datastore.py                | 2 +-
 mimosa/concrete_model/simulation_mode/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 212b107..75cf2d8 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -108,7 +108,7 @@ class DataStore:
             unit = quantity.units
 
         # 2. Extrapolate this data to beyond 2100
-        extra_years = np.arange(2110, 2260, 10)
+        extra_years = np.arange(2110, 2360, 10)
         extended_data = extrapolate(
             values, years, extra_years, [var_info["variable"], region]
         )
diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index b1b5e73..9272ee0 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -42,7 +42,7 @@ class InterpolatingData:
     def interp(row):
         values = row.values
         years = row.index.astype(float).to_numpy()
-        extra_years = np.arange(years[-1] + 5, 2251, 5)
+        extra_years = np.arange(years[-1] + 5, 2351, 5)
 
         new_values = extrapolate(values, years, extra_years, "for_simulation_mode")
         all_years = np.concatenate([years, extra_years])
-- 
2.43.0


From 9687a1f5388fe8820c04a7fe89ebb9f806c4eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:19 +0000
Subject: [PATCH 21/22] fix: mentions in documentation pages that contain one
 another stay apart

---
 docs/scripts/mkdocs_hooks.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/docs/scripts/mkdocs_hooks.py b/docs/scripts/mkdocs_hooks.py
index dbaff4d..6c84e78 100644
--- a/docs/scripts/mkdocs_hooks.py
+++ b/docs/scripts/mkdocs_hooks.py
@@ -163,7 +163,7 @@ def _print_param(tree, mainkey, breadcrumbs, indent=""):
 
 
 def on_page_content(html, **kwargs):
-    pattern = re.compile(r"(param::([a-zA-Z0-9_]+))")
+    pattern = re.compile(r"((?<!manual)param::([a-zA-Z0-9_]+))")
     for match, param_name in re.findall(pattern, html):
         try:
             param = getattr(model, param_name)
@@ -174,7 +174,9 @@ def on_page_content(html, **kwargs):
                     keys = param.doc.split("::")[1].split(".")
                     doc = get_nested(parser_tree, keys).to_string()
                     formatted_text = f"<a href='../../parameters/#{param.doc.split('::')[1]}'><code>{param_name}</code></a>: {doc}"
-            html = html.replace(match, formatted_text)
+            # Only this mention, not the start of a longer one or the end of a manual one
+            mention = rf"(?<!manual){match}(?![a-zA-Z0-9_])"
+            html = re.sub(mention, lambda _: formatted_text, html)
 
         except AttributeError:
             pass
@@ -187,7 +189,8 @@ def on_page_content(html, **kwargs):
             keys = param_key_str.split(".")
             doc = get_nested(parser_tree, keys).to_string()
             formatted_text = f"<a href='../../parameters/#{param_key_str}'><code>{param_title}</code></a>: {doc}"
-            html = html.replace(match, formatted_text)
+            mention = rf"{re.escape(match)}(?![a-zA-Z0-9_.])"
+            html = re.sub(mention, lambda _: formatted_text, html)
 
         except AttributeError:
             pass
-- 
2.43.0


From 36a2f9e244d1c9b5f7ab6620b994ff5039bf652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:13 +0000
Subject: [PATCH 22/22] fix: an undeclared empty group in the configuration is
 rejected

---
 mimosa/common/config/parseconfig.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 5d3e303..e416d76 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -53,11 +53,14 @@ def parse_params(default_yaml, user_yaml, return_parser_tree=False):
 def create_leaf_criterium(parser_tree):
     def leaf_criterium(keys, node):
         try:
-            parser_type = get_nested(parser_tree, keys).type
-        except (AttributeError, KeyError):
-            parser_type = None
+            declared = get_nested(parser_tree, keys)
+        except (AttributeError, KeyError, TypeError):
+            declared = None
+        parser_type = getattr(declared, "type", None)
         if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:
-            return False
+            # An empty group has no settings of its own to be compared: it
+            # counts as a setting itself if there is no such group
+            return len(node) == 0 and declared is None
         return True
 
     return leaf_criterium
-- 
2.43.0

