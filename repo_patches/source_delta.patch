From 0d4822b52bd5e3d20705e8390aff872a857b2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 01/14] fix: make the globalcostpool emission trade module
 buildable

It re-declared area_under_MAC and re-used the constraint name mitigation_costs,
both of which are already defined by the mitigation module.
---
 .../emissiontrade/globalcostpool.py           | 27 +++----------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..71645ff 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,19 +13,18 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
     (global cost pool specification)
 
-    Necessary variables:
-        m.mitigation_costs (abatement costs as paid for by this region)
+    Necessary variables (defined in the mitigation module):
+        m.mitigation_costs (abatement costs as paid for by this region, equal to
+            m.area_under_MAC + m.import_export_mitigation_cost_balance)
+        m.area_under_MAC
 
     Returns:
         list of constraints (any of:
@@ -37,22 +36,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
     # The global mitigation cost pool:
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +81,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From 963c7599cc2a486350b5b8eb093edbcf3da3a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 02/14] fix: recognise a convergence year that is switched off

m.percapconv_year is a Param object, so comparing it to False by identity
never succeeded and the regime converged in year 0 instead of never.
---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..4a30447 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,7 +259,7 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
-- 
2.43.0


From f078dbda02a60b9b113618579cf518cef86d772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 03/14] fix: per capita convergence before the start year

A convergence year before the first model year gave a negative interpolation
factor, and thereby shares outside [0, 1].
---
 mimosa/components/effortsharing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index 4a30447..b3f6a58 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -264,8 +264,8 @@ def percapconv_share_rule(m, t, r):
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_conv <= year_0:
+        # If it is not after the first year, use immediate per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0


From 8b90bc68964f3ea70baa3fd8517fd7a795c55086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 04/14] fix: resolve every reference in a value, and references
 to non-text settings

With several references in one value only the last one was replaced, and a
reference to a number or a flag raised a TypeError.
---
 mimosa/common/config/parseconfig.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..2391125 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -120,13 +120,16 @@ def parse_param_values(params):
     def leaf_function(keys, node):
         if not isinstance(node, str):
             return
+        new_value = node
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
-            except KeyError:
-                pass
+            except (KeyError, TypeError):
+                continue  # Not a reference to an existing setting
+            if isinstance(other_value, dict):
+                continue  # A whole section is not a setting
+            new_value = new_value.replace(f"{{{match}}}", str(other_value))
+        set_nested(params, keys, new_value)
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From d4203809099406d55102e83972ee8c2e9a8696d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 05/14] fix: reject not-a-number for numeric settings and
 quantities

NaN is neither below the minimum nor above the maximum, so it was accepted
for every setting, whatever its range.
---
 mimosa/common/config/utils/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..2e230f3 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -173,7 +173,7 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        if not self.min <= parsed_value <= self.max:  # Also rejects NaN
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From 1af88e9a2de422ddaee3718efc752b93f3699299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 06/14] fix: reject unknown settings spelled as a joined path
 and unknown empty sections

Paths were compared after joining their keys with ' - ', so the key
'emissions - carbonbudget' passed as known and was ignored, and a section
without entries was never looked at.
---
 mimosa/common/config/parseconfig.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2391125..0034ea4 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -66,15 +66,22 @@ def check_obsolete_params(user_yaml, parsed_params, parser_tree):
 
     leaf_criterium = create_leaf_criterium(parser_tree)
 
-    keys_user = set(flatten(user_yaml, leaf_criterium=leaf_criterium))
-    keys_parsed = set(flatten(parsed_params, leaf_criterium=leaf_criterium))
-
     # Check keys which are in user config, but not in parsed file
     # These are obsolete/unused/misspelled parameters
     num_obsolete = 0
-    for key in set(keys_user) - set(keys_parsed):
-        num_obsolete += 1
-        print(f"Obsolete key: {key}")
+
+    def _check_level(curr_keys, user_subset, parsed_subset):
+        nonlocal num_obsolete
+        for key, node in user_subset.items():
+            keys = list(curr_keys) + [key]
+            if key not in parsed_subset:
+                num_obsolete += 1
+                print(f"Obsolete key: {' - '.join(map(str, keys))}")
+            elif not leaf_criterium(keys, node):
+                _check_level(keys, node, parsed_subset[key])
+
+    _check_level([], user_yaml, parsed_params)
+
     if num_obsolete > 0:
         raise RuntimeWarning("Some config parameters are obsolete.")
 
-- 
2.43.0


From a01a067689b57c98b062474322a9ed39d1acafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/14] fix: do not share nested values with the caller's
 parameter dictionary

Nested dictionaries (regional overrides, simulated variables, ...) were taken
over by reference: resolving references changed the caller's dictionary, and
changing it later changed the recorded parameters of an existing model.
---
 mimosa/common/config/parseconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 0034ea4..83e64d3 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -93,6 +94,9 @@ def load_default_yaml():
 def check_params(input_params, return_parser_tree=False):
     default_yaml = load_default_yaml()
 
+    # The parsed parameters should not share (nested) values with the input
+    input_params = copy.deepcopy(input_params)
+
     parsed_params, params_parser_tree = parse_params(
         default_yaml, input_params, return_parser_tree=True
     )
-- 
2.43.0


From 9aed6610d0068d1463fb97851a6f28f691b39846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 08/14] fix: no extra time step when a fractional step divides
 the horizon

---
 mimosa/concrete_model/instantiate_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..b61c49c 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -62,7 +62,8 @@ class InstantiatedModel:
         t_start = params["time"]["start"]
         t_end = params["time"]["end"]
         dt = params["time"]["dt"]
-        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
+        # Rounding, since e.g. 21 / 0.7 is slightly larger than 30
+        num_years = int(np.ceil(np.round((t_end - t_start) / dt, 9))) + 1
         self.abstract_model.year = lambda t: t_start + t * dt
         year2100 = int((2100 - t_start) / dt)
 
-- 
2.43.0


From eb06d4770d1dd502210a8d764d081b36e1435953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 09/14] fix: units of carbon prices, transfers and cumulative
 baseline emissions in the output

---
 mimosa/components/emissions.py                       |  5 ++++-
 mimosa/components/emissiontrade/emissiontrade.py     |  4 +++-
 .../components/financialtransfer/globaldamagepool.py |  5 ++++-
 mimosa/components/financialtransfer/notransfer.py    | 12 ++++++++++--
 mimosa/components/mitigation.py                      |  2 +-
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mimosa/components/emissions.py b/mimosa/components/emissions.py
index 643ca96..4cdca46 100644
--- a/mimosa/components/emissions.py
+++ b/mimosa/components/emissions.py
@@ -60,7 +60,10 @@ def _set_baseline_emissions(m: AbstractModel) -> None:
         return np.trapz(values, years)
 
     m.cumulative_baseline_emissions = Param(
-        m.t, m.regions, initialize=_calc_cum_baseline_emissions
+        m.t,
+        m.regions,
+        initialize=_calc_cum_baseline_emissions,
+        units=quant.unit("emissions_unit"),
     )
 
     # And create a param for the global cumulative baseline emissions
diff --git a/mimosa/components/emissiontrade/emissiontrade.py b/mimosa/components/emissiontrade/emissiontrade.py
index e77be07..db958f4 100644
--- a/mimosa/components/emissiontrade/emissiontrade.py
+++ b/mimosa/components/emissiontrade/emissiontrade.py
@@ -55,7 +55,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.global_carbonprice = Var(m.t)
+    m.global_carbonprice = Var(
+        m.t, units=quant.unit("currency_unit/emissionsrate_unit")
+    )
 
     # Emissions are traded at the global carbon price
     constraints.extend(
diff --git a/mimosa/components/financialtransfer/globaldamagepool.py b/mimosa/components/financialtransfer/globaldamagepool.py
index 8b9584d..42897a7 100644
--- a/mimosa/components/financialtransfer/globaldamagepool.py
+++ b/mimosa/components/financialtransfer/globaldamagepool.py
@@ -13,6 +13,7 @@ from mimosa.common import (
     RegionalInitConstraint,
     Constraint,
     Var,
+    quant,
 )
 
 
@@ -48,7 +49,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     constraints = []
 
     # Note: positive financial transfer means paying money, negative means receiving
-    m.financial_transfer = Var(m.t, m.regions, initialize=0)
+    m.financial_transfer = Var(
+        m.t, m.regions, initialize=0, units=quant.unit("currency_unit")
+    )
     m.rel_financial_transfer = Var(m.t, m.regions, initialize=0)
 
     constraints.extend(
diff --git a/mimosa/components/financialtransfer/notransfer.py b/mimosa/components/financialtransfer/notransfer.py
index e50807d..a0fc932 100644
--- a/mimosa/components/financialtransfer/notransfer.py
+++ b/mimosa/components/financialtransfer/notransfer.py
@@ -5,7 +5,13 @@ Type: no transfer
 """
 
 from typing import Sequence
-from mimosa.common import AbstractModel, GeneralConstraint, RegionalConstraint, Param
+from mimosa.common import (
+    AbstractModel,
+    GeneralConstraint,
+    RegionalConstraint,
+    Param,
+    quant,
+)
 
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
@@ -19,7 +25,9 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     constraints = []
 
     # Since it is always zero, it is better to make it a Param instead of Var for numerical stability
-    m.financial_transfer = Param(m.t, m.regions, initialize=0)
+    m.financial_transfer = Param(
+        m.t, m.regions, initialize=0, units=quant.unit("currency_unit")
+    )
     m.rel_financial_transfer = Param(m.t, m.regions, initialize=0)
 
     return constraints
diff --git a/mimosa/components/mitigation.py b/mimosa/components/mitigation.py
index f2c4da7..abd49d4 100644
--- a/mimosa/components/mitigation.py
+++ b/mimosa/components/mitigation.py
@@ -197,7 +197,7 @@ def _get_mac_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
         m.t,
         m.regions,
         bounds=lambda m: (0, 2 * m.MAC_gamma),
-        units=quant.unit("currency_unit/emissions_unit"),
+        units=quant.unit("currency_unit/emissionsrate_unit"),
     )
     constraints.extend(
         [
-- 
2.43.0


From 2f20c4ec88b2b855d551791a45c91935647ce1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 10/14] fix: report incomplete simulation data instead of
 imposing not-a-number

---
 mimosa/concrete_model/simulation_mode/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index 89fbf3a..4ddb5ad 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -50,6 +50,8 @@ class InterpolatingData:
 
     def get(self, region, year):
         value = self.region_interp_fct[region](year)
+        if np.isnan(value).any():
+            raise ValueError(f"Incomplete simulation data for {region} in {year}")
         if len(value.shape) == 0:
             return float(value)
         return value
-- 
2.43.0


From 031ae55ba9f58891d55ae8e0960689bc478f8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 11/14] fix: soft equality constraint without ignore_if can be
 built

The default of ignore_if took one argument but is called with the indices.
---
 mimosa/common/pyomo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index fc7760c..6ba3d57 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -147,7 +147,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
         self.absolute_epsilon = absolute_epsilon
 
         if ignore_if is None:
-            ignore_if = lambda m: False  # Never ignore when ignore_if is None
+            ignore_if = lambda *args: False  # Never ignore when ignore_if is None
         self.ignore_if = ignore_if
 
     def rhs_eps(self, rule_rhs, is_upper: bool, *args):
-- 
2.43.0


From 2fb95a422178119a6ec980a0e34643a3557c93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 12/14] fix: several soft equality constraints without a name
 can be used together

They all got the names None_upperbound and None_lowerbound.
---
 mimosa/common/pyomo_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index 6ba3d57..edaa523 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -140,7 +140,10 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
             epsilon (float, optional): tolerance for upper/lower bounds. Defaults to 0.005.
             ignore_if (typing.Callable): function with parameters m that returns True when constraint should be ignored
         """
-        super().__init__(rule_lhs, [f"{name}_upperbound", f"{name}_lowerbound"])
+        names = [None, None]
+        if name is not None:
+            names = [f"{name}_upperbound", f"{name}_lowerbound"]
+        super().__init__(rule_lhs, names)
 
         self.rule_rhs = rule_rhs
         self.epsilon = epsilon
-- 
2.43.0


From e9755e00ffe3423ceb7ec2e72250adc74cbb3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 13/14] fix: variables without a time dimension can be saved

The documentation allows variables that depend on regions only or on nothing;
saving a model with one failed.
---
 mimosa/common/pyomo_utils.py |  2 ++
 mimosa/export/save.py        | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index edaa523..87835d5 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -263,6 +263,8 @@ def has_time_and_region_dim(var):
 
 
 def get_indices(var):
+    if not var.is_indexed():
+        return []
     return [index.local_name for index in var.index_set().subsets()]
 
 
diff --git a/mimosa/export/save.py b/mimosa/export/save.py
index 01b1349..56989d6 100644
--- a/mimosa/export/save.py
+++ b/mimosa/export/save.py
@@ -9,7 +9,12 @@ import hashlib
 import numpy as np
 import pandas as pd
 
-from mimosa.common import get_all_variables, get_all_time_region_params, value
+from mimosa.common import (
+    get_all_variables,
+    get_all_time_region_params,
+    get_indices,
+    value,
+)
 
 
 def save_output(params, m, experiment=None, hash_suffix=False, folder="output"):
@@ -50,8 +55,16 @@ def var_to_row(rows, m, var, is_regional, unit):
     else:
         name = var.name
 
+    # Variables without time dimension have the same value in every year
+    indices = get_indices(var)
+    if indices == ["regions"]:
+        for r in m.regions:
+            rows.append([name, r, unit] + [value(var[r])] * len(m.t))
+    elif not indices:
+        rows.append([name, "Global", unit] + [value(var)] * len(m.t))
+
     # Check if var is a function or a pyomo variable
-    if is_regional:
+    elif is_regional:
         for r in m.regions:
             rows.append([name, r, unit] + [value(var[t, r]) for t in m.t])
     else:
-- 
2.43.0


From b0adb98dd54ce6abec8de4124837597360b165b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:35 +0000
Subject: [PATCH 14/14] fix: custom mapping also replaces the coefficients of
 the combined damage function

---
 mimosa/concrete_model/instantiate_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b61c49c..95a52a1 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -49,6 +49,10 @@ class InstantiatedModel:
             # otherwise, the parameter values are set dynamically
             self._set_instance_data_coacch(instance_data)
 
+        ## Custom mappings replace the values set above:
+        if "custom_mapping" in self.params["simulation"]:
+            instance_data[None].update(self.params["simulation"]["custom_mapping"])
+
         return instance_data
 
     ########################
@@ -122,9 +126,6 @@ class InstantiatedModel:
 
         parameter_mapping.update(parameter_mapping_manual)
 
-        if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
-
         instance_data[None].update(parameter_mapping)
 
     def _set_instance_data_coacch(self, instance_data) -> None:
-- 
2.43.0

