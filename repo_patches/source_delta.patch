From a0a084fc01e7ec2141f7f03b161a58d08bc28f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 01/47] fix: count branches of all components in
 adjacency_matrix

---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From 94d865f82f553d313812d2d0852e717694d535a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 02/47] fix: ignore inactive branches when looking for cycles

---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From 3cc90cc3ffba6d6dee6bc0c23d61ee073ed8526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 03/47] fix: apply tech capacity expansion limits without
 investment period

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..a907640 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
-- 
2.43.0


From 8d4cd455464537da8be342ded07f1cb85126c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 04/47] fix: align buses when summing tech capacity over
 components

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a907640..cc8d2bc 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -77,7 +77,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         if not lhs_per_bus_list:
             continue
 
-        lhs_per_bus = merge(lhs_per_bus_list)
+        lhs_per_bus = merge(lhs_per_bus_list, join="outer")
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-- 
2.43.0


From 26e4399a801890b69a014605e1e36b447880e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 05/47] fix: align carriers when summing growth over components

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index cc8d2bc..115b9b7 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -232,7 +232,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
     if not lhs_list:
         return
 
-    lhs = merge(lhs_list)
+    lhs = merge(lhs_list, join="outer")
     rhs = max_absolute_growth.reindex_like(lhs.data)
 
     m.add_constraints(lhs, "<=", rhs, name="Carrier-growth_limit")
-- 
2.43.0


From 11a9f072316dec61b264a2860ff5f1dc84035c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 06/47] fix: count capacity as growth only in the period it is
 added

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 115b9b7..a8181f5 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -218,7 +218,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray(active & (active.cumsum() == 1))
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
-- 
2.43.0


From 2902b8bf744c01f07fdf32c080136861cb35a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 07/47] fix: keep buses without attachments out of the nodal
 balance merge

---
 pypsa/optimization/constraints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..7209ac8 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -636,7 +636,6 @@ def define_nodal_balance_constraints(
         if expr.size:
             exprs.append(expr.groupby(cbuses).sum())
 
-    lhs = merge(exprs, join="outer").reindex(Bus=buses)
     active = n.loads.query("active").index
     rhs = (
         (-get_as_dense(n, "Load", "p_set", sns, active) * n.loads.sign[active])
@@ -648,6 +647,12 @@ def define_nodal_balance_constraints(
     # TODO remove once we bump the required pandas version to >= 1.4.0
     rhs.index.name = "snapshot"
 
+    if not exprs:
+        if (rhs != 0).any(axis=None):
+            raise ValueError("Empty LHS with non-zero RHS in nodal balance constraint.")
+        return
+
+    lhs = merge(exprs, join="outer").reindex(Bus=buses)
     empty_nodal_balance = (lhs.vars == -1).all("_term")
     rhs = DataArray(rhs)
     if empty_nodal_balance.any():
-- 
2.43.0


From efbaba6bccf707e0af74d4298c7eacae7400df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:23 +0000
Subject: [PATCH 08/47] fix: keep ramp constraints of units with limits of one

define_ramp_limit_constraints returned early when every ramp limit equals one,
which also dropped the start-up and shut-down ramps of committable units and
the limits of units with a negative p_min_pu
---
 pypsa/optimization/constraints.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 7209ac8..b3db928 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -410,8 +410,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
 
     if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
         return
-    if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
-        return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
 
-- 
2.43.0


From b8aeb994fffa98509fae0d26a18f3fe7d2a97d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 09/47] fix: fill static defaults of additional link ports when
 first added

The component attributes of a new port were registered only after the
attribute lists had been read, so the first multi-port link lacked e.g.
a static efficiency2 and building the model raised KeyError.
---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..861098d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From 9d4c363b3b879205b8fcb9de6358ed672343b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 10/47] fix: get_switchable_as_iter with varying attributes

Series.append was removed in pandas 2.
---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..67262d5 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From 86a5643805c1d7387daa98fd94060f57e78a75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 11/47] fix: accept unnamed generator slack weights in power
 flow

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..0861001 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -645,7 +645,7 @@ def sub_network_pf(
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
                 slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
-- 
2.43.0


From 8c83094b839afe459e60b46ba30014c1e69ac590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 12/47] fix: distribute slack by static weights at single-bus
 sub-networks

---
 pypsa/pf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 0861001..4bfbc81 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -24,6 +24,7 @@ from pypsa.definitions.structures import Dict
 from pypsa.descriptors import (
     additional_linkports,
     allocate_series_dataframes,
+    expand_series,
     update_linkports_component_attrs,
     zsum,
 )
@@ -371,7 +372,9 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, pd.Series):
+                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
@@ -398,8 +401,8 @@ def sub_network_pf_singlebus(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
-            else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
+            if isinstance(bus_generator_shares, pd.Series):
+                bus_generator_shares = expand_series(bus_generator_shares, sns).T
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
-- 
2.43.0


From c79559be843cc2c242a2275c6f0fa53bacb8925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 13/47] fix: power flow with all branches of one component
 class inactive

---
 pypsa/pf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 4bfbc81..94cb95b 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -737,6 +737,8 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if c.name not in branches_i:
+            continue
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
@@ -1517,6 +1519,8 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if c.name not in flows.columns:
+                continue
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
-- 
2.43.0


From d682e1708c8c640aea91b362a9fc87a9c6db32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 14/47] fix: contingency analysis of networks with isolated
 buses

---
 pypsa/contingency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..46d9ca5 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -116,7 +116,8 @@ def network_lpf_contingency(
 
     for sub_network in n.sub_networks.obj:
         sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
-- 
2.43.0


From a3a7dc4d0f25899fe82cbde85fc10ae2e603d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 15/47] fix: ignore inactive links in power flow

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 94cb95b..55e27dd 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -151,7 +151,7 @@ def _network_prepare_and_run_pf(
 
     # deal with links
     if not n.links.empty:
-        p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set = get_as_dense(n, "Link", "p_set", sns) * n.links.active
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
-- 
2.43.0


From dc8f7986b08b9b1ea195ee3b5893b5d3ad3860a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 16/47] fix: ignore inactive shunt impedances in power flow

---
 pypsa/pf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 55e27dd..1ad7f87 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1258,13 +1258,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunts = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunts.b_pu.groupby(shunts.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunts.g_pu.groupby(shunts.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
-- 
2.43.0


From cfddeab187b00793aa23264224671730bb7fe83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 17/47] fix: distribute slack evenly at buses without nominal
 capacity

---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 1ad7f87..2761fab 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -799,8 +799,8 @@ def sub_network_pf(
                 else:
                     bus_generators_p_nom = n.generators.p_nom.loc[group.index]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    if (bus_generators_p_nom == 0).all():
+                        bus_generators_p_nom = pd.Series(1.0, group.index)
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From f2526eb3b6efb6954060c9c3683a7098f83a65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 18/47] fix: ignore time series of existing components in add
 without overwrite

---
 pypsa/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..788fe0a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1340,10 +1340,13 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = self.static(c.name).index.intersection(names)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            if not overwrite:
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From 5265f1483505e181f815fbf2914b3cad3cc784dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 19/47] fix: remove time series of overwritten components

---
 pypsa/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 861098d..b19f5b5 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1482,6 +1482,9 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            # time series of the overwritten components are no longer valid
+            for k, v in n.dynamic(cls_name).items():
+                v.drop(columns=v.columns.intersection(duplicated_components), inplace=True)
 
     # Concatenate to new dataframe
     if not old_static.empty:
-- 
2.43.0


From 17eef417ae739231b98ec1adbf5d46b2f87fa474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 20/47] fix: set the coordinate reference system of a network

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 788fe0a..819558d 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -652,7 +652,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, allow_override=True, inplace=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
-- 
2.43.0


From ee5d0839364f2eb38261c85853b1a043491dbdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 21/47] fix: keep the coordinate reference system in selective
 copies and slices

---
 pypsa/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 819558d..93148ce 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1532,6 +1532,7 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
+        n.crs = self.crs
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1575,7 +1576,6 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
@@ -1620,6 +1620,7 @@ class Network:
 
         # Setup new network
         n = self.__class__()
+        n.crs = self.crs
 
         n.add(
             "Bus",
-- 
2.43.0


From c0296aeb9973979d07f6569037ed0520c80e4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 22/47] fix: do not share metadata between a network and its
 selective copy

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 93148ce..4ce60a6 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1584,7 +1584,7 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
-- 
2.43.0


From 745a54da8811a931b91ebf386099096385fe15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 23/47] fix: drop multi-port links to unselected buses when
 slicing

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 4ce60a6..b086673 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1654,6 +1654,10 @@ class Network:
                     lambda df: df.bus0.isin(buses_i) & df.bus1.isin(buses_i)
                 ]
             )
+            # all further ports must be connected to selected buses too
+            for port in set(self.c[c].ports) - {"0", "1"}:
+                bus = static[f"bus{port}"]
+                static = static[bus.isin(buses_i) | (bus == "")]
             n.add(c, static.index, **static)
 
         n.set_snapshots(self.snapshots[time_i])
-- 
2.43.0


From 094b916455886c3ba6e2efce7db2b6ea47900712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 24/47] fix: import networks without a name from CSV

---
 pypsa/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b19f5b5..291ee1c 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -153,11 +153,13 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
 
-        dtypes = {"pypsa_version": str}
+        dtypes = {"pypsa_version": str, "name": str}
         return dict(
             pd.read_csv(
                 fn, encoding=self.encoding, dtype=dtypes, quotechar=self.quotechar
-            ).iloc[0]
+            )
+            .fillna({"name": ""})
+            .iloc[0]
         )
 
     def get_meta(self) -> dict:
-- 
2.43.0


From 6c12fb88232f1c2b091f2af43595de9159266e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 25/47] fix: keep names that look like numbers when importing
 from CSV

---
 pypsa/io.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 291ee1c..0509f7d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -198,13 +198,17 @@ class ImporterCSV(Importer):
 
     def get_static(self, list_name: str) -> pd.DataFrame:
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
-        return (
-            pd.read_csv(
-                fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar
-            )
-            if fn.is_file()
-            else None
-        )
+        if not fn.is_file():
+            return None
+        kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
+        columns = pd.read_csv(fn, nrows=0, **kwargs).columns
+        # names and bus references which look like numbers must stay strings
+        dtype = {
+            col: str
+            for i, col in enumerate(columns)
+            if i == 0 or col.startswith("bus")
+        }
+        return pd.read_csv(fn, index_col=0, dtype=dtype, **kwargs)
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
-- 
2.43.0


From 719fb04c6e5e59b4c30d002db7e6a0e2439912d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 26/47] fix: export default-valued time series which override
 static values

---
 pypsa/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0509f7d..a9e7c5d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -841,7 +841,12 @@ def _export_to_exporter(
                         (~pd.isnull(dynamic[attr])).any()
                     ]
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    not_default = (dynamic[attr] != default).any()
+                    if attr in n.static(component):
+                        # series overriding a non-default static value
+                        static_value = n.static(component)[attr]
+                        not_default |= static_value[dynamic[attr].columns] != default
+                    col_export = dynamic[attr].columns[not_default]
 
             if len(col_export) > 0:
                 static = dynamic[attr].reset_index()[col_export]
-- 
2.43.0


From e87404a47b38fb941b97d9dcb533a50ca6697ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 27/47] fix: keep inactive loads out of the bus injections
 after an optimisation

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..3c8ebc1 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -467,7 +467,8 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        p_set = get_as_dense(n, "Load", "p_set", sns)
+        set_from_frame(n, "Load", "p", p_set.mul(n.loads.active[p_set.columns]))
 
     # line losses
     if "Line-loss" in n.model.variables:
-- 
2.43.0


From 17ba8acc3d6c99630cf9c9edf209ebef32c09471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 28/47] fix: write losses of all passive branches, for the
 optimised snapshots only

---
 pypsa/optimization/optimize.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 3c8ebc1..c2dbe35 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -470,11 +470,12 @@ def post_processing(n: Network) -> None:
         p_set = get_as_dense(n, "Load", "p_set", sns)
         set_from_frame(n, "Load", "p", p_set.mul(n.loads.active[p_set.columns]))
 
-    # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    # branch losses, half at each end
+    for c in n.passive_branch_components:
+        if f"{c}-loss" in n.model.variables:
+            losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+            for attr in ["p0", "p1"]:
+                n.dynamic(c)[attr].loc[losses.index, losses.columns] += losses / 2
 
     # recalculate injection
     ca = [
-- 
2.43.0


From 929f38bf9e2d96535e917ed20983fbf7b2f1c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 29/47] fix: optimise networks in which all passive branches
 are inactive

---
 pypsa/optimization/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index c2dbe35..36b5b62 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -518,9 +518,10 @@ def post_processing(n: Network) -> None:
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
     if "obj" in n.sub_networks:
-        n.buses_t.v_ang = pd.concat(
-            [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
-        ).reindex(columns=n.buses.index, fill_value=0.0)
+        v_ang = [v_ang_for_(sub) for sub in n.sub_networks.obj]
+        # without any sub-network all buses are isolated
+        v_ang = pd.concat(v_ang or [pd.DataFrame(index=sns)], axis=1)
+        n.buses_t.v_ang = v_ang.reindex(columns=n.buses.index, fill_value=0.0)
 
 
 def optimize(
-- 
2.43.0


From 41438ab102e0d2113a1d94e935231a5153cfacba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 30/47] fix: optimise copies of networks with investment
 periods

---
 pypsa/networks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index b086673..5528739 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1513,7 +1513,14 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            return copy.deepcopy(self)
+            n = copy.deepcopy(self)
+            # deep copies of a pandas.MultiIndex lose its name
+            n._snapshots.name = self._snapshots.name
+            n._snapshot_weightings.index.name = self._snapshot_weightings.index.name
+            for c in self.all_components:
+                for k, df in self.dynamic(c).items():
+                    n.dynamic(c)[k].index.name = df.index.name
+            return n
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
-- 
2.43.0


From acb28a1510960b1250e1be12ae6257683541656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 31/47] fix: keep the investment period weightings in slices

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 5528739..c9d5ca6 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1686,6 +1686,10 @@ class Network:
             setattr(n, attr, getattr(self, attr))
 
         n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        weightings = self.investment_period_weightings
+        n._investment_period_weightings = weightings[
+            weightings.index.isin(n.investment_periods)
+        ].copy()
 
         return n
 
-- 
2.43.0


From 7558df65ccc3d4d2b5f841885fc5a6c1d02e3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 32/47] fix: weight operational expenditure with the objective
 weightings

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..07341ba 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            # costs enter the objective with the objective weightings
+            weights = n.snapshot_weightings.objective
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
-- 
2.43.0


From 0bc4047f460f63ae905c2c8a37628988df1ff10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 33/47] fix: weight arbitrary combinations of variables in MGA
 objectives

---
 pypsa/optimization/abstract.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..d7f5e54 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -622,13 +622,15 @@ def optimize_mga(
             if isinstance(coeffs, dict):
                 coeffs = pd.Series(coeffs)
             if attr == nominal_attrs[c] and isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(n.get_extendable_i(c))
+                coeffs = coeffs.reindex(n.get_extendable_i(c), fill_value=0)
                 coeffs.index.name = ""
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index, fill_value=0)
             elif isinstance(coeffs, pd.DataFrame):
-                coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+                coeffs = coeffs.reindex(
+                    columns=n.static(c).index, index=snapshots, fill_value=0
+                )
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0


From 7e1fe5c1e524a3d350f6c5ce290bc92b49c7d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 34/47] fix: accept component-wise branch outages in
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index d7f5e54..604082e 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -393,8 +393,9 @@ def optimize_security_constrained(
 
     if branch_outages is None:
         branch_outages = all_passive_branches
-    elif isinstance(branch_outages, (list | pd.Index)):
-        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
+    else:
+        if not isinstance(branch_outages, pd.MultiIndex):
+            branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
             raise ValueError(
-- 
2.43.0


From e7865aed11c6a1270f9b3a22f861322e8dbf3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 35/47] fix: leave inactive branches out of
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 604082e..3d12215 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -417,7 +417,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 968c619703cd27246585d9d8214aa75d4239ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 36/47] fix: security constraints of sub-networks without fixed
 or extendable branches

---
 pypsa/optimization/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 3d12215..8a31213 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -447,6 +447,8 @@ def optimize_security_constrained(
                 con = m.constraints[constraint]  # use this as a template
                 # idx now contains fixed/extendable for the sub-network
                 idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
+                if idx.empty:
+                    continue
                 sel = {coord: idx}
                 lhs = con.lhs.sel(sel) + added_flow.sel(sel)
                 name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-- 
2.43.0


From f8938a76980e45c037150bb18b8238ff73425af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 37/47] fix: include links in the operational expenditure

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 07341ba..6b4c601 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1158,7 +1158,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
                     cost = n.get_switchable_as_dense(c, cost_type)
-                    p = n.dynamic(c)[attr]
+                    p = n.dynamic(c)["p0" if c == "Link" else attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
                     opex = var * cost
                     term = self._aggregate_timeseries(opex, weights, agg=aggregate_time)
-- 
2.43.0


From 566c278a3c54c0aa3966113a21bd9f9ae85ef701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 38/47] fix: scale impedances with the initial capacity in the
 first iteration

---
 pypsa/optimization/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 8a31213..d46ee71 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -285,7 +285,8 @@ def optimize_transmission_expansion_iteratively(
             )
             break
 
-        s_nom_prev = n.lines.s_nom_opt.copy() if iteration else n.lines.s_nom.copy()
+        s_nom_prev = n.lines.s_nom_opt if iteration > 1 else n.lines.s_nom
+        s_nom_prev = s_nom_prev.copy()
         status, termination_condition = n.optimize(snapshots, **kwargs)  # type: ignore
         if status != "ok":
             msg = (
-- 
2.43.0


From a10e0183910fed1941cab70f2740684e6c99f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 39/47] fix: discretise only the branches that are expanded

---
 pypsa/optimization/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index d46ee71..2890ab9 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -242,8 +242,8 @@ def optimize_transmission_expansion_iteratively(
         line_threshold = line_threshold or 0.3
         link_threshold = link_threshold or {}
 
-        if line_unit_size:
-            n.lines["s_nom"] = n.lines.apply(
+        if line_unit_size and not ext_i.empty:
+            n.lines.loc[ext_i, "s_nom"] = n.lines.loc[ext_i].apply(
                 lambda row: discretized_capacity(
                     nom_opt=row["s_nom_opt"],
                     nom_max=row["s_nom_max"],
@@ -256,7 +256,9 @@ def optimize_transmission_expansion_iteratively(
 
         if link_unit_size:
             for carrier in link_unit_size.keys() & n.links.carrier.unique():
-                idx = n.links.carrier == carrier
+                idx = ext_links_to_fix_b & (n.links.carrier == carrier)
+                if not idx.any():
+                    continue
                 n.links.loc[idx, "p_nom"] = n.links.loc[idx].apply(
                     lambda row: discretized_capacity(
                         nom_opt=row["p_nom_opt"],
-- 
2.43.0


From 418043777cd65595db6be57ab6f3fa50f94de18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 40/47] fix: count no curtailment for inactive assets

---
 pypsa/statistics/expressions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 6b4c601..52041ae 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -20,7 +20,11 @@ from pypsa.common import (
     deprecated_kwargs,
     pass_empty_series_if_keyerror,
 )
-from pypsa.descriptors import bus_carrier_unit, nominal_attrs
+from pypsa.descriptors import (
+    bus_carrier_unit,
+    get_activity_mask,
+    nominal_attrs,
+)
 from pypsa.statistics.abstract import AbstractStatisticsAccessor
 
 if TYPE_CHECKING:
@@ -1842,7 +1846,9 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             p = (
-                n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt
+                n.get_switchable_as_dense(c, "p_max_pu")
+                * n.static(c).p_nom_opt
+                * get_activity_mask(n, c)
                 - n.dynamic(c).p
             ).clip(lower=0)
             weights = get_weightings(n, c)
-- 
2.43.0


From 9e098878460e0bd4d797b0c2c43c29af3ca0bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 41/47] fix: expanded capacity in investment periods without
 installed capacity

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 52041ae..0e9fc9c 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1033,7 +1033,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        installed = installed.reindex(optimal.index, fill_value=0)
+        installed = installed.reindex(optimal.index).fillna(0)
         df = optimal.sub(installed).where(optimal.abs() > installed.abs(), 0)
         df.attrs["name"] = "Expanded Capacity"
         df.attrs["unit"] = "MW"
-- 
2.43.0


From 36d1daebaa112fddd75db09cb5ab46fac0057458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 42/47] fix: clustered networks do not share the global
 constraints of the original

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..054348a 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -503,7 +503,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
-- 
2.43.0


From 01d38f35ef5ae47c4cfd5bd6345628338d8f25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 43/47] fix: clustering keeps only the time series of the
 components it keeps

---
 pypsa/clustering/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 054348a..c769b81 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -560,8 +560,10 @@ def get_clustering_from_busmap(
 
     if with_time:
         for c in n.iterate_components(one_port_components):
+            names = clustered.static(c.name).index
             for attr, df in c.dynamic.items():
                 if not df.empty:
+                    df = df[df.columns.intersection(names)]
                     io._import_series_from_df(clustered, df, c.name, attr)
 
     new_links = (
@@ -587,6 +589,7 @@ def get_clustering_from_busmap(
     if with_time:
         for attr, df in n.links_t.items():
             if not df.empty:
+                df = df[df.columns.intersection(new_links.index)]
                 io._import_series_from_df(clustered, df, "Link", attr)
 
     clustered.add("Carrier", n.carriers.index, **n.carriers)
-- 
2.43.0


From 9492d21e7158cb3aab4b68036701b38ef2f9c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 44/47] fix: clustering maps the additional ports of multi-port
 links to the clusters

---
 pypsa/clustering/spatial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c769b81..a176e35 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -18,6 +18,7 @@ from packaging.version import Version, parse
 from pandas import Series
 
 from pypsa import io
+from pypsa.descriptors import additional_linkports
 from pypsa.geo import haversine_pts
 
 if TYPE_CHECKING:
@@ -572,6 +573,11 @@ def get_clustering_from_busmap(
         .loc[lambda df: df.bus0 != df.bus1]
     )
 
+    # map the additional ports of multi-port links as well
+    for port in additional_linkports(n, new_links.columns):
+        bus = new_links[f"bus{port}"]
+        new_links[f"bus{port}"] = bus.map(busmap).fillna(bus)
+
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
         line_length_factor
-- 
2.43.0


From 54297f263d38ee6b99ed498ba0401efb1c6465d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 45/47] fix: common index level name in statistics of ungrouped
 assets

---
 pypsa/statistics/expressions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 0e9fc9c..aab294b 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -230,7 +230,11 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         first_key = next(iter(d))
         if is_one_component:
             return d[first_key]
-        index_names = [x.index.names for x in d.values()]
+        # Assets are listed under the common level name "name"
+        index_names = [
+            ["name"] if list(x.index.names) in ([c], [None]) else list(x.index.names)
+            for c, x in d.items()
+        ]
         # If index names are the same, use them
         if all(x == index_names[0] for x in index_names):
             col_names = ["component"] + index_names[0]
-- 
2.43.0


From a05235abe6bd9413e8610e6a61db11b77781d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 46/47] fix: ignore spill costs of storage units if there is no
 inflow to spill

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 36b5b62..254e55a 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -131,7 +131,8 @@ def define_objective(n: Network, sns: pd.Index) -> None:
                 .loc[:, lambda ds: (ds != 0).any()]
                 .mul(weighting, axis=0)
             )
-            if cost.empty:
+            # e.g. there is no spillage variable without inflow
+            if cost.empty or f"{c}-{attr}" not in m.variables:
                 continue
             operation = m[f"{c}-{attr}"].sel({"snapshot": sns, c: cost.columns})
             objective.append((operation * cost).sum())
-- 
2.43.0


From 16064a970a2521cd4a850168bceffa81839c1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 47/47] fix: start-up and shut-down costs which sum up to zero
 are part of the objective

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 254e55a..359e90d 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -197,7 +197,7 @@ def define_objective(n: Network, sns: pd.Index) -> None:
         com_i = n.get_committable_i(c)
         cost = n.static(c)[attr + "_cost"].reindex(com_i)
 
-        if cost.sum():
+        if (cost != 0).any():
             var = m[f"{c}-{attr}"]
             objective.append((var * cost).sum())
 
-- 
2.43.0

