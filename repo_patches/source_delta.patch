From 1966137a06e3550bc613db552ff7f2bf86daa5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 01/11] fix: keep the bounds of mutual exclusivity rows whose
 flow bounds are not constant

---
 pywr-core/src/solvers/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..56b30dc 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -500,13 +500,17 @@ where
                     self.builder.apply_row_bounds(row.row_id.to_usize().unwrap(), lb, ub);
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
+                    // The bounds of this row are fixed, but they have to be applied again after the reset
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                     // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
+                    // The bounds of this row are fixed, but they have to be applied again after the reset
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
                 }
             }
-- 
2.43.0


From a7118fb7e963be85bbe9c6959ccc50d54d00197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 02/11] fix: update aggregated node coefficient rows whose
 right-hand side is not constant

---
 pywr-core/src/aggregated_node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..63c34eb 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -1074,8 +1074,14 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
+    };
+
+    // The pair can only be treated as constant if the right-hand side is also constant.
+    let (f0, f1, rhs) = match rhs {
+        Some(rhs) => (f0, f1, rhs),
+        None => (None, None, 0.0),
     };
 
     Ok(vec![NodeConstFactorPair::new(
-- 
2.43.0


From c277e375496e04d681d19d2089169adb8fece204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 03/11] fix: reject negative non-constant ratio factors

---
 pywr-core/src/aggregated_node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 63c34eb..9a99853 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -911,6 +911,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1 < 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             Ok(NodeFactorPair::new(
                 NodeFactor::new(n0, 1.0),
-- 
2.43.0


From ebd0a36a29445c62b4178693907cea827887cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 04/11] fix: report invalid aggregated node factors instead of
 ignoring the constraint or panicking

---
 pywr-core/src/solvers/builder.rs | 22 +++++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 56b30dc..736f7fd 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -531,7 +531,13 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -665,7 +671,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -944,12 +950,18 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -998,7 +1010,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..c8f0893 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From 73ee1ab6d505f274097f8c6548f01c34c909e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 05/11] fix: update the coefficients of a storage node's
 outgoing edges with the opposite sign

---
 pywr-core/src/solvers/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 736f7fd..e1b5ed8 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -114,7 +114,7 @@ where
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.coefficients_to_update.push((row, column, -factor))
                 }
             }
         }
-- 
2.43.0


From d92eec98a6a0500ed3f828f0780645a818819cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 06/11] fix: apply the time and scenario aggregation functions
 of a memory output to the dimension they are given for

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From a265ca5d08a766151b2b1e4e7cedc54b931df7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 07/11] fix: look up scalar tables with three and four index
 rows or columns

---
 pywr-schema/src/data_tables/scalar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..e5a1a43 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
-- 
2.43.0


From 2b1b4e1d83f598067736766e4db565ffac9d71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:12 +0000
Subject: [PATCH 08/11] fix: LinkNode with both soft constraints limited all
 its flow to soft_max.flow

The limit belongs to the aggregated node of the link and its soft_min node, as documented; it was set on the one of all
three nodes, where it also replaced max_flow.
---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From 72ee76dcb9f7b9ffe6b4240c5eafc0963112428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:09 +0000
Subject: [PATCH 09/11] fix: RiverGaugeNode applied bypass_cost as the minimum
 flow of its mrf node

The cost is set on the bypass node.
---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 1696b8ef3c764e762742abd8b550150b494d164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:09 +0000
Subject: [PATCH 10/11] fix: the evaporation node of a reservoir was created as
 an input and its attribute depended on rainfall

A reservoir with evaporation could not be built, and without rainfall the attribute was always zero.
---
 pywr-schema/src/nodes/reservoir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..03a7da7 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
@@ -612,7 +612,7 @@ impl ReservoirNode {
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From 49341fda1cef329e52e174ca533744fe7d58a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:09 +0000
Subject: [PATCH 11/11] fix: the rainfall attribute of a reservoir reported the
 inflow of an input node, which is always zero

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 03a7da7..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -606,7 +606,7 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
-- 
2.43.0

