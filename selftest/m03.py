B="pywr-core/src/solvers/builder.rs"; I="pywr-core/src/solvers/ipm_simd/mod.rs"; NO="pywr-core/src/node.rs"; V="pywr-core/src/virtual_storage.rs"
M=[
("c03-avail-missing","C03",B,"(-avail / dt, missing / dt)","(-missing / dt, avail / dt)"),
("c03-active","C03",B,"if node.is_active(timestep) {","if !node.is_active(timestep) {"),
("c03-noreset","C03",B,"        self.builder.reset_row_bounds();\n","        if !timestep.is_first() { self.builder.reset_row_bounds(); }\n"),
("c03-reset-late","C03",B,"""        self.builder.reset_coefficients_to_update();
        // Then these methods will add their bounds
        self.update_node_constraint_bounds(network, timestep, state)?;
        self.update_aggregated_node_factor_constraints(network, state)?;""","""        // Then these methods will add their bounds
        self.update_node_constraint_bounds(network, timestep, state)?;
        self.builder.reset_coefficients_to_update();
        self.update_aggregated_node_factor_constraints(network, state)?;"""),
("c03-node1","C03",B,"""                                node1,
                                node_pair.node1_factor(),
                                &self.col_edge_map,
                            );
                        }

                        // Apply the bounds""","""                                node1,
                                node_pair.node0_factor(),
                                &self.col_edge_map,
                            );
                        }

                        // Apply the bounds"""),
("c03-simd-order","C03",I,"""                    self.lp.apply_row_bounds(*row_ids.next().unwrap(), missing.as_slice());

                    self.lp.apply_row_bounds(*row_ids.next().unwrap(), avail.as_slice());""","""                    self.lp.apply_row_bounds(*row_ids.next().unwrap(), avail.as_slice());

                    self.lp.apply_row_bounds(*row_ids.next().unwrap(), missing.as_slice());"""),
("c03-simd-obj","C03",I,"        self.lp.zero_obj_coefficients();","        if network.edges().len() > 3 { self.lp.zero_obj_coefficients(); }"),
("c03-cost-agg","C03",NO,"cost = cost.max(vs_cost?);","cost = vs_cost?.max(0.0);"),
("c03-halflink","C03",NO,"Self::Link(n) => Ok(n.get_cost(network, state)? / 2.0),","Self::Link(n) => Ok(n.get_cost(network, state)?),"),
("c03-vs-clamp","C03",V,"let available = (current_volume - min_vol).max(0.0);","let available = current_volume.max(min_vol);"),
("c03-skipedge","C03",B,"        for edge in network.edges() {\n            let obj_coef","        for edge in network.edges().iter().skip(1) {\n            let obj_coef"),
("c03-r-inline","-C03",B,"""            let (lb, ub) = if node.is_active(timestep) {
                let (avail, missing) = node.get_available_volume_bounds(state)?;
                (-avail / dt, missing / dt)
            } else {
                // Node is inactive, so set bounds to be unbounded
                (self.builder.f64_neg_max, self.builder.f64_max)
            };

            self.builder.apply_row_bounds(*row_id, lb, ub);""","""            if !node.is_active(timestep) {
                // Node is inactive, so set bounds to be unbounded
                let hi = self.builder.f64_max;
                self.builder.apply_row_bounds(*row_id, self.builder.f64_neg_max, hi);
                continue;
            }
            let b = node.get_available_volume_bounds(state)?;
            let ub = b.1 / dt;
            self.builder.apply_row_bounds(*row_id, -(b.0 / dt), ub);"""),
("c03-r-loop","-C03",NO,"""                    for vs_cost in vs_costs {
                        cost += vs_cost?;
                    }""","""                    cost = vs_costs.into_iter().try_fold(cost, |acc, c| c.map(|c| acc + c))?;"""),
("c03-r-apply","-C03",B,"""                // Apply the bounds""","""                // Apply bounds"""),
("c03-r-idx","-C03",B,"""        for (row_id, agg_node) in""","""        for (row_id, agg_node) in"""),
]
