# behaviour-preserving edits: solver builder, HiGHS, CSV recorder
B = "pywr-core/src/solvers/builder.rs"
H = "pywr-core/src/solvers/highs/mod.rs"
C = "pywr-core/src/recorders/csv.rs"
ALL = "-C02,C03,C28,C10,C31"
M = [
("r3-update-merge", ALL, B, """            NodeType::Link => {
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = col_edge_map.col_for_edge(edge);
                    self.coefficients_to_update.push((row, column, factor))
                }
            }
            NodeType::Input => {
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = col_edge_map.col_for_edge(edge);
                    self.coefficients_to_update.push((row, column, factor))
                }
            }""", """            NodeType::Link | NodeType::Input => {
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = col_edge_map.col_for_edge(edge);
                    self.coefficients_to_update.push((row, column, factor))
                }
            }"""),
("r3-addnode-helper", ALL, [(B, """            NodeType::Link => {
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = self.col_for_edge(edge);
                    row.add_element(column, factor);
                }
            }
            NodeType::Input => {
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = self.col_for_edge(edge);
                    row.add_element(column, factor);
                }
            }
            NodeType::Output => {
                for edge in node.get_incoming_edges().unwrap() {
                    let column = self.col_for_edge(edge);
                    row.add_element(column, factor);
                }
            }
            NodeType::Storage => {
                for edge in node.get_incoming_edges().unwrap() {
                    let column = self.col_for_edge(edge);
                    row.add_element(column, factor);
                }
                for edge in node.get_outgoing_edges().unwrap() {
                    let column = self.col_for_edge(edge);
                    row.add_element(column, -factor);
                }
            }
        }
    }""", """            NodeType::Link | NodeType::Input => self.add_edges(node.get_outgoing_edges().unwrap(), factor, row),
            NodeType::Output => self.add_edges(node.get_incoming_edges().unwrap(), factor, row),
            NodeType::Storage => {
                self.add_edges(node.get_incoming_edges().unwrap(), factor, row);
                self.add_edges(node.get_outgoing_edges().unwrap(), -factor, row);
            }
        }
    }

    fn add_edges(&self, edges: &[EdgeIndex], coef: f64, row: &mut RowBuilder<I>) {
        edges.iter().for_each(|e| row.add_element(self.col_for_edge(e), coef));
    }""")]),
("r3-reset-if", ALL, B, """            if mask == &I::one() {
                *lb = self.f64_neg_max;
                *ub = self.f64_max;
            }""", """            if mask != &I::one() {
                continue;
            }
            *ub = self.f64_max;
            *lb = self.f64_neg_max;"""),
("r3-reset-idx", ALL, B, """        for ((mask, lb), ub) in self
            .row_mask
            .iter()
            .zip(self.row_lower.iter_mut())
            .zip(self.row_upper.iter_mut())
        {
            if mask == &I::one() {
                *lb = self.f64_neg_max;
                *ub = self.f64_max;
            }
        }""", """        for row in 0..self.row_mask.len() {
            if self.row_mask[row] == I::one() {
                self.row_lower[row] = self.f64_neg_max;
                self.row_upper[row] = self.f64_max;
            }
        }"""),
("r3-apply-if", ALL, B, """        self.row_lower[row] = self.row_lower[row].max(lb);
        self.row_upper[row] = self.row_upper[row].min(ub);""", """        let lower = &mut self.row_lower[row];
        *lower = lower.max(lb);
        let upper = &mut self.row_upper[row];
        *upper = upper.min(ub);"""),
("r3-vs-helper", ALL, B, """            let (lb, ub) = if node.is_active(timestep) {
                let (avail, missing) = node.get_available_volume_bounds(state)?;
                (-avail / dt, missing / dt)
            } else {
                // Node is inactive, so set bounds to be unbounded
                (self.builder.f64_neg_max, self.builder.f64_max)
            };

            self.builder.apply_row_bounds(*row_id, lb, ub);""", """            let mut lb = self.builder.f64_neg_max;
            let mut ub = self.builder.f64_max;
            if node.is_active(timestep) {
                let bounds = node.get_available_volume_bounds(state)?;
                lb = -bounds.0 / dt;
                ub = bounds.1 / dt;
            }
            self.builder.apply_row_bounds(*row_id, lb, ub);"""),
("r3-node-bounds-early", ALL, B, """            match row.row_type {
                NodeRowType::Continuous => {
                    // Regular node constraint
                    self.builder.apply_row_bounds(row.row_id.to_usize().unwrap(), lb, ub);
                }
                NodeRowType::BinaryUpperBound { bin_col_id } => {
                    // The bounds of this row are fixed, but they have to be applied again after the reset
                    self.builder
                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, self.builder.f64_max);
                    // Update""", """            let row_id = row.row_id.to_usize().unwrap();
            match row.row_type {
                NodeRowType::Continuous => {
                    // Regular node constraint
                    self.builder.apply_row_bounds(row_id, lb, ub);
                }
                NodeRowType::BinaryUpperBound { bin_col_id } => {
                    let unbounded = self.builder.f64_max;
                    self.builder.apply_row_bounds(row_id, 0.0, unbounded);
                    // Update"""),
("r3-agg-continue", ALL, B, """                    if let Some(row_idx) = row_idx {
                        // Modify the constraint matrix coefficients for the nodes
                        // TODO error handling?
                        let nodes = network.nodes();
                        for node0_idx in node_pair.node0_indices() {
                            let node0 = nodes.get(**node0_idx).expect("Node index not found!");
                            self.builder.update_row_coefficients(
                                *row_idx,
                                node0,
                                node_pair.node0_factor(),
                                &self.col_edge_map,
                            );
                        }

                        for node1_idx in node_pair.node1_indices() {
                            let node1 = nodes.get(**node1_idx).expect("Node index not found!");
                            self.builder.update_row_coefficients(
                                *row_idx,
                                node1,
                                node_pair.node1_factor(),
                                &self.col_edge_map,
                            );
                        }

                        // Apply the bounds to the row
                        self.builder
                            .apply_row_bounds(row_idx.to_usize().unwrap(), node_pair.rhs(), node_pair.rhs());
                    }""", """                    let Some(row_idx) = row_idx else { continue };
                    let nodes = network.nodes();
                    let sides = [
                        (node_pair.node0_indices(), node_pair.node0_factor()),
                        (node_pair.node1_indices(), node_pair.node1_factor()),
                    ];
                    for (indices, factor) in sides {
                        for node_idx in indices {
                            let node = nodes.get(**node_idx).expect("Node index not found!");
                            self.builder
                                .update_row_coefficients(*row_idx, node, factor, &self.col_edge_map);
                        }
                    }
                    let rhs = node_pair.rhs();
                    self.builder.apply_row_bounds(row_idx.to_usize().unwrap(), rhs, rhs);"""),
("r3-agg-swap-sides", ALL, B, """                        for node1_idx in node_pair.node1_indices() {
                            let node1 = nodes.get(**node1_idx).expect("Node index not found!");
                            self.builder.update_row_coefficients(
                                *row_idx,
                                node1,
                                node_pair.node1_factor(),
                                &self.col_edge_map,
                            );
                        }
""", """                        let f1 = node_pair.node1_factor();
                        node_pair.node1_indices().iter().for_each(|i| {
                            let n = nodes.get(**i).expect("Node index not found!");
                            self.builder.update_row_coefficients(*row_idx, n, f1, &self.col_edge_map);
                        });
"""),
("r3-columns-flag", ALL, B, """            if let NodeType::Link = from_node.node_type() {
                // We only look at link nodes; there should be no output nodes as a
                // "from_node" and input nodes will have no upstream edges
                let incoming_edges = from_node.get_incoming_edges()?;
                // NB `edge` should be one of these outgoing edges
                let outgoing_edges = from_node.get_outgoing_edges()?;
                assert!(outgoing_edges.contains(&edge_index));
                if (incoming_edges.len() == 1) && (outgoing_edges.len() == 1) {
                    // Because of the mass-balance constraint these two edges must be equal to
                    // one another.
                    self.col_edge_map.add_equal_edges(edge_index, incoming_edges[0]);
                } else {
                    // Otherwise this edge has a more complex relationship with its upstream
                    self.col_edge_map.add_simple_edge(edge_index);
                }
            } else {
                // Other upstream node types mean the edge is added normally
                self.col_edge_map.add_simple_edge(edge_index);
            }""", """            let mut equal_to = None;
            if matches!(from_node.node_type(), NodeType::Link) {
                let outgoing_edges = from_node.get_outgoing_edges()?;
                let incoming_edges = from_node.get_incoming_edges()?;
                assert!(outgoing_edges.contains(&edge_index));
                if outgoing_edges.len() == 1 && incoming_edges.len() == 1 {
                    equal_to = Some(incoming_edges[0]);
                }
            }
            match equal_to {
                Some(other) => self.col_edge_map.add_equal_edges(edge_index, other),
                None => self.col_edge_map.add_simple_edge(edge_index),
            }"""),
("r3-mass-balance-match", ALL, B, """                if row.columns.is_empty() {
                    panic!("Row contains no columns!")
                } else if row.columns.len() == 1 {
                    // Skip this row because the edges must be mapped to the same column
                } else {
                    row.set_upper(0.0);
                    row.set_lower(0.0);

                    self.builder.add_fixed_row(row);
                }""", """                match row.columns.len() {
                    0 => panic!("Row contains no columns!"),
                    1 => {}
                    _ => {
                        row.set_lower(0.0);
                        row.set_upper(0.0);
                        self.builder.add_fixed_row(row);
                    }
                }"""),
("r3-mass-balance-continue", ALL, B, """            if let NodeType::Link = node.node_type() {
                let mut row: RowBuilder<I> = RowBuilder::default();

                let incoming""", """            if !matches!(node.node_type(), NodeType::Link) {
                continue;
            }
            {
                let mut row: RowBuilder<I> = RowBuilder::default();

                let incoming"""),
("r3-nodecon-isfixed", ALL, B, """                let mut is_fixed = false;

                // Apply the bounds if they are constant; otherwise the bounds are updated later
                if let Some(bounds) = bounds {
                    row.set_lower(bounds.min_flow);
                    row.set_upper(bounds.max_flow);
                    is_fixed = true;
                }

                if is_fixed {
                    self.builder.add_fixed_row(row);
                } else {
                    let row_id = self.builder.add_variable_row(row);

                    row_ids.push(NodeRowId {
                        row_id,
                        node_idx: node.index(),
                        row_type: NodeRowType::Continuous,
                    });
                }""", """                match bounds {
                    Some(fb) => {
                        row.set_upper(fb.max_flow);
                        row.set_lower(fb.min_flow);
                        self.builder.add_fixed_row(row);
                    }
                    None => row_ids.push(NodeRowId {
                        row_id: self.builder.add_variable_row(row),
                        node_idx: node.index(),
                        row_type: NodeRowType::Continuous,
                    }),
                }"""),
("r3-nodecon-skip", ALL, B, """                    match bounds {
                        Some(bounds) => {
                            // If the bounds are constant""", """                    let node_idx = node.index();
                    tracing::trace!("adding rows for {:?}", node_idx);
                    match bounds {
                        Some(bounds) => {
                            // If the bounds are constant"""),
("r3-aggrow-match", ALL, B, """                    // Row is fixed if we can compute the ratio now
                    if f0.is_some() && f1.is_some() {
                        self.builder.add_fixed_row(row);
                        row_indices_for_agg_node.push(None)
                    } else {
                        // These rows will be updated with the correct ratio later
                        let row_idx = self.builder.add_variable_row(row);
                        row_indices_for_agg_node.push(Some(row_idx));
                    }""", """                    let row_idx = match (f0, f1) {
                        (Some(_), Some(_)) => {
                            self.builder.add_fixed_row(row);
                            None
                        }
                        _ => Some(self.builder.add_variable_row(row)),
                    };
                    row_indices_for_agg_node.push(row_idx);"""),
("r3-aggrow-neg", ALL, B, """                    if f0.is_some() && f1.is_some() {
                        self.builder.add_fixed_row(row);
                        row_indices_for_agg_node.push(None)
                    } else {
                        // These rows will be updated with the correct ratio later
                        let row_idx = self.builder.add_variable_row(row);
                        row_indices_for_agg_node.push(Some(row_idx));
                    }""", """                    let dynamic = f0.is_none() || f1.is_none();
                    if dynamic {
                        let row_idx = self.builder.add_variable_row(row);
                        row_indices_for_agg_node.push(Some(row_idx));
                    } else {
                        self.builder.add_fixed_row(row);
                        row_indices_for_agg_node.push(None);
                    }"""),
("r3-vsrow-map", ALL, B, """            let row_id = self.builder.add_variable_row(row);
            row_ids.push(row_id.to_usize().unwrap());
        }
        row_ids""", """            row_ids.push(self.builder.add_variable_row(row).to_usize().unwrap());
        }
        row_ids"""),
("r3-aggcon-flat", ALL, B, """            for node_indices in agg_node.iter_nodes() {
                // TODO error handling?
                for node_idx in node_indices {
                    let node = network.nodes().get(**node_idx).expect("Node index not found!");
                    self.add_node(node, 1.0, &mut row);
                }
            }""", """            for node_idx in agg_node.iter_nodes().flatten() {
                let node = network.nodes().get(**node_idx).expect("Node index not found!");
                self.add_node(node, 1.0, &mut row);
            }"""),
("r3-mutex-order", ALL, B, """                row.set_upper(exclusivity.max_active() as f64);
                row.set_lower(exclusivity.min_active() as f64);

                self.builder.add_fixed_row(row);""", """                let (lower, upper) = (exclusivity.min_active() as f64, exclusivity.max_active() as f64);
                row.set_lower(lower);
                row.set_upper(upper);
                self.builder.add_fixed_row(row);"""),
("r3-update-order", ALL, B, """        self.update_node_constraint_bounds(network, timestep, state)?;
        self.update_aggregated_node_factor_constraints(network, state)?;
        self.update_aggregated_node_constraint_bounds(network, state)?;
        self.update_virtual_storage_node_constraint_bounds(network, timestep, state)?;""", """        self.update_virtual_storage_node_constraint_bounds(network, timestep, state)?;
        self.update_aggregated_node_constraint_bounds(network, state)?;
        self.update_node_constraint_bounds(network, timestep, state)?;
        self.update_aggregated_node_factor_constraints(network, state)?;"""),
("r3-edgeobj-let", ALL, B, """            let col = self.col_for_edge(&edge.index());

            self.builder.add_obj_coefficient(col.to_usize().unwrap(), obj_coef);""", """            let index = edge.index();
            let column = self.col_for_edge(&index).to_usize().unwrap();
            self.builder.add_obj_coefficient(column, obj_coef);"""),
("r3-highs-retry", ALL, H, """        if let Err(e) = self.highs.run() {
            let result = if let HighsModelError::Unknown = e {
                // An unknown error occurred, try a resolve after clearing solve information
                // See https://github.com/ERGO-Code/HiGHS/issues/1607
                self.highs.clear_solver()?;
                self.highs.run()
            } else {
                Err(e)
            };

            if let Err(e) = result {
                self.highs.write_model("pywr_lp.mps")?;

                return Err(SolverSolveError::HighsModelError(e));
            }
        }""", """        let mut result = self.highs.run();
        if matches!(result, Err(HighsModelError::Unknown)) {
            self.highs.clear_solver()?;
            result = self.highs.run();
        }
        if let Err(e) = result {
            self.highs.write_model("pywr_lp.mps")?;
            return Err(SolverSolveError::HighsModelError(e));
        }"""),
("r3-highs-inline", ALL, H, """            let col = self.builder.col_for_edge(&edge.index()) as usize;
            let flow = solution[col];
            network_state.add_flow(edge, timestep, flow)?;""", """            let edge_index = edge.index();
            network_state.add_flow(edge, timestep, solution[self.builder.col_for_edge(&edge_index) as usize])?;"""),
("r3-highs-tryforeach", ALL, H, """        for edge in network.edges() {
            let col = self.builder.col_for_edge(&edge.index()) as usize;
            let flow = solution[col];
            network_state.add_flow(edge, timestep, flow)?;
        }""", """        let builder = &self.builder;
        network.edges().iter().try_for_each(|edge| {
            let col = builder.col_for_edge(&edge.index()) as usize;
            network_state.add_flow(edge, timestep, solution[col])
        })?;"""),
("r3-highs-helper", ALL, [(H, """        // Reset the network state from the results
        let network_state = state.get_mut_network_state();
        network_state.reset();
        let start_save_solution = Instant::now();

        for edge in network.edges() {
            let col = self.builder.col_for_edge(&edge.index()) as usize;
            let flow = solution[col];
            network_state.add_flow(edge, timestep, flow)?;
        }
        state.complete(network, timestep)?;
        timings.save_solution += start_save_solution.elapsed();
""", """        let start_save_solution = Instant::now();
        self.save_solution(network, timestep, state, &solution)?;
        timings.save_solution += start_save_solution.elapsed();
"""), (H, """pub struct HighsSolver {
    builder: BuiltSolver<HighsInt>,
    highs: Highs,
}
""", """pub struct HighsSolver {
    builder: BuiltSolver<HighsInt>,
    highs: Highs,
}

impl HighsSolver {
    fn save_solution(
        &self,
        network: &Network,
        timestep: &Timestep,
        state: &mut State,
        solution: &[f64],
    ) -> Result<(), SolverSolveError> {
        let network_state = state.get_mut_network_state();
        network_state.reset();
        for edge in network.edges() {
            let col = self.builder.col_for_edge(&edge.index()) as usize;
            network_state.add_flow(edge, timestep, solution[col])?;
        }
        state.complete(network, timestep)?;
        Ok(())
    }
}
""")]),
("r3-highs-status-match", ALL, H, """        to_highs_result(ret, "run").map_err(|_| HighsModelError::Unknown)?;
""", """        if to_highs_result(ret, "run").is_err() {
            return Err(HighsModelError::Unknown);
        }
"""),
("r3-highs-ctype", ALL, H, """            let ctype_int: HighsInt = match ctype {
                ColType::Continuous => kHighsVarTypeContinuous,
                ColType::Integer => kHighsVarTypeInteger,
            };

            let ret = unsafe { Highs_changeColIntegrality(self.ptr, i as HighsInt, ctype_int) };""", """            let ret = unsafe {
                let kind = if let ColType::Integer = ctype { kHighsVarTypeInteger } else { kHighsVarTypeContinuous };
                Highs_changeColIntegrality(self.ptr, i as HighsInt, kind)
            };"""),
("r3-highs-toresult", ALL, H, """        r if r == kHighsStatusOk => Ok(()),
        r if r == kHighsStatusWarning => {""", """        r if r == kHighsStatusOk => {
            tracing::trace!("Highs {function} ok");
            Ok(())
        }
        r if r == kHighsStatusWarning => {"""),
("r3-csv-loop", ALL, C, """                let values = current_values
                    .iter()
                    .map(|v| format!("{:.2}", v.value))
                    .collect::<Vec<_>>();

                // If the row is empty, add the start time
                if row.is_empty() {
                    row.push(current_values.first().unwrap().start.to_string())
                }

                row.extend(values);""", """                // If the row is empty, add the start time
                if row.is_empty() {
                    row.push(current_values.first().unwrap().start.to_string())
                }

                for v in current_values.iter() {
                    row.push(format!("{:.2}", v.value));
                }"""),
("r3-csv-names", ALL, C, """        for metric in metric_set.iter_metrics() {
            let name = metric.name().to_string();
            let attribute = metric.attribute().to_string();

            // Add entries for each scenario
            names.push(name);
            attributes.push(attribute);
        }
""", """        for metric in metric_set.iter_metrics() {
            attributes.push(metric.attribute().to_string());
            names.push(metric.name().to_string());
        }
"""),
("r3-csv-names2", ALL, [(C, """        for metric in metric_set.iter_metrics() {
            let name = metric.name().to_string();
            let attribute = metric.attribute().to_string();

            // Add entries for each scenario
            names.push(name);
            attributes.push(attribute);
        }
""", """        let names: Vec<String> = metric_set.iter_metrics().map(|m| m.name().to_string()).collect();
        let attributes: Vec<String> = metric_set.iter_metrics().map(|m| m.attribute().to_string()).collect();
"""), (C, """        let mut names = vec![];
        let mut attributes = vec![];

""", "")]),
("r3-csv-error-helper", ALL, [(C, """        writer.write_record(header_name).map_err(|source| CsvError::CSVError {
            path: self.filename.clone(),
            source,
        })?;

        writer
            .write_record(header_attribute)
            .map_err(|source| CsvError::CSVError {
                path: self.filename.clone(),
                source,
            })?;
        writer
            .write_record(header_scenario)
            .map_err(|source| CsvError::CSVError {
                path: self.filename.clone(),
                source,
            })?;
        writer.write_record(header_label).map_err(|source| CsvError::CSVError {
            path: self.filename.clone(),
            source,
        })?;""", """        for header in [header_name, header_attribute, header_scenario, header_label] {
            writer.write_record(header).map_err(|source| CsvError::CSVError {
                path: self.filename.clone(),
                source,
            })?;
        }""")]),
("r3-csv-scaled", ALL, C, """                        let value_scaled = if let Some(decimal_places) = self.decimal_places {
                            let scale = 10.0_f64.powi(decimal_places.get() as i32);
                            (value.value * scale).round() / scale
                        } else {
                            value.value
                        };
""", """                        let value_scaled = match self.decimal_places {
                            None => value.value,
                            Some(dp) => {
                                let scale = 10.0_f64.powi(dp.get() as i32);
                                (scale * value.value).round() / scale
                            }
                        };
"""),
("r3-csv-scaled2", ALL, C, """                        let value_scaled = if let Some(decimal_places) = self.decimal_places {
                            let scale = 10.0_f64.powi(decimal_places.get() as i32);
                            (value.value * scale).round() / scale
                        } else {
                            value.value
                        };
""", """                        let value_scaled = self.decimal_places.map_or(value.value, |dp| {
                            let scale = 10.0_f64.powi(dp.get() as i32);
                            (value.value * scale).round() / scale
                        });
"""),
("r3-csv-letelse", ALL, C, """                if let Some(current_values) = metric_set_state.current_values() {
                    let metric_set = network
                        .get_metric_set(*metric_set_idx)
                        .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;

                    for""", """                let Some(current_values) = metric_set_state.current_values() else {
                    continue;
                };
                {
                    let metric_set = network
                        .get_metric_set(*metric_set_idx)
                        .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;

                    for"""),
("r3-csv-record-direct", ALL, C, """                        let record = CsvLongFmtRecord {
                            time_start: value.start,
                            time_end: value.end(),
                            simulation_id: scenario_index.simulation_id(),
                            label: scenario_index.label(),
                            metric_set: metric_set.name().to_string(),
                            name,
                            attribute,
                            value: value_scaled,
                        };

                        internal""", """                        let (time_start, time_end) = (value.start, value.end());
                        let record = CsvLongFmtRecord {
                            value: value_scaled,
                            metric_set: metric_set.name().to_owned(),
                            name,
                            attribute,
                            simulation_id: scenario_index.simulation_id(),
                            label: scenario_index.label(),
                            time_start,
                            time_end,
                        };

                        internal"""),
("r3-csv-save-ret", ALL, C, """        self.write_values(metric_set_states, internal)?;

        Ok(())
    }
""", """        Ok(self.write_values(metric_set_states, internal)?)
    }
"""),
("r3-csv-len", ALL, C, """        if row.len() > 1 {
            internal""", """        let has_values = row.len() >= 2;
        if has_values {
            internal"""),
]
