## Lp<I>::update_row_coefficients
push(self.coefficients_to_update, (p1, col_for_edge(p4, elem(get_incoming_edges(p2))), p3))
    node_type(p2) is Output|Storage
push(self.coefficients_to_update, (p1, col_for_edge(p4, elem(get_outgoing_edges(p2))), -p3))
    node_type(p2) is Storage
push(self.coefficients_to_update, (p1, col_for_edge(p4, elem(get_outgoing_edges(p2))), p3))
    node_type(p2) is Input|Link
## LpBuilder<I>::add_column
push(self.col_lower, p2~Double.0)
    p2 is Double
push(self.col_lower, p2~Lower.0)
    p2 is Lower
push(self.col_obj_coef, p1)
push(self.col_type, p3)
push(self.col_upper, p2~Double.1)
    p2 is Double
push(self.col_upper, self.f64_max)
    p2 is Lower
return from((len(self.col_lower) -1))
## LpBuilder<I>::add_variable_row
leave loop early()
    Eq(elem(self.rows), p1)
push(self.rows, p1)
    !Eq(elem(self.rows), p1)
return from(idx(self.rows))
    Eq(elem(self.rows), p1)
return from(len(self.rows))
    !Eq(elem(self.rows), p1)
## LpBuilder<I>::build
push(list(zero()), (from(len(elem(self.fixed_rows).columns)) +list(zero())[(len(list(zero())) -1)]))
push(list(zero()), (from(len(elem(self.rows).columns)) +list(zero())[(len(list(zero())) -1)]))
return Lp{}
return.coefficients_to_update new()
return.col_lower self.col_lower
return.col_obj_coef self.col_obj_coef
return.col_type self.col_type
return.col_upper self.col_upper
return.columns list
return.columns[] elem(elem(self.fixed_rows).columns).0
return.columns[] elem(elem(self.rows).columns).0
return.elements list
return.elements[] elem(elem(self.fixed_rows).columns).1
return.elements[] elem(elem(self.rows).columns).1
return.f64_max self.f64_max
return.f64_neg_max self.f64_neg_max
return.row_lower list
return.row_lower[] elem(self.fixed_rows).lower
return.row_lower[] elem(self.rows).lower
return.row_mask list
return.row_mask[] one()
    for each(self.rows)
return.row_mask[] zero()
    for each(self.fixed_rows)
return.row_starts list
return.row_starts[] zero()
return.row_upper list
return.row_upper[] elem(self.fixed_rows).upper
    elem(self.fixed_rows).upper is Some
return.row_upper[] elem(self.rows).upper
    elem(self.rows).upper is Some
return.row_upper[] self.f64_max
    elem(self.fixed_rows).upper is None; for each(self.fixed_rows)
    elem(self.rows).upper is None; for each(self.rows)
## <RowBuilder<I> as Default>::default
return RowBuilder{}
return.columns new()
return.lower 0
return.upper none
## RowBuilder<I>::set_upper
self.upper := p1
## RowBuilder<I>::set_lower
self.lower := p1
## RowBuilder<I>::add_element
entry(self.columns, p1)
## BuiltSolver<I>::num_cols
return from(len(self.builder.col_upper))
## BuiltSolver<I>::num_rows
return from(len(self.builder.row_upper))
## BuiltSolver<I>::num_non_zero
return from(len(self.builder.elements))
## BuiltSolver<I>::col_lower
return self.builder.col_lower
## BuiltSolver<I>::col_upper
return self.builder.col_upper
## BuiltSolver<I>::col_obj_coef
return self.builder.col_obj_coef
## BuiltSolver<I>::col_type
return self.builder.col_type
## BuiltSolver<I>::row_lower
return self.builder.row_lower
## BuiltSolver<I>::row_upper
return self.builder.row_upper
## BuiltSolver<I>::row_mask
return self.builder.row_mask
## BuiltSolver<I>::row_starts
return self.builder.row_starts
## BuiltSolver<I>::columns
return self.builder.columns
## BuiltSolver<I>::elements
return self.builder.elements
## BuiltSolver<I>::col_for_edge
return col_for_edge(self.col_edge_map, p1)
## BuiltSolver<I>::coefficients_to_update
return self.builder.coefficients_to_update
## BuiltSolver<I>::apply_updated_coefficients
[accepts]
    Eq(elem(self.builder.coefficients_to_update).1, elem(self.builder.columns[Range{end: self.builder.row_starts[(elem(self.builder.coefficients_to_update).0 +1)], start: self.builder.row_starts[elem(self.builder.coefficients_to_update).0]}]))
[success]
    Eq(elem(self.builder.coefficients_to_update).1, elem(self.builder.columns[Range{end: self.builder.row_starts[(elem(self.builder.coefficients_to_update).0 +1)], start: self.builder.row_starts[elem(self.builder.coefficients_to_update).0]}]))
drain(self.builder.coefficients_to_update, RangeFull)
leave loop early()
self.builder.elements[(idx(self.builder.columns[Range{end: self.builder.row_starts[(elem(self.builder.coefficients_to_update).0 +1)], start: self.builder.row_starts[elem(self.builder.coefficients_to_update).0]}]) +self.builder.row_starts[elem(self.builder.coefficients_to_update).0])] := elem(self.builder.coefficients_to_update).2
## BuiltSolver<I>::update
clear(self.builder.coefficients_to_update)
elem(self.builder.col_obj_coef) := 0
elem(self.builder.row_lower) := self.builder.f64_neg_max
    Eq(elem(self.builder.row_mask), one())
elem(self.builder.row_upper) := self.builder.f64_max
    Eq(elem(self.builder.row_mask), one())
self.builder.col_obj_coef[col_for_edge(self, elem(net.edges).index)] := (get_incoming_cost(net.nodes[elem(net.edges).to_node_index.0], net, state) +get_outgoing_cost(net.nodes[elem(net.edges).from_node_index.0], net, state))
self.builder.row_lower[elem(self.agg_node_constraint_row_ids)] := max(elem(self.builder.row_lower), get_flow_bounds(elem(net.aggregated_nodes), net, state).0)
self.builder.row_lower[elem(self.agg_node_constraint_row_ids)] := max(get_flow_bounds(elem(net.aggregated_nodes), net, state).0, self.builder.f64_neg_max)
self.builder.row_upper[elem(self.agg_node_constraint_row_ids)] := min(elem(self.builder.row_upper), get_flow_bounds(elem(net.aggregated_nodes), net, state).1)
self.builder.row_upper[elem(self.agg_node_constraint_row_ids)] := min(get_flow_bounds(elem(net.aggregated_nodes), net, state).1, self.builder.f64_max)
timings.update_constraints := (elapsed(now()) +timings.update_constraints)
timings.update_objective := (elapsed(now()) +timings.update_objective)
update_aggregated_node_factor_constraints(self, net, state)
update_node_constraint_bounds(self, net, ts, state)
update_virtual_storage_node_constraint_bounds(self, net, ts, state)
## BuiltSolver<I>::update_node_constraint_bounds
push(self.builder.coefficients_to_update, (elem(self.node_constraints_row_ids).row_id, elem(self.node_constraints_row_ids).row_type~BinaryLowerBound.bin_col_id, -get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Flow.0.min_flow))
    elem(self.node_constraints_row_ids).row_type is BinaryLowerBound; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Flow
push(self.builder.coefficients_to_update, (elem(self.node_constraints_row_ids).row_id, elem(self.node_constraints_row_ids).row_type~BinaryLowerBound.bin_col_id, 86400*get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Volume.0.available/as_secs_f64(ts.duration.0)))
    elem(self.node_constraints_row_ids).row_type is BinaryLowerBound; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Volume
push(self.builder.coefficients_to_update, (elem(self.node_constraints_row_ids).row_id, elem(self.node_constraints_row_ids).row_type~BinaryUpperBound.bin_col_id, 86400*get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Volume.0.missing/as_secs_f64(ts.duration.0)))
    elem(self.node_constraints_row_ids).row_type is BinaryUpperBound; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Volume
push(self.builder.coefficients_to_update, (elem(self.node_constraints_row_ids).row_id, elem(self.node_constraints_row_ids).row_type~BinaryUpperBound.bin_col_id, get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Flow.0.max_flow))
    elem(self.node_constraints_row_ids).row_type is BinaryUpperBound; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Flow
self.builder.row_lower[elem(self.node_constraints_row_ids).row_id] := max(-86400*get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Volume.0.available/as_secs_f64(ts.duration.0), self.builder.row_lower[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is Continuous; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Volume
self.builder.row_lower[elem(self.node_constraints_row_ids).row_id] := max(0, self.builder.row_lower[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is BinaryLowerBound|BinaryUpperBound
self.builder.row_lower[elem(self.node_constraints_row_ids).row_id] := max(get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Flow.0.min_flow, self.builder.row_lower[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is Continuous; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Flow
self.builder.row_upper[elem(self.node_constraints_row_ids).row_id] := min(86400*get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Volume.0.missing/as_secs_f64(ts.duration.0), self.builder.row_upper[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is Continuous; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Volume
self.builder.row_upper[elem(self.node_constraints_row_ids).row_id] := min(get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state)~Flow.0.max_flow, self.builder.row_upper[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is Continuous; get_bounds(net.nodes[elem(self.node_constraints_row_ids).node_idx.0], net, state) is Flow
self.builder.row_upper[elem(self.node_constraints_row_ids).row_id] := min(self.builder.f64_max, self.builder.row_upper[elem(self.node_constraints_row_ids).row_id])
    elem(self.node_constraints_row_ids).row_type is BinaryLowerBound|BinaryUpperBound
## BuiltSolver<I>::update_aggregated_node_factor_constraints
self.builder.row_lower[elem(elem(self.agg_node_factor_constraint_row_ids).row_indices)] := max(elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).rhs, self.builder.row_lower[elem(elem(self.agg_node_factor_constraint_row_ids).row_indices)])
    elem(elem(self.agg_node_factor_constraint_row_ids).row_indices) is Some
self.builder.row_upper[elem(elem(self.agg_node_factor_constraint_row_ids).row_indices)] := min(elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).rhs, self.builder.row_upper[elem(elem(self.agg_node_factor_constraint_row_ids).row_indices)])
    elem(elem(self.agg_node_factor_constraint_row_ids).row_indices) is Some
update_row_coefficients(self.builder, elem(elem(self.agg_node_factor_constraint_row_ids).row_indices), net.nodes[elem(elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).node0.indices).0], elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).node0.factor, self.col_edge_map)
    elem(elem(self.agg_node_factor_constraint_row_ids).row_indices) is Some
update_row_coefficients(self.builder, elem(elem(self.agg_node_factor_constraint_row_ids).row_indices), net.nodes[elem(elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).node1.indices).0], elem(get_norm_factor_pairs(net.aggregated_nodes[elem(self.agg_node_factor_constraint_row_ids).agg_node_idx.0], net, state)).node1.factor, self.col_edge_map)
    elem(elem(self.agg_node_factor_constraint_row_ids).row_indices) is Some
## BuiltSolver<I>::update_virtual_storage_node_constraint_bounds
self.builder.row_lower[elem(self.virtual_storage_constraint_row_ids)] := max(-86400*get_available_volume_bounds(elem(net.virtual_storage_nodes), state).0/as_secs_f64(ts.duration.0), self.builder.row_lower[elem(self.virtual_storage_constraint_row_ids)])
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
self.builder.row_lower[elem(self.virtual_storage_constraint_row_ids)] := max(self.builder.f64_neg_max, self.builder.row_lower[elem(self.virtual_storage_constraint_row_ids)])
    !is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
self.builder.row_upper[elem(self.virtual_storage_constraint_row_ids)] := min(86400*get_available_volume_bounds(elem(net.virtual_storage_nodes), state).1/as_secs_f64(ts.duration.0), self.builder.row_upper[elem(self.virtual_storage_constraint_row_ids)])
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
self.builder.row_upper[elem(self.virtual_storage_constraint_row_ids)] := min(self.builder.f64_max, self.builder.row_upper[elem(self.virtual_storage_constraint_row_ids)])
    !is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
## SolverBuilder<I>::new
return SolverBuilder{}
return.builder LpBuilder{}
return.builder.col_lower new()
return.builder.col_obj_coef new()
return.builder.col_type new()
return.builder.col_upper new()
return.builder.f64_max p0
return.builder.f64_neg_max p1
return.builder.fixed_rows new()
return.builder.rows new()
return.col_edge_map ColumnEdgeMapBuilder{}
return.col_edge_map.col_to_edges new()
return.col_edge_map.edge_to_col new()
return.node_bin_col_map new()
return.node_set_bin_col_map new()
## SolverBuilder<I>::col_for_edge
return col_for_edge(self.col_edge_map, p1)
## SolverBuilder<I>::create
add_node(self, net.nodes[elem(elem(elem(net.aggregated_nodes).nodes)).0], 1, RowBuilder{columns: new(), lower: 0, upper: none})
add_node(self, net.nodes[elem(elem(net.virtual_storage_nodes).nodes).0], -elem(elem(net.virtual_storage_nodes).factors), RowBuilder{columns: new(), lower: 0, upper: none})
add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(net.aggregated_nodes)
    for each(net.virtual_storage_nodes)
create_aggregated_node_factor_constraints(self, net, p2)
create_columns(self, net)
create_mass_balance_constraints(self, net)
create_mutual_exclusivity_constraints(self, net)
create_node_constraints(self, net, p2)
return BuiltSolver{}
return.agg_node_constraint_row_ids list
return.agg_node_constraint_row_ids[] add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(net.aggregated_nodes)
return.agg_node_factor_constraint_row_ids create_aggregated_node_factor_constraints(self, net, p2)
return.builder build(self.builder)
return.col_edge_map ColumnEdgeMap{edge_to_col: self.col_edge_map.edge_to_col}
return.node_constraints_row_ids create_node_constraints(self, net, p2)
return.virtual_storage_constraint_row_ids list
return.virtual_storage_constraint_row_ids[] add_variable_row'(self.builder, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(net.virtual_storage_nodes)
## SolverBuilder<I>::create_columns
[accepts]
    !Lt(len(net.edges), 1)
add_column(self.builder, 0, Double{0: 0, 1: 1}, Integer)
    for each(list(elem(elem(net.aggregated_nodes).nodes) if has_exclusivity(elem(net.aggregated_nodes))))
add_column(self.builder, 0, Lower{0: 0}, Continuous)
    for each(self.col_edge_map.col_to_edges)
add_equal_edges(self.col_edge_map, elem(net.edges).index, get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0])[0])
    Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
add_simple_edge(self.col_edge_map, elem(net.edges).index)
    !Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    !Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    node_type(net.nodes[elem(net.edges).from_node_index.0]) is Input|Output|Storage
entry(self.node_bin_col_map, elem(elem(list(elem(elem(net.aggregated_nodes).nodes) if has_exclusivity(elem(net.aggregated_nodes))))))
insert(self.node_set_bin_col_map, elem(list(elem(elem(net.aggregated_nodes).nodes) if has_exclusivity(elem(net.aggregated_nodes)))), add_column(self.builder, 0, Double{0: 0, 1: 1}, Integer))
push(or_default(entry(self.node_bin_col_map, elem(elem(list(elem(elem(net.aggregated_nodes).nodes) if has_exclusivity(elem(net.aggregated_nodes))))))), add_column(self.builder, 0, Double{0: 0, 1: 1}, Integer))
## SolverBuilder<I>::create_mass_balance_constraints
RowBuilder{columns: new(), lower: 0, upper: none}.lower := 0
    !Eq(1, len(new())); node_type(elem(net.nodes)) is Link
RowBuilder{columns: new(), lower: 0, upper: none}.upper := 0
    !Eq(1, len(new())); node_type(elem(net.nodes)) is Link
entry(new(), col_for_edge(self, elem(get_incoming_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
entry(new(), col_for_edge(self, elem(get_outgoing_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
push(self.builder.fixed_rows, RowBuilder{columns: new(), lower: 0, upper: none})
    !Eq(1, len(new())); node_type(elem(net.nodes)) is Link
## SolverBuilder<I>::add_node
entry(p3.columns, col_for_edge(self, elem(get_incoming_edges(p1))))
    node_type(p1) is Output|Storage
entry(p3.columns, col_for_edge(self, elem(get_outgoing_edges(p1))))
    node_type(p1) is Input|Link|Storage
## SolverBuilder<I>::create_node_constraints
RowBuilder{columns: new(), lower: 0, upper: none}.lower := 0
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Flow; self.node_bin_col_map[index(elem(net.nodes))] is Some
RowBuilder{columns: new(), lower: 0, upper: none}.lower := get_const_bounds(elem(net.nodes), p2)~Flow.0.min_flow
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Flow; self.node_bin_col_map[index(elem(net.nodes))] is None
RowBuilder{columns: new(), lower: 0, upper: none}.upper := get_const_bounds(elem(net.nodes), p2)~Flow.0.max_flow
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Flow; self.node_bin_col_map[index(elem(net.nodes))] is None
RowBuilder{columns: new(), lower: 0, upper: none}.upper := self.builder.f64_max
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Flow; self.node_bin_col_map[index(elem(net.nodes))] is Some
[accepts]
    get_const_bounds(elem(net.nodes), p2) is Flow|None|Volume
add_node(self, elem(net.nodes), -1, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(self.node_bin_col_map[index(elem(net.nodes))]); self.node_bin_col_map[index(elem(net.nodes))] is Some
add_node(self, elem(net.nodes), 1, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(self.node_bin_col_map[index(elem(net.nodes))]); self.node_bin_col_map[index(elem(net.nodes))] is Some
    self.node_bin_col_map[index(elem(net.nodes))] is None
add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none})
    for each(net.nodes); for each(self.node_bin_col_map[index(elem(net.nodes))]); get_const_bounds(elem(net.nodes), p2) is None; self.node_bin_col_map[index(elem(net.nodes))] is Some
    for each(net.nodes); for each(self.node_bin_col_map[index(elem(net.nodes))]); get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Volume; self.node_bin_col_map[index(elem(net.nodes))] is Some
    for each(net.nodes); get_const_bounds(elem(net.nodes), p2) is None; self.node_bin_col_map[index(elem(net.nodes))] is None
    for each(net.nodes); get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Volume; self.node_bin_col_map[index(elem(net.nodes))] is None
entry(new(), elem(self.node_bin_col_map[index(elem(net.nodes))]))
    self.node_bin_col_map[index(elem(net.nodes))] is Some
push(self.builder.fixed_rows, RowBuilder{columns: new(), lower: 0, upper: none})
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Flow
return list
return[] NodeRowId{node_idx: index(elem(net.nodes)), row_id: add_variable_row'(self.builder, RowBuilder{columns: new(), lower: 0, upper: none}), row_type: BinaryLowerBound{bin_col_id: elem(self.node_bin_col_map[index(elem(net.nodes))])}}
    get_const_bounds(elem(net.nodes), p2) is None; self.node_bin_col_map[index(elem(net.nodes))] is Some
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Volume; self.node_bin_col_map[index(elem(net.nodes))] is Some
return[] NodeRowId{node_idx: index(elem(net.nodes)), row_id: add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none}), row_type: BinaryUpperBound{bin_col_id: elem(self.node_bin_col_map[index(elem(net.nodes))])}}
    get_const_bounds(elem(net.nodes), p2) is None; self.node_bin_col_map[index(elem(net.nodes))] is Some
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Volume; self.node_bin_col_map[index(elem(net.nodes))] is Some
return[] NodeRowId{node_idx: index(elem(net.nodes)), row_id: add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none}), row_type: Continuous}
    get_const_bounds(elem(net.nodes), p2) is None; self.node_bin_col_map[index(elem(net.nodes))] is None
    get_const_bounds(elem(net.nodes), p2) is Some; get_const_bounds(elem(net.nodes), p2)? is Volume; self.node_bin_col_map[index(elem(net.nodes))] is None
## SolverBuilder<I>::create_aggregated_node_factor_constraints
RowBuilder{columns: new(), lower: 0, upper: none}.lower := elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).rhs
    get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
RowBuilder{columns: new(), lower: 0, upper: none}.upper := elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).rhs
    get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
add_node(self, net.nodes[elem(elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.indices).0], 1, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is None; get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
add_node(self, net.nodes[elem(elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.indices).0], elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is Some; get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
add_node(self, net.nodes[elem(elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.indices).0], 1, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is None; get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
add_node(self, net.nodes[elem(elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.indices).0], elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is Some; get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is None; elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is Some; for each(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)); for each(net.aggregated_nodes); get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is None; for each(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)); for each(net.aggregated_nodes); get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
push(self.builder.fixed_rows, RowBuilder{columns: new(), lower: 0, upper: none})
    elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is Some; elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is Some; get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
return list
return[] AggNodeFactorRow{agg_node_idx: elem(net.aggregated_nodes).meta.index, row_indices: list(add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none}) if elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is None & for each(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)) & for each(net.aggregated_nodes), add_variable_row(self.builder, RowBuilder{columns: new(), lower: 0, upper: none}) if elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is None & elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is Some & for each(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)) & for each(net.aggregated_nodes), none if elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node0.factor is Some & elem(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)).node1.factor is Some & for each(get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2)) & for each(net.aggregated_nodes))}
    get_const_norm_factor_pairs(elem(net.aggregated_nodes), p2) is Some
## SolverBuilder<I>::create_mutual_exclusivity_constraints
RowBuilder{columns: new(), lower: 0, upper: none}.lower := get_exclusivity(elem(net.aggregated_nodes)).min_active
    get_exclusivity(elem(net.aggregated_nodes)) is Some
RowBuilder{columns: new(), lower: 0, upper: none}.upper := get_exclusivity(elem(net.aggregated_nodes)).max_active
    get_exclusivity(elem(net.aggregated_nodes)) is Some
entry(new(), self.node_set_bin_col_map[elem(elem(net.aggregated_nodes).nodes)])
    get_exclusivity(elem(net.aggregated_nodes)) is Some
push(self.builder.fixed_rows, RowBuilder{columns: new(), lower: 0, upper: none})
    get_exclusivity(elem(net.aggregated_nodes)) is Some
## ColumnEdgeMap<I>::col_for_edge
[success]
    self.edge_to_col[p1.0] is Some
return self.edge_to_col[p1.0]
## <ColumnEdgeMapBuilder<I> as Default>::default
return ColumnEdgeMapBuilder{}
return.col_to_edges new()
return.edge_to_col new()
## ColumnEdgeMapBuilder<I>::build
return ColumnEdgeMap{edge_to_col: self.edge_to_col}
## ColumnEdgeMapBuilder<I>::ncols
return len(self.col_to_edges)
## ColumnEdgeMapBuilder<I>::col_for_edge
[success]
    self.edge_to_col[p1] is Some
return self.edge_to_col[p1]
## ColumnEdgeMapBuilder<I>::add_simple_edge
insert(self.edge_to_col, p1, from(len(self.col_to_edges)))
    !contains_key(self.edge_to_col, p1)
push(self.col_to_edges, list(p1))
    !contains_key(self.edge_to_col, p1)
## ColumnEdgeMapBuilder<I>::add_equal_edges
insert(self.edge_to_col, p1, col_for_edge(self, p2))
    !contains_key(self.edge_to_col, p1); contains_key(self.edge_to_col, p2)
insert(self.edge_to_col, p1, from(len(self.col_to_edges)))
    !contains_key(self.edge_to_col, p1); !contains_key(self.edge_to_col, p2)
insert(self.edge_to_col, p2, col_for_edge(self, p1))
    !contains_key(self.edge_to_col, p2); contains_key(self.edge_to_col, p1)
insert(self.edge_to_col, p2, from(len(self.col_to_edges)))
    !contains_key(self.edge_to_col, p1); !contains_key(self.edge_to_col, p2)
push(self.col_to_edges, list(p1, p2))
    !contains_key(self.edge_to_col, p1); !contains_key(self.edge_to_col, p2)
push(self.col_to_edges[col_for_edge(self, p1)], p2)
    !contains_key(self.edge_to_col, p2); contains_key(self.edge_to_col, p1)
push(self.col_to_edges[col_for_edge(self, p2)], p1)
    !contains_key(self.edge_to_col, p1); contains_key(self.edge_to_col, p2)
## <Matrix as Default>::default @core ipm_ocl pywr_core
return Matrix{}
return.columns new()
return.elements new()
return.row_starts list
return.row_starts[] 0
## Matrix::nrows @core ipm_ocl
return (len(self.row_starts) -1)
## Lp::add_obj_coefficient @core ipm_ocl
self.col_obj_coef[(idx(p2) +p1*self.num_lps)] := (elem(p2) +self.col_obj_coef[(idx(p2) +p1*self.num_lps)])
## Lp::apply_row_bounds @core ipm_ocl
self.row_upper[(idx(p2) +p1*self.num_lps)] := min(elem(p2), self.row_upper[(idx(p2) +p1*self.num_lps)])
## LpBuilder::add_row @core ipm_ocl
leave loop early()
    Eq(elem(self.inequality), p1); p1.upper is Upper
push(self.equality, p1)
    p1.upper is Fixed
push(self.inequality, p1)
    !Eq(elem(self.inequality), p1); p1.upper is Upper
return idx(self.inequality)
    Eq(elem(self.inequality), p1); p1.upper is Upper
return len(self.inequality)
    !Eq(elem(self.inequality), p1); p1.upper is Upper
return none
    p1.upper is Fixed
## LpBuilder::build @core ipm_ocl
push(list(0), (len(elem(self.equality).columns) +list(0)[(len(list(0)) -1)]))
push(list(0), (len(elem(self.inequality).columns) +list(0)[(len(list(0)) -1)]))
return Lp{}
return.col_obj_coef from_elem(0, self.num_cols*self.num_lps)
return.equality Matrix{}
return.equality.columns list
return.equality.columns[] elem(elem(self.equality).columns).0
return.equality.columns[] elem(elem(self.inequality).columns).0
return.equality.elements list
return.equality.elements[] elem(elem(self.equality).columns).1
return.equality.elements[] elem(elem(self.inequality).columns).1
return.equality.row_starts list
return.equality.row_starts[] 0
return.inequality Matrix{}
return.inequality.columns list
return.inequality.columns[] elem(elem(self.equality).columns).0
return.inequality.columns[] elem(elem(self.inequality).columns).0
return.inequality.elements list
return.inequality.elements[] elem(elem(self.equality).columns).1
return.inequality.elements[] elem(elem(self.inequality).columns).1
return.inequality.row_starts list
return.inequality.row_starts[] 0
return.num_cols self.num_cols
return.num_lps self.num_lps
return.row_upper from_elem(0, (len(self.equality)*self.num_lps +len(self.inequality)*self.num_lps))
## BuiltSolver::col_obj_coef @core ipm_ocl
return self.lp.col_obj_coef
## BuiltSolver::row_upper @core ipm_ocl
return self.lp.row_upper
## BuiltSolver::col_for_edge @core ipm_ocl
return col_for_edge(self.col_edge_map, p1)
## BuiltSolver::update @core ipm_ocl
add_obj_coefficient(self.lp, col_for_edge(self, elem(net.edges).index), list({(-get_incoming_cost(net.nodes[elem(net.edges).to_node_index.0], net, elem(p3)) -get_outgoing_cost(net.nodes[elem(net.edges).from_node_index.0], net, elem(p3))) | 0}))
elem(self.lp.col_obj_coef) := 0
elem(self.lp.row_upper) := 999999
    take((len(self.lp.inequality.row_starts)*self.lp.num_lps -self.lp.num_lps))
timings.update_constraints := (elapsed(now()) +timings.update_constraints)
timings.update_objective := (elapsed(now()) +timings.update_objective)
update_node_constraint_bounds(self, net, ts, p3)
## BuiltSolver::update_node_constraint_bounds @core ipm_ocl
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(86400*get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.available/as_secs_f64(ts.duration.0)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(86400*get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.missing/as_secs_f64(ts.duration.0)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(min(999999, get_bounds(elem(net.nodes), net, elem(p3))~Flow.0.max_flow)))
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
## SolverBuilder::col_for_edge @core ipm_ocl
return col_for_edge(self.col_edge_map, p1)
## SolverBuilder::create @core ipm_ocl
add_row(self.builder, RowBuilder{columns: new(), upper: Fixed})
    !Eq(1, len(new())); for each(net.nodes); node_type(elem(net.nodes)) is Link
create_columns(self, net)
create_node_constraints(self, net)
entry(new(), col_for_edge(self, elem(get_incoming_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
entry(new(), col_for_edge(self, elem(get_outgoing_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
return BuiltSolver{}
return.col_edge_map ColumnEdgeMap{edge_to_col: self.col_edge_map.edge_to_col}
return.lp build(self.builder)
return.node_constraints_row_ids create_node_constraints(self, net)
## SolverBuilder::create_columns @core ipm_ocl
[accepts]
    !Lt(len(net.edges), 1)
add_equal_edges(self.col_edge_map, elem(net.edges).index, get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0])[0])
    Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
add_simple_edge(self.col_edge_map, elem(net.edges).index)
    !Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    !Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    node_type(net.nodes[elem(net.edges).from_node_index.0]) is Input|Output|Storage
self.builder.num_cols := (self.builder.num_cols +1)
## SolverBuilder::add_node @core ipm_ocl
entry(p3.columns, col_for_edge(self, elem(get_incoming_edges(p1))))
    node_type(p1) is Output|Storage
entry(p3.columns, col_for_edge(self, elem(get_outgoing_edges(p1))))
    node_type(p1) is Input|Link|Storage
## SolverBuilder::create_node_constraints @core ipm_ocl
add_node(self, elem(net.nodes), 1, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
    node_type(elem(net.nodes)) is Storage
add_row(self.builder, RowBuilder{columns: list((elem(new()).0, -elem(new()).1)), upper: Upper})
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
add_row(self.builder, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); for each(net.nodes); node_type(elem(net.nodes)) is Input|Link|Output
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
return list
return[] add_row(self.builder, RowBuilder{columns: list((elem(new()).0, -elem(new()).1)), upper: Upper})
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
return[] add_row(self.builder, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); for each(net.nodes); node_type(elem(net.nodes)) is Input|Link|Output
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
## <Matrix as Default>::default @core ipm_simd pywr_core
return Matrix{}
return.columns new()
return.elements new()
return.row_starts list
return.row_starts[] 0
## Matrix::nrows @core ipm_simd
return (len(self.row_starts) -1)
## Lp::add_obj_coefficient @core ipm_simd
self.col_obj_coef[p1] := (concat((p2, list(last(p2) if for each(Range{end: (-len(p2) +4), start: 0})))) +self.col_obj_coef[p1])
    !Eq(4, len(p2))
self.col_obj_coef[p1] := (p2 +self.col_obj_coef[p1])
    Eq(4, len(p2))
## Lp::apply_row_bounds @core ipm_simd
self.row_upper[p1] := min(concat((p2, list(last(p2) if for each(Range{end: (-len(p2) +4), start: 0})))), self.row_upper[p1])
    !Eq(4, len(p2))
self.row_upper[p1] := min(p2, self.row_upper[p1])
    Eq(4, len(p2))
## LpBuilder::add_row @core ipm_simd
leave loop early()
    Eq(elem(self.inequality), p1); p1.upper is Upper
push(self.equality, p1)
    p1.upper is Fixed
push(self.inequality, p1)
    !Eq(elem(self.inequality), p1); p1.upper is Upper
return idx(self.inequality)
    Eq(elem(self.inequality), p1); p1.upper is Upper
return len(self.inequality)
    !Eq(elem(self.inequality), p1); p1.upper is Upper
return none
    p1.upper is Fixed
## LpBuilder::build @core ipm_simd
push(list(0), (len(elem(self.equality).columns) +list(0)[(len(list(0)) -1)]))
push(list(0), (len(elem(self.inequality).columns) +list(0)[(len(list(0)) -1)]))
return Lp{}
return.col_obj_coef list
return.col_obj_coef[] splat(0)
    for each(Range{end: self.num_cols, start: 0})
return.equality Matrix{}
return.equality.columns list
return.equality.columns[] elem(elem(self.equality).columns).0
return.equality.columns[] elem(elem(self.inequality).columns).0
return.equality.elements list
return.equality.elements[] elem(elem(self.equality).columns).1
return.equality.elements[] elem(elem(self.inequality).columns).1
return.equality.row_starts list
return.equality.row_starts[] 0
return.inequality Matrix{}
return.inequality.columns list
return.inequality.columns[] elem(elem(self.equality).columns).0
return.inequality.columns[] elem(elem(self.inequality).columns).0
return.inequality.elements list
return.inequality.elements[] elem(elem(self.equality).columns).1
return.inequality.elements[] elem(elem(self.inequality).columns).1
return.inequality.row_starts list
return.inequality.row_starts[] 0
return.num_cols self.num_cols
return.row_upper list
return.row_upper[] splat(0)
    for each(Range{end: (len(self.equality) +len(self.inequality)), start: 0})
## BuiltSolver::col_obj_coef @core ipm_simd
return self.lp.col_obj_coef
## BuiltSolver::row_upper @core ipm_simd
return self.lp.row_upper
## BuiltSolver::col_for_edge @core ipm_simd
return col_for_edge(self.col_edge_map, p1)
## BuiltSolver::update @core ipm_simd
add_obj_coefficient(self.lp, col_for_edge(self, elem(net.edges).index), list({(-get_incoming_cost(net.nodes[elem(net.edges).to_node_index.0], net, elem(p3)) -get_outgoing_cost(net.nodes[elem(net.edges).from_node_index.0], net, elem(p3))) | 0}))
elem(self.lp.col_obj_coef) := splat(0)
elem(self.lp.row_upper) := splat(999999)
    take((len(self.lp.inequality.row_starts) -1))
timings.update_constraints := (elapsed(now()) +timings.update_constraints)
timings.update_objective := (elapsed(now()) +timings.update_objective)
update_node_constraint_bounds(self, net, ts, p3)
## BuiltSolver::update_node_constraint_bounds @core ipm_simd
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(86400*get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.available/as_secs_f64(ts.duration.0)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(86400*get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.missing/as_secs_f64(ts.duration.0)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, elem(self.node_constraints_row_ids), list(min(999999, get_bounds(elem(net.nodes), net, elem(p3))~Flow.0.max_flow)))
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
## SolverBuilder::col_for_edge @core ipm_simd
return col_for_edge(self.col_edge_map, p1)
## SolverBuilder::create @core ipm_simd
add_row(self.builder, RowBuilder{columns: new(), upper: Fixed})
    !Eq(1, len(new())); for each(net.nodes); node_type(elem(net.nodes)) is Link
create_columns(self, net)
create_node_constraints(self, net)
entry(new(), col_for_edge(self, elem(get_incoming_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
entry(new(), col_for_edge(self, elem(get_outgoing_edges(elem(net.nodes)))))
    node_type(elem(net.nodes)) is Link
return BuiltSolver{}
return.col_edge_map ColumnEdgeMap{edge_to_col: self.col_edge_map.edge_to_col}
return.lp build(self.builder)
return.node_constraints_row_ids create_node_constraints(self, net)
## SolverBuilder::create_columns @core ipm_simd
[accepts]
    !Lt(len(net.edges), 1)
add_equal_edges(self.col_edge_map, elem(net.edges).index, get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0])[0])
    Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
add_simple_edge(self.col_edge_map, elem(net.edges).index)
    !Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    !Eq(1, len(get_outgoing_edges(net.nodes[elem(net.edges).from_node_index.0]))); Eq(1, len(get_incoming_edges(net.nodes[elem(net.edges).from_node_index.0]))); node_type(net.nodes[elem(net.edges).from_node_index.0]) is Link
    node_type(net.nodes[elem(net.edges).from_node_index.0]) is Input|Output|Storage
self.builder.num_cols := (self.builder.num_cols +1)
## SolverBuilder::add_node @core ipm_simd
entry(p3.columns, col_for_edge(self, elem(get_incoming_edges(p1))))
    node_type(p1) is Output|Storage
entry(p3.columns, col_for_edge(self, elem(get_outgoing_edges(p1))))
    node_type(p1) is Input|Link|Storage
## SolverBuilder::create_node_constraints @core ipm_simd
add_node(self, elem(net.nodes), 1, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
    node_type(elem(net.nodes)) is Storage
add_row(self.builder, RowBuilder{columns: list((elem(new()).0, -elem(new()).1)), upper: Upper})
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
add_row(self.builder, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); for each(net.nodes); node_type(elem(net.nodes)) is Input|Link|Output
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
return list
return[] add_row(self.builder, RowBuilder{columns: list((elem(new()).0, -elem(new()).1)), upper: Upper})
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
return[] add_row(self.builder, RowBuilder{columns: new(), upper: Upper})
    !is_max_flow_unconstrained(elem(net.nodes)); for each(net.nodes); node_type(elem(net.nodes)) is Input|Link|Output
    for each(net.nodes); node_type(elem(net.nodes)) is Storage
