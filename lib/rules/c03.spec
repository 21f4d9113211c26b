## shared builder update
clear(lp.coefficients_to_update)
elem(lp.col_obj_coef) := 0
elem(lp.row_lower) := lp.f64_neg_max
    Eq(elem(lp.row_mask), one())
elem(lp.row_upper) := lp.f64_max
    Eq(elem(lp.row_mask), one())
lp.col_obj_coef[col_for_edge(self, elem(net.edges).index)] := cost(elem(net.edges), net.nodes, net, state)
lp.row_lower[NR.row_id] := max(-BOUNDS~Volume.0.available/days(ts), elem(lp.row_lower))
    BOUNDS is Volume; NR.row_type is Continuous
lp.row_lower[NR.row_id] := max(-BOUNDS~Volume.0.available/days(ts), lp.f64_neg_max)
    BOUNDS is Volume; NR.row_type is Continuous
lp.row_lower[NR.row_id] := max(0, elem(lp.row_lower))
    NR.row_type is BinaryLowerBound|BinaryUpperBound
lp.row_lower[NR.row_id] := max(0, lp.f64_neg_max)
    NR.row_type is BinaryLowerBound|BinaryUpperBound
lp.row_lower[NR.row_id] := max(BOUNDS~Flow.0.min_flow, lp.f64_neg_max)
    BOUNDS is Flow; NR.row_type is Continuous
lp.row_lower[NR.row_id] := max(elem(lp.row_lower), BOUNDS~Flow.0.min_flow)
    BOUNDS is Flow; NR.row_type is Continuous
lp.row_lower[VSROW] := max(-get_available_volume_bounds(VS, state).0/days(ts), elem(lp.row_lower))
    is_active(VS, ts)
lp.row_lower[VSROW] := max(-get_available_volume_bounds(VS, state).0/days(ts), lp.f64_neg_max)
    is_active(VS, ts)
lp.row_lower[VSROW] := max(elem(lp.row_lower), lp.f64_neg_max)
    !is_active(VS, ts)
lp.row_lower[VSROW] := max(lp.f64_neg_max, lp.f64_neg_max)
    !is_active(VS, ts)
lp.row_lower[elem(AF.row_indices)] := max(elem(lp.row_lower), rhs(PAIR))
    elem(AF.row_indices) is Some
lp.row_lower[elem(AF.row_indices)] := max(rhs(PAIR), lp.f64_neg_max)
    elem(AF.row_indices) is Some
lp.row_lower[elem(self.agg_node_constraint_row_ids)] := max(elem(lp.row_lower), get_flow_bounds(elem(net.aggregated_nodes), net, state).0)
lp.row_lower[elem(self.agg_node_constraint_row_ids)] := max(get_flow_bounds(elem(net.aggregated_nodes), net, state).0, lp.f64_neg_max)
lp.row_upper[NR.row_id] := min(BOUNDS~Flow.0.max_flow, lp.f64_max)
    BOUNDS is Flow; NR.row_type is Continuous
lp.row_upper[NR.row_id] := min(BOUNDS~Volume.0.missing/days(ts), lp.f64_max)
    BOUNDS is Volume; NR.row_type is Continuous
lp.row_upper[NR.row_id] := min(elem(lp.row_upper), BOUNDS~Flow.0.max_flow)
    BOUNDS is Flow; NR.row_type is Continuous
lp.row_upper[NR.row_id] := min(elem(lp.row_upper), BOUNDS~Volume.0.missing/days(ts))
    BOUNDS is Volume; NR.row_type is Continuous
lp.row_upper[NR.row_id] := min(elem(lp.row_upper), lp.f64_max)
    NR.row_type is BinaryLowerBound|BinaryUpperBound
lp.row_upper[NR.row_id] := min(lp.f64_max, lp.f64_max)
    NR.row_type is BinaryLowerBound|BinaryUpperBound
lp.row_upper[VSROW] := min(elem(lp.row_upper), get_available_volume_bounds(VS, state).1/days(ts))
    is_active(VS, ts)
lp.row_upper[VSROW] := min(elem(lp.row_upper), lp.f64_max)
    !is_active(VS, ts)
lp.row_upper[VSROW] := min(get_available_volume_bounds(VS, state).1/days(ts), lp.f64_max)
    is_active(VS, ts)
lp.row_upper[VSROW] := min(lp.f64_max, lp.f64_max)
    !is_active(VS, ts)
lp.row_upper[elem(AF.row_indices)] := min(elem(lp.row_upper), rhs(PAIR))
    elem(AF.row_indices) is Some
lp.row_upper[elem(AF.row_indices)] := min(rhs(PAIR), lp.f64_max)
    elem(AF.row_indices) is Some
lp.row_upper[elem(self.agg_node_constraint_row_ids)] := min(elem(lp.row_upper), get_flow_bounds(elem(net.aggregated_nodes), net, state).1)
lp.row_upper[elem(self.agg_node_constraint_row_ids)] := min(get_flow_bounds(elem(net.aggregated_nodes), net, state).1, lp.f64_max)
push(lp.coefficients_to_update, (NR.row_id, NR.row_type~BinaryLowerBound.bin_col_id, -BOUNDS~Flow.0.min_flow))
    BOUNDS is Flow; NR.row_type is BinaryLowerBound
push(lp.coefficients_to_update, (NR.row_id, NR.row_type~BinaryLowerBound.bin_col_id, BOUNDS~Volume.0.available/days(ts)))
    BOUNDS is Volume; NR.row_type is BinaryLowerBound
push(lp.coefficients_to_update, (NR.row_id, NR.row_type~BinaryUpperBound.bin_col_id, BOUNDS~Flow.0.max_flow))
    BOUNDS is Flow; NR.row_type is BinaryUpperBound
push(lp.coefficients_to_update, (NR.row_id, NR.row_type~BinaryUpperBound.bin_col_id, BOUNDS~Volume.0.missing/days(ts)))
    BOUNDS is Volume; NR.row_type is BinaryUpperBound
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_incoming_edges(net.nodes[elem(node0_indices(PAIR)).0]))), node0_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node0_indices(PAIR)).0]) is Output|Storage
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_incoming_edges(net.nodes[elem(node1_indices(PAIR)).0]))), node1_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node1_indices(PAIR)).0]) is Output|Storage
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_outgoing_edges(net.nodes[elem(node0_indices(PAIR)).0]))), -node0_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node0_indices(PAIR)).0]) is Storage
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_outgoing_edges(net.nodes[elem(node0_indices(PAIR)).0]))), node0_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node0_indices(PAIR)).0]) is Input|Link
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_outgoing_edges(net.nodes[elem(node1_indices(PAIR)).0]))), -node1_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node1_indices(PAIR)).0]) is Storage
push(lp.coefficients_to_update, (elem(AF.row_indices), col_for_edge(self.col_edge_map, elem(get_outgoing_edges(net.nodes[elem(node1_indices(PAIR)).0]))), node1_factor(PAIR)))
    elem(AF.row_indices) is Some; node_type(net.nodes[elem(node1_indices(PAIR)).0]) is Input|Link
## simd interior point update
add_obj_coefficient(self.lp, col_for_edge(self, elem(net.edges).index), list({-cost(elem(net.edges), net.nodes, net, elem(p3)) | 0}))
apply_row_bounds(self.lp, NROW, list(get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.available/days(ts)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, NROW, list(get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.missing/days(ts)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, NROW, list(min(999999, get_bounds(elem(net.nodes), net, elem(p3))~Flow.0.max_flow)))
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
elem(self.lp.col_obj_coef) := splat(0)
elem(self.lp.row_upper) := splat(999999)
    take((len(self.lp.inequality.row_starts) -1))
## opencl interior point update
add_obj_coefficient(self.lp, col_for_edge(self, elem(net.edges).index), list({-cost(elem(net.edges), net.nodes, net, elem(p3)) | 0}))
apply_row_bounds(self.lp, NROW, list(get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.available/days(ts)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, NROW, list(get_bounds(elem(net.nodes), net, elem(p3))~Volume.0.missing/days(ts)))
    node_type(elem(net.nodes)) is Storage
apply_row_bounds(self.lp, NROW, list(min(999999, get_bounds(elem(net.nodes), net, elem(p3))~Flow.0.max_flow)))
    !is_max_flow_unconstrained(elem(net.nodes)); node_type(elem(net.nodes)) is Input|Link|Output
elem(self.lp.col_obj_coef) := 0
elem(self.lp.row_upper) := 999999
    take((len(self.lp.inequality.row_starts)*self.lp.num_lps -self.lp.num_lps))
## edge::Edge::cost
return (get_incoming_cost(p1[self.to_node_index.0], net, state) +get_outgoing_cost(p1[self.from_node_index.0], net, state))
## node::Node::node_type
return Input
    self is Input
return Link
    self is Link
return Output
    self is Output
return Storage
    self is Storage
## node::Node::get_min_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return 0
    self.node.flow_constraints.min_flow is None
return get_value(self.node.flow_constraints.min_flow, net, state)
    self.node.flow_constraints.min_flow is Some
## node::Node::get_max_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return 1.79769313486e+308
    self.node.flow_constraints.max_flow is None
return get_value(self.node.flow_constraints.max_flow, net, state)
    self.node.flow_constraints.max_flow is Some
## node::Node::is_max_flow_unconstrained
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return false
    self.node.flow_constraints.max_flow is Some
return true
    self.node.flow_constraints.max_flow is None
## node::Node::get_bounds
return Flow{0: FlowBounds{max_flow: 1.79769313486e+308, min_flow: 0}}
    self is Input|Link|Output; self.node.flow_constraints.max_flow is None; self.node.flow_constraints.min_flow is None
return Flow{0: FlowBounds{max_flow: 1.79769313486e+308, min_flow: get_value(self.node.flow_constraints.min_flow, net, state)}}
    self is Input|Link|Output; self.node.flow_constraints.max_flow is None; self.node.flow_constraints.min_flow is Some
return Flow{0: FlowBounds{max_flow: get_value(self.node.flow_constraints.max_flow, net, state), min_flow: 0}}
    self is Input|Link|Output; self.node.flow_constraints.max_flow is Some; self.node.flow_constraints.min_flow is None
return Flow{0: FlowBounds{max_flow: get_value(self.node.flow_constraints.max_flow, net, state), min_flow: get_value(self.node.flow_constraints.min_flow, net, state)}}
    self is Input|Link|Output; self.node.flow_constraints.max_flow is Some; self.node.flow_constraints.min_flow is Some
return Volume{0: VolumeBounds{available: (get_node_volume(get_network_state(state), self.node.meta.index) -get_value(self.node.storage_constraints.min_volume, get_simple_parameter_values(state))), missing: (-get_node_volume(get_network_state(state), self.node.meta.index) +1.79769313486e+308)}}
    self is Storage; self.node.storage_constraints.max_volume is None; self.node.storage_constraints.min_volume is Some
return Volume{0: VolumeBounds{available: (get_node_volume(get_network_state(state), self.node.meta.index) -get_value(self.node.storage_constraints.min_volume, get_simple_parameter_values(state))), missing: (-get_node_volume(get_network_state(state), self.node.meta.index) +get_value(self.node.storage_constraints.max_volume, get_simple_parameter_values(state)))}}
    self is Storage; self.node.storage_constraints.max_volume is Some; self.node.storage_constraints.min_volume is Some
return Volume{0: VolumeBounds{available: get_node_volume(get_network_state(state), self.node.meta.index), missing: (-get_node_volume(get_network_state(state), self.node.meta.index) +1.79769313486e+308)}}
    self is Storage; self.node.storage_constraints.max_volume is None; self.node.storage_constraints.min_volume is None
return Volume{0: VolumeBounds{available: get_node_volume(get_network_state(state), self.node.meta.index), missing: (-get_node_volume(get_network_state(state), self.node.meta.index) +get_value(self.node.storage_constraints.max_volume, get_simple_parameter_values(state)))}}
    self is Storage; self.node.storage_constraints.max_volume is Some; self.node.storage_constraints.min_volume is None
## node::Node::get_outgoing_cost
return -get_cost(self.node, net, state)
    self is Storage
return 0.5*get_cost(self.node, net, state)
    self is Link
return get_cost(self.node, net, state)
    self is Input|Output
## node::Node::get_incoming_cost
return 0.5*get_cost(self.node, net, state)
    self is Link
return get_cost(self.node, net, state)
    self is Input|Output|Storage
## node::NodeCost::get_cost
[accepts]
    self.agg_func is Max|Min|None|Sum
return (acc(0) +get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Sum; self.local is None
return (acc(get_value(self.local, net, state)) +get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Sum; self.local is Some
return 0
    self.agg_func is None; self.local is None
return get_value(self.local, net, state)
    self.agg_func is None; self.local is Some
return max(acc(0), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Max; self.local is None
return max(acc(get_value(self.local, net, state)), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Max; self.local is Some
return min(acc(0), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Min; self.local is None
return min(acc(get_value(self.local, net, state)), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Min; self.local is Some
## aggregated_node::AggregatedNode::get_min_flow
return 0
    self.flow_constraints.min_flow is None
return get_value(self.flow_constraints.min_flow, net, state)
    self.flow_constraints.min_flow is Some
## aggregated_node::AggregatedNode::get_max_flow
return 1.79769313486e+308
    self.flow_constraints.max_flow is None
return get_value(self.flow_constraints.max_flow, net, state)
    self.flow_constraints.max_flow is Some
## aggregated_node::AggregatedNode::get_flow_bounds
return.0 0
    self.flow_constraints.min_flow is None
return.0 get_value(self.flow_constraints.min_flow, net, state)
    self.flow_constraints.min_flow is Some
return.1 1.79769313486e+308
    self.flow_constraints.max_flow is None
return.1 get_value(self.flow_constraints.max_flow, net, state)
    self.flow_constraints.max_flow is Some
## virtual_storage::VirtualStorageNode::get_cost
return 0
    self.cost is None
return get_value(self.cost, net, state)
    self.cost is Some
## virtual_storage::VirtualStorageNode::get_min_volume
return 0
    self.storage_constraints.min_volume is None
return get_value(self.storage_constraints.min_volume, get_simple_parameter_values(state))
    self.storage_constraints.min_volume is Some
## virtual_storage::VirtualStorageNode::get_max_volume
return 1.79769313486e+308
    self.storage_constraints.max_volume is None
return get_value(self.storage_constraints.max_volume, get_simple_parameter_values(state))
    self.storage_constraints.max_volume is Some
## virtual_storage::VirtualStorageNode::get_available_volume_bounds
return.0 max((-get_value(self.storage_constraints.min_volume, get_simple_parameter_values(state)) +get_virtual_storage_volume(get_network_state(state), self.meta.index)), 0)
    self.storage_constraints.min_volume is Some
return.0 max(0, get_virtual_storage_volume(get_network_state(state), self.meta.index))
    self.storage_constraints.min_volume is None
return.1 max((-get_virtual_storage_volume(get_network_state(state), self.meta.index) +1.79769313486e+308), 0)
    self.storage_constraints.max_volume is None
return.1 max((get_value(self.storage_constraints.max_volume, get_simple_parameter_values(state)) -get_virtual_storage_volume(get_network_state(state), self.meta.index)), 0)
    self.storage_constraints.max_volume is Some
