## <MultiValue as FromPyObject>::extract
return MultiValue{}
return.indices list
return.indices[] (elem(cast(p0)).0, extract(cast(elem(cast(p0)).1)))
    cast(elem(cast(p0)).1) is Err
return.values list
return.values[] (elem(cast(p0)).0, extract(cast(elem(cast(p0)).1)))
    cast(elem(cast(p0)).1) is Ok
## MultiValue::new
return MultiValue{}
return.indices p1
return.values p0
## MultiValue::get_value
return self.values[p1]
## MultiValue::get_index
return self.indices[p1]
## MultiValue::has_nan
leave loop early()
    is_nan(elem(self.values))
return false
    !is_nan(elem(self.values))
return true
    is_nan(elem(self.values))
## SimpleParameterValues<'_>::get_f64
return self.simple.values[p1.idx]
## SimpleParameterValues<'_>::get_u64
return self.simple.indices[p1.idx]
## SimpleParameterValues<'_>::get_multi_f64
return self.simple.multi_values[p1.idx].values[p2]
## SimpleParameterValues<'_>::get_multi_u64
return self.simple.multi_values[p1.idx].indices[p2]
## SimpleParameterValues<'_>::get_constant_values
return self.constant
## ConstParameterValues<'_>::get_f64
return self.constant.values[p1.idx]
## ConstParameterValues<'_>::get_u64
return self.constant.indices[p1.idx]
## ConstParameterValues<'_>::get_multi_f64
return self.constant.multi_values[p1.idx].values[p2]
## ConstParameterValues<'_>::get_multi_u64
return self.constant.multi_values[p1.idx].indices[p2]
## State::get_network_state
return self.network
## State::get_mut_network_state
return self.network
## State::get_general_parameter_f64_before
return self.parameters_general_before.values[p1.idx]
## State::get_general_parameter_f64_after
return self.parameters_general_after.values[p1.idx]
## State::set_general_parameter_f64_before
[accepts]
    !is_nan(p2)
self.parameters_general_before.values[p1.idx] := p2
## State::set_general_parameter_f64_after
[accepts]
    !is_nan(p2)
self.parameters_general_after.values[p1.idx] := p2
## State::set_simple_parameter_f64
[accepts]
    !is_nan(p2)
self.parameters_simple.values[p1.idx] := p2
## State::set_const_parameter_f64
[accepts]
    !is_nan(p2)
self.parameters_constant.values[p1.idx] := p2
## State::get_general_parameter_u64_before
return self.parameters_general_before.indices[p1.idx]
## State::get_general_parameter_u64_after
return self.parameters_general_after.indices[p1.idx]
## State::set_general_parameter_u64_before
self.parameters_general_before.indices[p1.idx] := p2
## State::set_general_parameter_u64_after
self.parameters_general_after.indices[p1.idx] := p2
## State::set_simple_parameter_u64
self.parameters_simple.indices[p1.idx] := p2
## State::set_const_parameter_u64
self.parameters_constant.indices[p1.idx] := p2
## State::get_general_parameter_multi_before
return self.parameters_general_before.multi_values[p1.idx]
## State::get_general_parameter_multi_after
return self.parameters_general_after.multi_values[p1.idx]
## State::set_general_parameter_multi_before
[accepts]
    !has_nan(p2)
self.parameters_general_before.multi_values[p1.idx] := p2
## State::set_general_parameter_multi_after
[accepts]
    !has_nan(p2)
self.parameters_general_after.multi_values[p1.idx] := p2
## State::set_simple_parameter_multi
[accepts]
    !has_nan(p2)
self.parameters_simple.multi_values[p1.idx] := p2
## State::set_const_parameter_multi
[accepts]
    !has_nan(p2)
self.parameters_constant.multi_values[p1.idx] := p2
## State::get_simple_parameter_values
return SimpleParameterValues{}
return.constant ConstParameterValues{constant: ParameterValuesRef{indices: self.parameters_constant.indices, multi_values: self.parameters_constant.multi_values, values: self.parameters_constant.values}}
return.simple ParameterValuesRef{}
return.simple.indices self.parameters_simple.indices
return.simple.multi_values self.parameters_simple.multi_values
return.simple.values self.parameters_simple.values
## State::get_const_parameter_values
return ConstParameterValues{constant: ParameterValuesRef{indices: self.parameters_constant.indices, multi_values: self.parameters_constant.multi_values, values: self.parameters_constant.values}}
## State::set_node_volume
set_volume(self.network, p1, p2, p3)
## State::reset_virtual_storage_node_volume
self.network.virtual_storage_states[p1.0].last_reset := ts
self.network.virtual_storage_states[p1.0].storage.max_volume := p4
self.network.virtual_storage_states[p1.0].storage.volume := p2
## State::reset_virtual_storage_history
reset_virtual_storage_history(self.network, p1, p2)
## State::recover_virtual_storage_last_historical_flow
recover_virtual_storage_last_historical_flow(self.network, p1, ts)
## State::get_inter_network_transfer_value
return self.inter_network_values[p1.0]
## State::set_inter_network_transfer_value
self.inter_network_values[p1.0] := p2
## State::complete
self.network.node_states[index(elem(net.nodes)).0]~Storage.0.max_volume := get_max_volume(elem(net.nodes)~Storage.0, self)
    elem(net.nodes) is Storage; self.network.node_states[index(elem(net.nodes)).0] is Storage
self.network.node_states[index(elem(net.nodes)).0]~Storage.0.volume := clamp(self.network.node_states[index(elem(net.nodes)).0]~Storage.0.volume, get_min_volume(elem(net.nodes)~Storage.0, self), get_max_volume(elem(net.nodes)~Storage.0, self))
    elem(net.nodes) is Storage; self.network.node_states[index(elem(net.nodes)).0] is Storage
self.network.virtual_storage_states[elem(net.virtual_storage_nodes).meta.index.0].storage.max_volume := get_max_volume(elem(net.virtual_storage_nodes), self)
self.network.virtual_storage_states[elem(net.virtual_storage_nodes).meta.index.0].storage.volume := clamp(self.network.virtual_storage_states[elem(net.virtual_storage_nodes).meta.index.0].storage.volume, get_min_volume(elem(net.virtual_storage_nodes), self), get_max_volume(elem(net.virtual_storage_nodes), self))
update_derived_states(self.network, net, ts)
## StateBuilder::new
return StateBuilder{}
return.initial_node_states p0
return.initial_virtual_storage_states none
return.num_derived_metrics none
return.num_edges p1
return.num_inter_network_values none
return.num_parameters none
## StateBuilder::with_virtual_storage_states
return StateBuilder{}
return.initial_node_states self.initial_node_states
return.initial_virtual_storage_states p1
return.num_derived_metrics self.num_derived_metrics
return.num_edges self.num_edges
return.num_inter_network_values self.num_inter_network_values
return.num_parameters self.num_parameters
## StateBuilder::with_parameters
return StateBuilder{}
return.initial_node_states self.initial_node_states
return.initial_virtual_storage_states self.initial_virtual_storage_states
return.num_derived_metrics self.num_derived_metrics
return.num_edges self.num_edges
return.num_inter_network_values self.num_inter_network_values
return.num_parameters size(p1)
## StateBuilder::with_derived_metrics
return StateBuilder{}
return.initial_node_states self.initial_node_states
return.initial_virtual_storage_states self.initial_virtual_storage_states
return.num_derived_metrics p1
return.num_edges self.num_edges
return.num_inter_network_values self.num_inter_network_values
return.num_parameters self.num_parameters
## StateBuilder::with_inter_network_transfers
return StateBuilder{}
return.initial_node_states self.initial_node_states
return.initial_virtual_storage_states self.initial_virtual_storage_states
return.num_derived_metrics self.num_derived_metrics
return.num_edges self.num_edges
return.num_inter_network_values p1
return.num_parameters self.num_parameters
## StateBuilder::build
return State{}
return.inter_network_values from_elem(0, 0)
    self.num_inter_network_values is None
return.inter_network_values from_elem(0, self.num_inter_network_values)
    self.num_inter_network_values is Some
return.network new(self.initial_node_states, self.num_edges, default())
    self.initial_virtual_storage_states is None
return.network new(self.initial_node_states, self.num_edges, self.initial_virtual_storage_states)
    self.initial_virtual_storage_states is Some
return.parameters_constant ParameterValues{}
return.parameters_constant.indices from_elem(0, 0)
    self.num_parameters is None
return.parameters_constant.indices from_elem(0, self.num_parameters.const_u64)
    self.num_parameters is Some
return.parameters_constant.multi_values from_elem(default(), 0)
    self.num_parameters is None
return.parameters_constant.multi_values from_elem(default(), self.num_parameters.const_multi)
    self.num_parameters is Some
return.parameters_constant.values from_elem(0, 0)
    self.num_parameters is None
return.parameters_constant.values from_elem(0, self.num_parameters.const_f64)
    self.num_parameters is Some
return.parameters_general_after ParameterValues{}
return.parameters_general_after.indices from_elem(0, 0)
    self.num_parameters is None
return.parameters_general_after.indices from_elem(0, self.num_parameters.general_after_u64)
    self.num_parameters is Some
return.parameters_general_after.multi_values from_elem(default(), 0)
    self.num_parameters is None
return.parameters_general_after.multi_values from_elem(default(), self.num_parameters.general_after_multi)
    self.num_parameters is Some
return.parameters_general_after.values from_elem(0, 0)
    self.num_parameters is None
return.parameters_general_after.values from_elem(0, self.num_parameters.general_after_f64)
    self.num_parameters is Some
return.parameters_general_before ParameterValues{}
return.parameters_general_before.indices from_elem(0, 0)
    self.num_parameters is None
return.parameters_general_before.indices from_elem(0, self.num_parameters.general_before_u64)
    self.num_parameters is Some
return.parameters_general_before.multi_values from_elem(default(), 0)
    self.num_parameters is None
return.parameters_general_before.multi_values from_elem(default(), self.num_parameters.general_before_multi)
    self.num_parameters is Some
return.parameters_general_before.values from_elem(0, 0)
    self.num_parameters is None
return.parameters_general_before.values from_elem(0, self.num_parameters.general_before_f64)
    self.num_parameters is Some
return.parameters_simple ParameterValues{}
return.parameters_simple.indices from_elem(0, 0)
    self.num_parameters is None
return.parameters_simple.indices from_elem(0, self.num_parameters.simple_u64)
    self.num_parameters is Some
return.parameters_simple.multi_values from_elem(default(), 0)
    self.num_parameters is None
return.parameters_simple.multi_values from_elem(default(), self.num_parameters.simple_multi)
    self.num_parameters is Some
return.parameters_simple.values from_elem(0, 0)
    self.num_parameters is None
return.parameters_simple.values from_elem(0, self.num_parameters.simple_f64)
    self.num_parameters is Some
