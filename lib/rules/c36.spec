## MultiNetworkModel::new
return MultiNetworkModel{}
return.domain p0
return.networks new()
## MultiNetworkModel::domain
return self.domain
## MultiNetworkModel::network
return none
    self.networks[p1] is None
return self.networks[p1].network
    self.networks[p1] is Some
## MultiNetworkModel::network_mut
return none
    self.networks[p1] is None
return self.networks[p1].network
    self.networks[p1] is Some
## MultiNetworkModel::get_network_index_by_name
leave loop early()
    Eq(elem(self.networks).name, p1)
return idx(self.networks)
    Eq(elem(self.networks).name, p1)
return none
    !Eq(elem(self.networks).name, p1)
## MultiNetworkModel::setup
return MultiNetworkModelState{}
return.current_time_step_idx 0
return.recorder_states list
return.recorder_states[] list(setup(elem(elem(self.networks).network.recorders).0, self.domain, elem(self.networks).network))
    for each(self.networks)
return.solvers list
return.solvers[] setup_solver(elem(self.networks).network, self.domain.scenario.indices, setup_network(elem(self.networks).network, self.domain.time.timesteps, self.domain.scenario.indices, len(elem(self.networks).transfers)), p1)
return.states list
return.states[] setup_network(elem(self.networks).network, self.domain.time.timesteps, self.domain.scenario.indices, len(elem(self.networks).transfers))
## MultiNetworkModel::setup_multi_scenario
return MultiNetworkModelState{}
return.current_time_step_idx 0
return.recorder_states list
return.recorder_states[] list(setup(elem(elem(self.networks).network.recorders).0, self.domain, elem(self.networks).network))
    for each(self.networks)
return.solvers list
return.solvers[] setup_multi_scenario_solver(elem(self.networks).network, self.domain.scenario.indices, p1)
return.states list
return.states[] setup_network(elem(self.networks).network, self.domain.time.timesteps, self.domain.scenario.indices, len(elem(self.networks).transfers))
## MultiNetworkModel::finalise
finalise(elem(self.networks).network, self.domain.scenario.indices, elem(p1.states).metric_set_internal_states, elem(p1.recorder_states))
finish(p2)
print_summary_statistics(p2, self.networks)
return MultiNetworkModelResult{}
return.network_results list
return.network_results[] (elem(self.networks).name, finalise(elem(self.networks).network, self.domain.scenario.indices, elem(p1.states).metric_set_internal_states, elem(p1.recorder_states)))
return.timings p2
## MultiNetworkModel::finalise_multi_scenario
finalise(elem(self.networks).network, self.domain.scenario.indices, elem(p1.states).metric_set_internal_states, elem(p1.recorder_states))
finish(p2)
print_summary_statistics(p2, self.networks)
return MultiNetworkModelResult{}
return.network_results list
return.network_results[] (elem(self.networks).name, finalise(elem(self.networks).network, self.domain.scenario.indices, elem(p1.states).metric_set_internal_states, elem(p1.recorder_states)))
return.timings p2
## MultiNetworkModel::run
return finalise(self, setup(self, p1), MultiNetworkModelTimings{network_timings: list((elem(self.networks).name, NetworkTimings{component_timings: ComponentTimings{parameters: ParameterTimings{general_f64: from_elem(default(), len(elem(self.networks).network.parameters.general_f64)), general_multi: from_elem(default(), len(elem(self.networks).network.parameters.general_multi)), general_u64: from_elem(default(), len(elem(self.networks).network.parameters.general_u64)), id: elem(self.networks).network.parameters.id}, total: default()}, recorder_saving: core::time::Duration::ZERO, solve: default()})), run_duration: Running{started: now(), timesteps_completed: 0}})
run_with_state(self, setup(self, p1), p1, MultiNetworkModelTimings{network_timings: list((elem(self.networks).name, NetworkTimings{component_timings: ComponentTimings{parameters: ParameterTimings{general_f64: from_elem(default(), len(elem(self.networks).network.parameters.general_f64)), general_multi: from_elem(default(), len(elem(self.networks).network.parameters.general_multi)), general_u64: from_elem(default(), len(elem(self.networks).network.parameters.general_u64)), id: elem(self.networks).network.parameters.id}, total: default()}, recorder_saving: core::time::Duration::ZERO, solve: default()})), run_duration: Running{started: now(), timesteps_completed: 0}})
## MultiNetworkModel::run_with_state
[accepts]
    !parallel(p2); err(step(self, p1, none, p3)) is EndOfTimesteps
    err(step(self, p1, build(num_threads(new(), threads(p2))), p3)) is EndOfTimesteps; parallel(p2)
complete_scenarios(p3.run_duration, len(self.domain.scenario.indices))
    !parallel(p2); step(self, p1, none, p3) is Ok
    parallel(p2); step(self, p1, build(num_threads(new(), threads(p2))), p3) is Ok
step(self, p1, build(num_threads(new(), threads(p2))), p3)
    parallel(p2)
step(self, p1, none, p3)
    !parallel(p2)
## MultiNetworkModel::run_multi_scenario
return finalise_multi_scenario(self, setup_multi_scenario(self, p1), MultiNetworkModelTimings{network_timings: list((elem(self.networks).name, NetworkTimings{component_timings: ComponentTimings{parameters: ParameterTimings{general_f64: from_elem(default(), len(elem(self.networks).network.parameters.general_f64)), general_multi: from_elem(default(), len(elem(self.networks).network.parameters.general_multi)), general_u64: from_elem(default(), len(elem(self.networks).network.parameters.general_u64)), id: elem(self.networks).network.parameters.id}, total: default()}, recorder_saving: core::time::Duration::ZERO, solve: default()})), run_duration: Running{started: now(), timesteps_completed: 0}})
run_multi_scenario_with_state(self, setup_multi_scenario(self, p1), p1, MultiNetworkModelTimings{network_timings: list((elem(self.networks).name, NetworkTimings{component_timings: ComponentTimings{parameters: ParameterTimings{general_f64: from_elem(default(), len(elem(self.networks).network.parameters.general_f64)), general_multi: from_elem(default(), len(elem(self.networks).network.parameters.general_multi)), general_u64: from_elem(default(), len(elem(self.networks).network.parameters.general_u64)), id: elem(self.networks).network.parameters.id}, total: default()}, recorder_saving: core::time::Duration::ZERO, solve: default()})), run_duration: Running{started: now(), timesteps_completed: 0}})
## MultiNetworkModel::run_multi_scenario_with_state
[accepts]
    !parallel(p2); err(step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3)) is EndOfTimesteps
    err(step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3)) is EndOfTimesteps; parallel(p2)
complete_scenarios(p3.run_duration, len(self.domain.scenario.indices))
    !parallel(p2); step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3) is Ok
    parallel(p2); step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3) is Ok
step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3)
    !parallel(p2)
step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3)
    parallel(p2)
## ModelState<S>::network_state
return self.state
## ModelState<S>::network_state_mut
return self.state
## ModelState<S>::recorder_state
return self.recorder_state
## Model::new
return Model{}
return.domain p0
return.network net
## Model::domain
return self.domain
## Model::network
return self.network
## Model::network_mut
return self.network
## Model::setup
return ModelState{}
return.current_time_step_idx 0
return.recorder_state list
return.recorder_state[] setup(elem(self.network.recorders).0, self.domain, self.network)
return.solvers setup_solver(self.network, self.domain.scenario.indices, setup_network(self.network, self.domain.time.timesteps, self.domain.scenario.indices, 0), p1)
return.state setup_network(self.network, self.domain.time.timesteps, self.domain.scenario.indices, 0)
## Model::setup_multi_scenario
return ModelState{}
return.current_time_step_idx 0
return.recorder_state list
return.recorder_state[] setup(elem(self.network.recorders).0, self.domain, self.network)
return.solvers setup_multi_scenario_solver(self.network, self.domain.scenario.indices, p1)
return.state setup_network(self.network, self.domain.time.timesteps, self.domain.scenario.indices, 0)
## Model::finalise
finalise(self.network, self.domain.scenario.indices, p1.state.metric_set_internal_states, p1.recorder_state)
finish(p2)
print_summary_statistics(p2, self.network)
return ModelResult{}
return.domain self.domain
return.network_result finalise(self.network, self.domain.scenario.indices, p1.state.metric_set_internal_states, p1.recorder_state)
return.timings p2
## Model::finalise_multi_scenario
finalise(self.network, self.domain.scenario.indices, p1.state.metric_set_internal_states, p1.recorder_state)
finish(p2)
print_summary_statistics(p2, self.network)
return ModelResult{}
return.domain self.domain
return.network_result finalise(self.network, self.domain.scenario.indices, p1.state.metric_set_internal_states, p1.recorder_state)
return.timings p2
## Model::run
return finalise(self, setup(self, p1), new_with_component_timings(self.network))
run_with_state(self, setup(self, p1), p1, new_with_component_timings(self.network))
## Model::run_with_state
[accepts]
    !parallel(p2); err(step(self, p1, none, p3.network_timings)) is EndOfTimesteps
    err(step(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings)) is EndOfTimesteps; parallel(p2)
complete_scenarios(p3.run_duration, len(self.domain.scenario.indices))
    !parallel(p2); step(self, p1, none, p3.network_timings) is Ok
    parallel(p2); step(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings) is Ok
step(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings)
    parallel(p2)
step(self, p1, none, p3.network_timings)
    !parallel(p2)
## Model::run_multi_scenario
return finalise_multi_scenario(self, setup_multi_scenario(self, p1), new_with_component_timings(self.network))
run_multi_scenario_with_state(self, setup_multi_scenario(self, p1), p1, new_with_component_timings(self.network))
## Model::run_multi_scenario_with_state
[accepts]
    !parallel(p2); err(step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3.network_timings)) is EndOfTimesteps
    err(step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings)) is EndOfTimesteps; parallel(p2)
complete_scenarios(p3.run_duration, len(self.domain.scenario.indices))
    !parallel(p2); step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3.network_timings) is Ok
    parallel(p2); step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings) is Ok
step_multi_scenario(self, p1, build(num_threads(new(), 1)), p3.network_timings)
    !parallel(p2)
step_multi_scenario(self, p1, build(num_threads(new(), threads(p2))), p3.network_timings)
    parallel(p2)
## ModelBuilder::new
return ModelBuilder{}
return.domain p0
return.network p1
## ModelBuilder::network_builder
return self.network
## ModelBuilder::build
return Model{}
return.domain self.domain
return.network build(self.network, self.domain, new()).0
## NetworkResult::len
return len(self.results)
## NetworkResult::is_empty
return false
    !Lt(len(self.results), 1)
return true
    Lt(len(self.results), 1)
## NetworkResult::get
return none
    self.results[p1] is None
return self.results[p1]
    self.results[p1] is Some
## NetworkResult::get_aggregated_value
return none
    self.results[p1] is None
return ok(aggregated_value(self.results[p1].0))
    self.results[p1] is Some
## NetworkResult::output_names
return self.results
## Network::setup_network
compute_const(self.parameters, elem(p2), build(StateBuilder{initial_node_states: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).initial_node_states, initial_virtual_storage_states: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).initial_virtual_storage_states, num_derived_metrics: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_derived_metrics, num_edges: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_edges, num_inter_network_values: p3, num_parameters: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_parameters}), ParameterStates{constant: ParameterStatesByType{f64: list(setup(elem(self.parameters.constant_f64).0, p1, elem(p2))), multi: list(setup(elem(self.parameters.constant_multi).0, p1, elem(p2))), u64: list(setup(elem(self.parameters.constant_u64).0, p1, elem(p2)))}, general: ParameterStatesByType{f64: list(setup(elem(self.parameters.general_f64).parameter, p1, elem(p2))), multi: list(setup(elem(self.parameters.general_multi).parameter, p1, elem(p2))), u64: list(setup(elem(self.parameters.general_u64).parameter, p1, elem(p2)))}, simple: ParameterStatesByType{f64: list(setup(elem(self.parameters.simple_f64).0, p1, elem(p2))), multi: list(setup(elem(self.parameters.simple_multi).0, p1, elem(p2))), u64: list(setup(elem(self.parameters.simple_u64).0, p1, elem(p2)))}})
return NetworkState{}
return.metric_set_internal_states list
return.metric_set_internal_states[] list(setup(elem(self.metric_sets)))
    for each(p2)
return.parameter_internal_states list
return.parameter_internal_states[] ParameterStates{constant: ParameterStatesByType{f64: list(setup(elem(self.parameters.constant_f64).0, p1, elem(p2))), multi: list(setup(elem(self.parameters.constant_multi).0, p1, elem(p2))), u64: list(setup(elem(self.parameters.constant_u64).0, p1, elem(p2)))}, general: ParameterStatesByType{f64: list(setup(elem(self.parameters.general_f64).parameter, p1, elem(p2))), multi: list(setup(elem(self.parameters.general_multi).parameter, p1, elem(p2))), u64: list(setup(elem(self.parameters.general_u64).parameter, p1, elem(p2)))}, simple: ParameterStatesByType{f64: list(setup(elem(self.parameters.simple_f64).0, p1, elem(p2))), multi: list(setup(elem(self.parameters.simple_multi).0, p1, elem(p2))), u64: list(setup(elem(self.parameters.simple_u64).0, p1, elem(p2)))}}
return.states list
return.states[] build(StateBuilder{initial_node_states: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).initial_node_states, initial_virtual_storage_states: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).initial_virtual_storage_states, num_derived_metrics: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_derived_metrics, num_edges: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_edges, num_inter_network_values: p3, num_parameters: with_parameters(StateBuilder{initial_node_states: list(default_state(elem(self.nodes))), initial_virtual_storage_states: list(default_state(elem(self.virtual_storage_nodes))), num_derived_metrics: none, num_edges: len(self.edges), num_inter_network_values: none, num_parameters: none}, self.parameters).num_parameters})
    for each(p2)
## Network::setup_recorders
return list
return[] setup(elem(self.recorders).0, p1, self)
## Network::setup_solver
[accepts]
    !ignore_feature_requirements(p3); check_solver_features(self)
    ignore_feature_requirements(p3)
return list
return[] setup(self, ConstParameterValues{constant: ParameterValuesRef{indices: netstate.states[elem(p1).core.index].parameters_constant.indices, multi_values: netstate.states[elem(p1).core.index].parameters_constant.multi_values, values: netstate.states[elem(p1).core.index].parameters_constant.values}}, p3)
## Network::setup_multi_scenario_solver
[accepts]
    !ignore_feature_requirements(p2); check_multi_scenario_solver_features(self)
    ignore_feature_requirements(p2)
return setup(self, len(p1), p2)
## Network::finalise
finalise(elem(self.metric_sets), elem(elem(p2)))
return NetworkResult{results: new(list((name(elem(self.recorders).0), finalise(elem(self.recorders).0, self, p1, p2, elem(p3))) if finalise(elem(self.recorders).0, self, p1, p2, elem(p3)) is Ok & finalise(elem(self.recorders).0, self, p1, p2, elem(p3)) is Ok & finalise(elem(self.recorders).0, self, p1, p2, elem(p3)) is Some))}
## UnresolvedEdge::new
return UnresolvedEdge{}
return.from p0
return.to p1
## <NodeIndex as Deref>::deref
return self.0
## <EdgeIndex as Deref>::deref
return self.0
## <AggregatedNodeIndex as Deref>::deref
return self.0
## <AggregatedStorageNodeIndex as Deref>::deref
return self.0
## <VirtualStorageIndex as Deref>::deref
return self.0
## RecorderIndex::new
return RecorderIndex{0: p0}
## <RecorderIndex as Deref>::deref
return self.0
## MetricSetIndex::new
return MetricSetIndex{0: p0}
## <MetricSetIndex as Deref>::deref
return self.0
## ResolutionMaps::new
return ResolutionMaps{}
return.aggregated_nodes new()
return.aggregated_storage_nodes new()
return.domain p0
return.edges new()
return.incoming_edges new()
return.inter_network_transfers new()
return.metric_sets new()
return.nodes new()
return.outgoing_edges new()
return.parameters_f64 new()
return.parameters_multi new()
return.parameters_u64 new()
return.virtual_storage_associated_nodes new()
return.virtual_storage_node new()
