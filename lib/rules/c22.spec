## RunDuration::start
return Running{}
return.started now()
return.timesteps_completed 0
## RunDuration::complete_scenarios
self~Running.timesteps_completed := (p1 +self~Running.timesteps_completed)
    self is Running
## RunDuration::finish
return Finished{}
    self is Running
return self
    self is Finished
return.duration elapsed(self~Running.started)
    self is Running
return.timesteps_completed self~Running.timesteps_completed
    self is Running
## ComponentType::name
return name(net.nodes[self~Node.0.0])
    self is Node
return name(net.parameters.general_f64[self~Parameter.0~Parameter.0.idx].parameter)
    self is Parameter; self~Parameter.0 is Parameter
return name(net.parameters.general_multi[self~Parameter.0~Multi.0.idx].parameter)
    self is Parameter; self~Parameter.0 is Multi
return name(net.parameters.general_u64[self~Parameter.0~Index.0.idx].parameter)
    self is Parameter; self~Parameter.0 is Index
return net.virtual_storage_nodes[self~VirtualStorageNode.0.0].meta.name
    self is VirtualStorageNode
## NetworkState::state
return self.states[scen.core.index]
## NetworkState::state_mut
return self.states[scen.core.index]
## NetworkState::parameter_states
return self.parameter_internal_states[scen.core.index]
## NetworkState::parameter_states_mut
return self.parameter_internal_states[scen.core.index]
## NetworkState::iter_parameter_states
return self.parameter_internal_states
## NetworkState::iter_parameter_states_mut
return self.parameter_internal_states
## NetworkState::all_metric_set_internal_states_mut
return self.metric_set_internal_states
## Network::nodes
return self.nodes
## Network::edges
return self.edges
## Network::recorders
return self.recorders
## Network::aggregated_nodes
return self.aggregated_nodes
## Network::aggregated_storage_nodes
return self.aggregated_storage_nodes
## Network::virtual_storage_nodes
return self.virtual_storage_nodes
## Network::save_recorders
p5.recorder_saving := (elapsed(now()) +p5.recorder_saving)
save(elem(self.recorders).0, ts, p2, self, netstate.states, netstate.metric_set_internal_states, elem(p4))
## Network::get_edge
return self.edges[p1.0]
## Network::get_edge_index
leave loop early()
    Eq(elem(self.edges).from_node_index, p1); Eq(elem(self.edges).to_node_index, p2)
return elem(self.edges).index
    Eq(elem(self.edges).from_node_index, p1); Eq(elem(self.edges).to_node_index, p2)
return none
    !Eq(elem(self.edges).from_node_index, p1)
    !Eq(elem(self.edges).to_node_index, p2); Eq(elem(self.edges).from_node_index, p1)
## Network::get_node_index_by_name
return index(get_node_by_name(self, p1, p2))
    get_node_by_name(self, p1, p2) is Some
return none
    get_node_by_name(self, p1, p2) is None
## Network::get_node
return self.nodes[p1.0]
## Network::get_node_mut
return self.nodes[p1.0]
## Network::get_node_by_name
leave loop early()
    Eq((p1, p2), full_name(elem(self.nodes)))
return elem(self.nodes)
    Eq((p1, p2), full_name(elem(self.nodes)))
return none
    !Eq((p1, p2), full_name(elem(self.nodes)))
## Network::get_mut_node_by_name
leave loop early()
    Eq((p1, p2), full_name(elem(self.nodes)))
return elem(self.nodes)
    Eq((p1, p2), full_name(elem(self.nodes)))
return none
    !Eq((p1, p2), full_name(elem(self.nodes)))
## Network::get_aggregated_node
return self.aggregated_nodes[p1.0]
## Network::get_aggregated_node_by_name
leave loop early()
    Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
return elem(self.aggregated_nodes)
    Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
## Network::get_mut_aggregated_node_by_name
leave loop early()
    Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
return elem(self.aggregated_nodes)
    Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.aggregated_nodes).meta.name, elem(self.aggregated_nodes).meta.sub_name), (p1, p2))
## Network::get_aggregated_node_index_by_name
return get_aggregated_node_by_name(self, p1, p2).meta.index
    get_aggregated_node_by_name(self, p1, p2) is Some
return none
    get_aggregated_node_by_name(self, p1, p2) is None
## Network::get_aggregated_storage_node
return self.aggregated_storage_nodes[p1.0]
## Network::get_aggregated_storage_node_by_name
leave loop early()
    Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
return elem(self.aggregated_storage_nodes)
    Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
## Network::get_aggregated_storage_node_index_by_name
return get_aggregated_storage_node_by_name(self, p1, p2).meta.index
    get_aggregated_storage_node_by_name(self, p1, p2) is Some
return none
    get_aggregated_storage_node_by_name(self, p1, p2) is None
## Network::get_mut_aggregated_storage_node_by_name
leave loop early()
    Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
return elem(self.aggregated_storage_nodes)
    Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.aggregated_storage_nodes).meta.name, elem(self.aggregated_storage_nodes).meta.sub_name), (p1, p2))
## Network::get_virtual_storage_node
return self.virtual_storage_nodes[p1.0]
## Network::get_virtual_storage_node_by_name
leave loop early()
    Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
return elem(self.virtual_storage_nodes)
    Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
## Network::get_mut_virtual_storage_node_by_name
leave loop early()
    Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
return elem(self.virtual_storage_nodes)
    Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
return none
    !Eq((elem(self.virtual_storage_nodes).meta.name, elem(self.virtual_storage_nodes).meta.sub_name), (p1, p2))
## Network::get_virtual_storage_node_index_by_name
return get_virtual_storage_node_by_name(self, p1, p2).meta.index
    get_virtual_storage_node_by_name(self, p1, p2) is Some
return none
    get_virtual_storage_node_by_name(self, p1, p2) is None
## Network::get_parameter
return get_f64(self.parameters, p1)
## Network::get_parameter_by_name
return get_f64_by_name(self.parameters, p1)
## Network::get_parameter_index_by_name
return get_f64_index_by_name(self.parameters, p1)
## Network::get_index_parameter
return get_u64(self.parameters, p1)
## Network::get_index_parameter_by_name
return get_u64_by_name(self.parameters, p1)
## Network::get_index_parameter_index_by_name
return get_u64_index_by_name(self.parameters, p1)
## Network::get_multi_valued_parameter
return get_multi(self.parameters, p1)
## Network::get_multi_valued_parameter_index_by_name
return get_multi_index_by_name(self.parameters, p1)
## Network::get_recorder_by_name
leave loop early()
    Eq(name(elem(self.recorders).0), p1)
return elem(self.recorders)
    Eq(name(elem(self.recorders).0), p1)
return none
    !Eq(name(elem(self.recorders).0), p1)
## Network::get_recorder_index_by_name
leave loop early()
    Eq(name(elem(self.recorders).0), p1)
return RecorderIndex{0: idx(self.recorders)}
    Eq(name(elem(self.recorders).0), p1)
return none
    !Eq(name(elem(self.recorders).0), p1)
## Network::add_metric_set
[accepts]
    get_metric_set_by_name(self, p1.name) is Err
push(self.metric_sets, p1)
return MetricSetIndex{0: len(self.metric_sets)}
## Network::get_metric_set
return self.metric_sets[p1.0]
## Network::get_metric_set_by_name
[accepts]
    Eq(elem(self.metric_sets).name, p1)
[success]
    Eq(elem(self.metric_sets).name, p1)
leave loop early()
return elem(self.metric_sets)
## Network::get_metric_set_index_by_name
[accepts]
    Eq(elem(self.metric_sets).name, p1)
[success]
    Eq(elem(self.metric_sets).name, p1)
leave loop early()
return MetricSetIndex{0: idx(self.metric_sets)}
## NetworkBuilder::node
push(self.nodes, p1)
return self
## NetworkBuilder::node_builder
leave loop early()
    Eq(elem(self.nodes).name, p1)
return elem(self.nodes)
    Eq(elem(self.nodes).name, p1)
return none
    !Eq(elem(self.nodes).name, p1)
## NetworkBuilder::virtual_storage_node
push(self.virtual_storage_nodes, p1)
return self
## NetworkBuilder::connect
push(self.edges, UnresolvedEdge{from: p1, to: p2})
return self
## NetworkBuilder::agg_node
push(self.aggregated_nodes, p1)
return self
## NetworkBuilder::agg_storage_node
push(self.aggregated_storage_nodes, p1)
return self
## NetworkBuilder::parameters
return self.parameters
## NetworkBuilder::recorder
push(self.recorders, p1)
return self
## NetworkBuilder::metric_set
push(self.metric_sets, p1)
return self
## NetworkBuilder::build_resolution_map
[accepts]
    !Eq(list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).from], list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).to]); !contains_key(list((elem(self.aggregated_nodes).name, AggregatedNodeIndex{0: idx(self.aggregated_nodes)})), elem(self.aggregated_nodes).name); !contains_key(list((elem(self.aggregated_storage_nodes).name, AggregatedStorageNodeIndex{0: idx(self.aggregated_storage_nodes)})), elem(self.aggregated_storage_nodes).name); !contains_key(list((elem(self.edges), EdgeIndex{0: idx(self.edges)})), elem(self.edges)); !contains_key(list((elem(self.metric_sets).name, MetricSetIndex{0: idx(self.metric_sets)})), elem(self.metric_sets).name); !contains_key(list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)})), elem(self.nodes).name); !contains_key(list((elem(self.virtual_storage_nodes).name, VirtualStorageIndex{0: idx(self.virtual_storage_nodes)})), elem(self.virtual_storage_nodes).name)
entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(elem(self.virtual_storage_nodes).nodes)])
entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).from])
entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).to])
push(or_default(entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(elem(self.virtual_storage_nodes).nodes)])), VirtualStorageIndex{0: idx(self.virtual_storage_nodes)})
push(or_default(entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).from])), EdgeIndex{0: idx(self.edges)})
push(or_default(entry(new(), list((elem(self.nodes).name, NodeIndex{0: idx(self.nodes)}))[elem(self.edges).to])), EdgeIndex{0: idx(self.edges)})
return ResolutionMaps{}
return.aggregated_nodes list
return.aggregated_nodes[] (elem(self.aggregated_nodes).name, AggregatedNodeIndex{0: idx(self.aggregated_nodes)})
return.aggregated_storage_nodes list
return.aggregated_storage_nodes[] (elem(self.aggregated_storage_nodes).name, AggregatedStorageNodeIndex{0: idx(self.aggregated_storage_nodes)})
return.domain p1
return.edges list
return.edges[] (elem(self.edges), EdgeIndex{0: idx(self.edges)})
return.incoming_edges new()
return.inter_network_transfers p2
return.metric_sets list
return.metric_sets[] (elem(self.metric_sets).name, MetricSetIndex{0: idx(self.metric_sets)})
return.nodes list
return.nodes[] (elem(self.nodes).name, NodeIndex{0: idx(self.nodes)})
return.outgoing_edges new()
return.parameters_f64 new()
return.parameters_multi new()
return.parameters_u64 new()
return.virtual_storage_associated_nodes new()
return.virtual_storage_node list
return.virtual_storage_node[] (elem(self.virtual_storage_nodes).name, VirtualStorageIndex{0: idx(self.virtual_storage_nodes)})
## NetworkBuilder::build
build(self.parameters, build_resolution_map(self, p1, p2))
return.0 Network{}
return.0.aggregated_nodes list
return.0.aggregated_nodes[] build(elem(self.aggregated_nodes), build_resolution_map(self, p1, p2))
return.0.aggregated_storage_nodes list
return.0.aggregated_storage_nodes[] AggregatedStorageNode{meta: NodeMeta{index: build_resolution_map(self, p1, p2).aggregated_storage_nodes[elem(self.aggregated_storage_nodes).name], name: elem(self.aggregated_storage_nodes).name.name, sub_name: elem(self.aggregated_storage_nodes).name.sub_name}, nodes: list(build_resolution_map(self, p1, p2).nodes[elem(elem(self.aggregated_storage_nodes).nodes)])}
return.0.edges list
return.0.edges[] Edge{from_node_index: build_resolution_map(self, p1, p2).nodes[elem(self.edges).from], index: EdgeIndex{0: idx(self.edges)}, to_node_index: build_resolution_map(self, p1, p2).nodes[elem(self.edges).to]}
return.0.metric_sets list
return.0.metric_sets[] MetricSet{aggregator: elem(self.metric_sets).aggregator, metrics: list(OutputMetric{attribute: elem(elem(self.metric_sets).metrics).attribute, metric: resolve(elem(elem(self.metric_sets).metrics).metric, build_resolution_map(self, p1, p2), After), name: elem(elem(self.metric_sets).metrics).name, sub_type: elem(elem(self.metric_sets).metrics).sub_type, ty: elem(elem(self.metric_sets).metrics).ty}), name: elem(self.metric_sets).name}
return.0.nodes list
return.0.nodes[] build(elem(self.nodes), build_resolution_map(self, p1, p2))
return.0.parameters build(self.parameters, build_resolution_map(self, p1, p2))
return.0.recorders list
return.0.recorders[] build(elem(self.recorders), build_resolution_map(self, p1, p2))
return.0.virtual_storage_nodes list
return.0.virtual_storage_nodes[] build(elem(self.virtual_storage_nodes), build_resolution_map(self, p1, p2))
return.1 build_resolution_map(self, p1, p2)
## NodeBuilder::name @core
return self.name
## NodeBuilder::input
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name p0
return.node_type Input
## NodeBuilder::output
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name p0
return.node_type Output
## NodeBuilder::link
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name p0
return.node_type Link
## NodeBuilder::storage
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name p0
return.node_type Storage
## NodeBuilder::new @core
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name p0
return.node_type p1
## NodeBuilder::sub_name
return self
self.name.sub_name := p1
## NodeBuilder::cost
return self
self.cost := p1
## NodeBuilder::cost_agg_func
return self
self.cost_agg_func := p1
## NodeBuilder::min_flow
return self
self.min_flow := p1
## NodeBuilder::max_flow
return self
self.max_flow := p1
## NodeBuilder::initial_volume
return self
self.initial_volume := p1
## NodeBuilder::max_volume
return self
self.max_volume := p1
## NodeBuilder::min_volume
return self
self.min_volume := p1
## NodeBuilder::build_cost
return NodeCost{}
return.agg_func self.cost_agg_func
return.local 0
    self.cost is None
return.local resolve(self.cost, p1, Before)
    self.cost is Some
return.virtual_storage_nodes default()
    p1.virtual_storage_associated_nodes[p1.nodes[self.name]] is None
return.virtual_storage_nodes p1.virtual_storage_associated_nodes[p1.nodes[self.name]]
    p1.virtual_storage_associated_nodes[p1.nodes[self.name]] is Some
## NodeBuilder::build_flow_constraints
return FlowConstraints{}
return.max_flow none
    self.max_flow is None
return.max_flow resolve(self.max_flow, p1, Before)
    self.max_flow is Some
return.min_flow none
    self.min_flow is None
return.min_flow resolve(self.min_flow, p1, Before)
    self.min_flow is Some
## NodeBuilder::build_storage_constraints
return StorageConstraints{}
return.max_volume none
    self.max_volume is None
return.max_volume try_into(resolve(self.max_volume, p1, Before))
    self.max_volume is Some
return.min_volume none
    self.min_volume is None
return.min_volume try_into(resolve(self.min_volume, p1, Before))
    self.min_volume is Some
## NodeBuilder::build_storage_initial_volume
return Absolute{volume: self.initial_volume~Absolute.volume}
    self.initial_volume is Absolute
return DistributedAbsolute{}
    self.initial_volume is DistributedAbsolute
return DistributedProportional{}
    self.initial_volume is DistributedProportional
return Proportional{proportion: self.initial_volume~Proportional.proportion}
    self.initial_volume is Proportional
return.absolute self.initial_volume~DistributedAbsolute.absolute
    self.initial_volume is DistributedAbsolute
return.prior_max_volume try_into(resolve(self.initial_volume~DistributedAbsolute.prior_max_volume, p1, Before))
    self.initial_volume is DistributedAbsolute
return.prior_max_volume try_into(resolve(self.initial_volume~DistributedProportional.prior_max_volume, p1, Before))
    self.initial_volume is DistributedProportional
return.proportion self.initial_volume~DistributedProportional.proportion
    self.initial_volume is DistributedProportional
return.total_volume try_into(resolve(self.initial_volume~DistributedProportional.total_volume, p1, Before))
    self.initial_volume is DistributedProportional
## NodeBuilder::build @core
[accepts]
    !Lt(len(default()), 1); !Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Link
    !Lt(len(default()), 1); !Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); p1.incoming_edges[p1.nodes[self.name]] is None; self.node_type is Link
    !Lt(len(default()), 1); Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Input
    !Lt(len(default()), 1); Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); p1.incoming_edges[p1.nodes[self.name]] is None; self.node_type is Output
    !Lt(len(default()), 1); p1.incoming_edges[p1.nodes[self.name]] is None; p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Link
    !Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); !Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); self.node_type is Link
    !Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); Lt(len(default()), 1); p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Output
    !Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); self.node_type is Output
    !Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); Lt(len(default()), 1); p1.incoming_edges[p1.nodes[self.name]] is None; self.node_type is Input
    !Lt(len(p1.outgoing_edges[p1.nodes[self.name]]), 1); Lt(len(p1.incoming_edges[p1.nodes[self.name]]), 1); self.node_type is Input
    self.node_type is Storage
return Input{0: InputNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: default()}}
    p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Input
return Input{0: InputNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: p1.outgoing_edges[p1.nodes[self.name]]}}
    p1.outgoing_edges[p1.nodes[self.name]] is Some; self.node_type is Input
return Link{0: LinkNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: default(), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: default()}}
    p1.incoming_edges[p1.nodes[self.name]] is None; p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Link
return Link{0: LinkNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: default(), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: p1.outgoing_edges[p1.nodes[self.name]]}}
    p1.incoming_edges[p1.nodes[self.name]] is None; p1.outgoing_edges[p1.nodes[self.name]] is Some; self.node_type is Link
return Link{0: LinkNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: p1.incoming_edges[p1.nodes[self.name]], meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: default()}}
    p1.incoming_edges[p1.nodes[self.name]] is Some; p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Link
return Link{0: LinkNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: p1.incoming_edges[p1.nodes[self.name]], meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: p1.outgoing_edges[p1.nodes[self.name]]}}
    p1.incoming_edges[p1.nodes[self.name]] is Some; p1.outgoing_edges[p1.nodes[self.name]] is Some; self.node_type is Link
return Output{0: OutputNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: default(), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}}}
    p1.incoming_edges[p1.nodes[self.name]] is None; self.node_type is Output
return Output{0: OutputNode{cost: build_cost(self, p1), flow_constraints: build_flow_constraints(self, p1), incoming_edges: p1.incoming_edges[p1.nodes[self.name]], meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}}}
    p1.incoming_edges[p1.nodes[self.name]] is Some; self.node_type is Output
return Storage{0: StorageNode{cost: build_cost(self, p1), incoming_edges: default(), initial_volume: build_storage_initial_volume(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: default(), storage_constraints: build_storage_constraints(self, p1)}}
    p1.incoming_edges[p1.nodes[self.name]] is None; p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Storage
return Storage{0: StorageNode{cost: build_cost(self, p1), incoming_edges: default(), initial_volume: build_storage_initial_volume(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: p1.outgoing_edges[p1.nodes[self.name]], storage_constraints: build_storage_constraints(self, p1)}}
    p1.incoming_edges[p1.nodes[self.name]] is None; p1.outgoing_edges[p1.nodes[self.name]] is Some; self.node_type is Storage
return Storage{0: StorageNode{cost: build_cost(self, p1), incoming_edges: p1.incoming_edges[p1.nodes[self.name]], initial_volume: build_storage_initial_volume(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: default(), storage_constraints: build_storage_constraints(self, p1)}}
    p1.incoming_edges[p1.nodes[self.name]] is Some; p1.outgoing_edges[p1.nodes[self.name]] is None; self.node_type is Storage
return Storage{0: StorageNode{cost: build_cost(self, p1), incoming_edges: p1.incoming_edges[p1.nodes[self.name]], initial_volume: build_storage_initial_volume(self, p1), meta: NodeMeta{index: p1.nodes[self.name], name: self.name.name, sub_name: self.name.sub_name}, outgoing_edges: p1.outgoing_edges[p1.nodes[self.name]], storage_constraints: build_storage_constraints(self, p1)}}
    p1.incoming_edges[p1.nodes[self.name]] is Some; p1.outgoing_edges[p1.nodes[self.name]] is Some; self.node_type is Storage
## Node::name @core
return self~Input.0.meta.name
    self is Input
return self~Link.0.meta.name
    self is Link
return self~Output.0.meta.name
    self is Output
return self~Storage.0.meta.name
    self is Storage
## Node::sub_name
return self~Input.0.meta.sub_name
    self is Input
return self~Link.0.meta.sub_name
    self is Link
return self~Output.0.meta.sub_name
    self is Output
return self~Storage.0.meta.sub_name
    self is Storage
## Node::full_name
return.0 self~Input.0.meta.name
    self is Input
return.0 self~Link.0.meta.name
    self is Link
return.0 self~Output.0.meta.name
    self is Output
return.0 self~Storage.0.meta.name
    self is Storage
return.1 self~Input.0.meta.sub_name
    self is Input
return.1 self~Link.0.meta.sub_name
    self is Link
return.1 self~Output.0.meta.sub_name
    self is Output
return.1 self~Storage.0.meta.sub_name
    self is Storage
## Node::index
return self~Input.0.meta.index
    self is Input
return self~Link.0.meta.index
    self is Link
return self~Output.0.meta.index
    self is Output
return self~Storage.0.meta.index
    self is Storage
## Node::node_type @core
return Input
    self is Input
return Link
    self is Link
return Output
    self is Output
return Storage
    self is Storage
## Node::apply
call(p1, self)
## Node::default_state
return Flow{0: FlowState{in_flow: 0, out_flow: 0}}
    self is Input|Link|Output
return Storage{0: StorageState{flows: FlowState{in_flow: 0, out_flow: 0}, max_volume: 0, volume: 0}}
    self is Storage
## Node::default_metric
return NodeInFlow{0: index(self)}
    self is Output
return NodeOutFlow{0: index(self)}
    self is Input|Link
return NodeVolume{0: index(self)}
    self is Storage
## Node::get_incoming_edges
[accepts]
    self is Link|Output|Storage
[success]
    self is Link|Output|Storage
return self~Link.0.incoming_edges
    self is Link
return self~Output.0.incoming_edges
    self is Output
return self~Storage.0.incoming_edges
    self is Storage
## Node::get_outgoing_edges
[accepts]
    self is Input|Link|Storage
[success]
    self is Input|Link|Storage
return self~Input.0.outgoing_edges
    self is Input
return self~Link.0.outgoing_edges
    self is Link
return self~Storage.0.outgoing_edges
    self is Storage
## Node::get_min_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return get_min_flow(self~Input.0.flow_constraints, net, state)
    self is Input
return get_min_flow(self~Link.0.flow_constraints, net, state)
    self is Link
return get_min_flow(self~Output.0.flow_constraints, net, state)
    self is Output
## Node::get_const_min_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return get_const_min_flow(self~Input.0, p1)
    self is Input
return get_const_min_flow(self~Link.0, p1)
    self is Link
return get_const_min_flow(self~Output.0, p1)
    self is Output
## Node::get_max_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return get_max_flow(self~Input.0.flow_constraints, net, state)
    self is Input
return get_max_flow(self~Link.0.flow_constraints, net, state)
    self is Link
return get_max_flow(self~Output.0.flow_constraints, net, state)
    self is Output
## Node::get_const_max_flow
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return get_const_max_flow(self~Input.0, p1)
    self is Input
return get_const_max_flow(self~Link.0, p1)
    self is Link
return get_const_max_flow(self~Output.0, p1)
    self is Output
## Node::is_max_flow_unconstrained
[accepts]
    self is Input|Link|Output
[success]
    self is Input|Link|Output
return false
    self is Input; self~Input.0.flow_constraints.max_flow is Some
    self is Link; self~Link.0.flow_constraints.max_flow is Some
    self is Output; self~Output.0.flow_constraints.max_flow is Some
return true
    self is Input; self~Input.0.flow_constraints.max_flow is None
    self is Link; self~Link.0.flow_constraints.max_flow is None
    self is Output; self~Output.0.flow_constraints.max_flow is None
## Node::get_min_volume
[accepts]
    self is Storage
return get_min_volume(self~Storage.0, state)
## Node::get_max_volume
[accepts]
    self is Storage
return get_max_volume(self~Storage.0, state)
## Node::get_volume_bounds
return.0 get_min_volume(self, state)
return.1 get_max_volume(self, state)
## Node::get_const_bounds
return Flow{0: FlowBounds{max_flow: get_const_max_flow(self~Input.0, p1), min_flow: get_const_min_flow(self~Input.0, p1)}}
    get_const_max_flow(self~Input.0, p1) is Some; get_const_min_flow(self~Input.0, p1) is Some; self is Input
return Flow{0: FlowBounds{max_flow: get_const_max_flow(self~Link.0, p1), min_flow: get_const_min_flow(self~Link.0, p1)}}
    get_const_max_flow(self~Link.0, p1) is Some; get_const_min_flow(self~Link.0, p1) is Some; self is Link
return Flow{0: FlowBounds{max_flow: get_const_max_flow(self~Output.0, p1), min_flow: get_const_min_flow(self~Output.0, p1)}}
    get_const_max_flow(self~Output.0, p1) is Some; get_const_min_flow(self~Output.0, p1) is Some; self is Output
return none
    get_const_max_flow(self~Input.0, p1) is None; get_const_min_flow(self~Input.0, p1) is Some; self is Input
    get_const_max_flow(self~Link.0, p1) is None; get_const_min_flow(self~Link.0, p1) is Some; self is Link
    get_const_max_flow(self~Output.0, p1) is None; get_const_min_flow(self~Output.0, p1) is Some; self is Output
    get_const_min_flow(self~Input.0, p1) is None; self is Input
    get_const_min_flow(self~Link.0, p1) is None; self is Link
    get_const_min_flow(self~Output.0, p1) is None; self is Output
    self is Storage
## Node::get_bounds
return Flow{0: FlowBounds{max_flow: get_max_flow(self~Input.0.flow_constraints, net, state), min_flow: get_min_flow(self~Input.0.flow_constraints, net, state)}}
    self is Input
return Flow{0: FlowBounds{max_flow: get_max_flow(self~Link.0.flow_constraints, net, state), min_flow: get_min_flow(self~Link.0.flow_constraints, net, state)}}
    self is Link
return Flow{0: FlowBounds{max_flow: get_max_flow(self~Output.0.flow_constraints, net, state), min_flow: get_min_flow(self~Output.0.flow_constraints, net, state)}}
    self is Output
return Volume{0: VolumeBounds{available: (-get_min_volume(self~Storage.0, state) +get_node_volume(state.network, self~Storage.0.meta.index)), missing: (get_max_volume(self~Storage.0, state) -get_node_volume(state.network, self~Storage.0.meta.index))}}
    self is Storage
## Node::get_outgoing_cost
return -get_cost(self~Storage.0.cost, net, state)
    self is Storage
return 0.5*get_cost(self~Link.0.cost, net, state)
    self is Link
return get_cost(self~Input.0.cost, net, state)
    self is Input
return get_cost(self~Output.0.cost, net, state)
    self is Output
## Node::get_incoming_cost
return 0.5*get_cost(self~Link.0.cost, net, state)
    self is Link
return get_cost(self~Input.0.cost, net, state)
    self is Input
return get_cost(self~Output.0.cost, net, state)
    self is Output
return get_cost(self~Storage.0.cost, net, state)
    self is Storage
## <UnresolvedNode as From<&str>>::from
return UnresolvedNode{}
return.name p0
return.sub_name none
## UnresolvedNode::new
return UnresolvedNode{}
return.name p0
return.sub_name none
    p1 is None
return.sub_name p1
    p1 is Some
## UnresolvedNode::set_sub_name
self.sub_name := none
    p1 is None
self.sub_name := p1
    p1 is Some
## NodeMeta<T>::from_unresolved_name
return NodeMeta{}
return.index p1
return.name p0.name
return.sub_name p0.sub_name
## NodeMeta<T>::index
return self.index
## NodeMeta<T>::name
return self.name
## NodeMeta<T>::sub_name
return self.sub_name
## NodeMeta<T>::full_name
return.0 self.name
return.1 self.sub_name
## FlowConstraints::new
return FlowConstraints{}
return.max_flow p1
return.min_flow p0
## FlowConstraints::get_min_flow
return 0
    self.min_flow is None
return get_value(self.min_flow, net, state)
    self.min_flow is Some
## FlowConstraints::get_const_min_flow
return 0
    self.min_flow is None
return try_get_constant_value(self.min_flow, p1)
    self.min_flow is Some
## FlowConstraints::get_max_flow
return 1.79769313486e+308
    self.max_flow is None
return get_value(self.max_flow, net, state)
    self.max_flow is Some
## FlowConstraints::get_const_max_flow
return 1.79769313486e+308
    self.max_flow is None
return try_get_constant_value(self.max_flow, p1)
    self.max_flow is Some
## FlowConstraints::is_max_flow_unconstrained
return false
    self.max_flow is Some
return true
    self.max_flow is None
## StorageConstraints::new
return StorageConstraints{}
return.max_volume p1
return.min_volume p0
## StorageConstraints::get_min_volume
return 0
    self.min_volume is None
return get_value(self.min_volume, p1)
    self.min_volume is Some
## StorageConstraints::get_max_volume
return 1.79769313486e+308
    self.max_volume is None
return get_value(self.max_volume, p1)
    self.max_volume is Some
## NodeCost::get_cost
[accepts]
    self.agg_func is Max|Min|None|Sum
return (acc(0) +get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Sum; self.local is None
return (acc(get_value(self.local, net, state)) +get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Sum; self.local is Some
return 0
    self.agg_func is None; self.local is None
return get_value(self.local, net, state)
    self.agg_func is None; self.local is Some
return max(acc(0), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Max; self.local is None
return max(acc(get_value(self.local, net, state)), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Max; self.local is Some
return min(acc(0), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Min; self.local is None
return min(acc(get_value(self.local, net, state)), get_cost(net.virtual_storage_nodes[elem(self.virtual_storage_nodes).0], net, state))
    self.agg_func is Some; self.agg_func? is Min; self.local is Some
## InputNode::get_const_min_flow
return get_const_min_flow(self.flow_constraints, p1)
## InputNode::get_const_max_flow
return get_const_max_flow(self.flow_constraints, p1)
## OutputNode::get_const_min_flow
return get_const_min_flow(self.flow_constraints, p1)
## OutputNode::get_const_max_flow
return get_const_max_flow(self.flow_constraints, p1)
## LinkNode::get_const_min_flow
return get_const_min_flow(self.flow_constraints, p1)
## LinkNode::get_const_max_flow
return get_const_max_flow(self.flow_constraints, p1)
## StorageNode::get_min_volume
return get_min_volume(self.storage_constraints, get_simple_parameter_values(state))
## StorageNode::get_max_volume
return get_max_volume(self.storage_constraints, get_simple_parameter_values(state))
