## AggregatedStorageNode::name @core
return self.meta.name
## AggregatedStorageNode::sub_name
return self.meta.sub_name
## AggregatedStorageNode::full_name
return.0 self.meta.name
return.1 self.meta.sub_name
## AggregatedStorageNode::index
return self.meta.index
## AggregatedStorageNode::iter_nodes
return self.nodes
## AggregatedStorageNode::default_metric
return list
return[] NodeOutFlow{0: elem(self.nodes)}
## AggregatedStorageNodeBuilder::new
return AggregatedStorageNodeBuilder{}
return.name p0
return.nodes new()
## AggregatedStorageNodeBuilder::name
return self.name
## AggregatedStorageNodeBuilder::sub_name
return self
set_sub_name(self.name, p1)
## AggregatedStorageNodeBuilder::node
push(self.nodes, p1)
return self
## AggregatedStorageNodeBuilder::build
return AggregatedStorageNode{}
return.meta NodeMeta{}
return.meta.index p1.aggregated_storage_nodes[self.name]
return.meta.name self.name.name
return.meta.sub_name self.name.sub_name
return.nodes list
return.nodes[] p1.nodes[elem(self.nodes)]
## Edge::new
return Edge{}
return.from_node_index p1
return.index p0
return.to_node_index p2
## Edge::index
return self.index
## Edge::from_node_index
return self.from_node_index
## Edge::to_node_index
return self.to_node_index
## Edge::cost
return (get_incoming_cost(p1[self.to_node_index.0], net, state) +get_outgoing_cost(p1[self.from_node_index.0], net, state))
## Node::before
before(self~Storage.0, ts, state)
    self is Storage
## StorageInitialVolume::get_absolute_initial_volume
return min(max((-get_value(self~DistributedAbsolute.prior_max_volume, get_simple_parameter_values(state)) +self~DistributedAbsolute.absolute), 0), p1)
    self is DistributedAbsolute
return min(max((-get_value(self~DistributedProportional.prior_max_volume, get_simple_parameter_values(state)) +get_value(self~DistributedProportional.total_volume, get_simple_parameter_values(state))*self~DistributedProportional.proportion), 0), p1)
    self is DistributedProportional
return p1*self~Proportional.proportion
    self is Proportional
return self~Absolute.volume
    self is Absolute
## UnresolvedStorageInitialVolume::absolute
return Absolute{volume: p0}
## UnresolvedStorageInitialVolume::proportional
return Proportional{proportion: p0}
## UnresolvedStorageInitialVolume::distributed_absolute
return DistributedAbsolute{}
return.absolute p0
return.prior_max_volume p1
## UnresolvedStorageInitialVolume::distributed_proportional
return DistributedProportional{}
return.prior_max_volume p2
return.proportion p1
return.total_volume p0
## StorageNode::before
set_node_volume(state, self.meta.index, get_absolute_initial_volume(self.initial_volume, get_max_volume(self, state), state), get_max_volume(self, state))
    is_first(ts)
## FlowState::new
return FlowState{}
return.in_flow 0
return.out_flow 0
## FlowState::reset
self.in_flow := 0
self.out_flow := 0
## FlowState::add_in_flow
self.in_flow := (p1 +self.in_flow)
## FlowState::add_out_flow
self.out_flow := (p1 +self.out_flow)
## StorageState::new
return StorageState{}
return.flows FlowState{}
return.flows.in_flow 0
return.flows.out_flow 0
return.max_volume p1
return.volume p0
## StorageState::volume
return self.volume
## StorageState::max_volume
return self.max_volume
## StorageState::proportional_volume
return 1
    Eq(0, self.max_volume)
return self.volume/self.max_volume
    !Eq(0, self.max_volume)
## StorageState::flow_state
return self.flows
## StorageState::reset
self.flows.in_flow := 0
self.flows.out_flow := 0
## StorageState::add_in_flow
self.flows.in_flow := (p1 +self.flows.in_flow)
self.volume := (1.15740740741e-05*as_secs_f64(ts.duration.0)*p1 +self.volume)
## StorageState::add_out_flow
self.flows.out_flow := (p1 +self.flows.out_flow)
self.volume := (-1.15740740741e-05*as_secs_f64(ts.duration.0)*p1 +self.volume)
## StorageState::set_volume
self.max_volume := p2
self.volume := p1
## StorageState::finalise
self.max_volume := p2
self.volume := clamp(self.volume, p1, p2)
## NodeState::new_flow_state
return Flow{0: FlowState{in_flow: 0, out_flow: 0}}
## NodeState::new_storage_state
return Storage{0: StorageState{flows: FlowState{in_flow: 0, out_flow: 0}, max_volume: p1, volume: p0}}
## NodeState::get_in_flow
return self~Flow.0.in_flow
    self is Flow
return self~Storage.0.flows.in_flow
    self is Storage
## NodeState::get_out_flow
return self~Flow.0.out_flow
    self is Flow
return self~Storage.0.flows.out_flow
    self is Storage
## VirtualStorageState::new
return VirtualStorageState{}
return.history VirtualStorageHistory{}
    p2 is Some
return.history none
    p2 is None
return.history.flows from_elem(p0/p2, p2)
    p2 is Some
return.history.size p2
    p2 is Some
return.last_reset none
return.storage StorageState{}
return.storage.flows FlowState{}
return.storage.flows.in_flow 0
return.storage.flows.out_flow 0
return.storage.max_volume p1
return.storage.volume p0
## NetworkState::new
return NetworkState{}
return.edge_states list
return.edge_states[] default()
    for each(Range{end: p1, start: 0})
return.node_states p0
return.virtual_storage_states p2
## NetworkState::reset
elem(self.edge_states).flow := 0
elem(self.node_states)~Flow.0.in_flow := 0
    elem(self.node_states) is Flow
elem(self.node_states)~Flow.0.out_flow := 0
    elem(self.node_states) is Flow
elem(self.node_states)~Storage.0.flows.in_flow := 0
    elem(self.node_states) is Storage
elem(self.node_states)~Storage.0.flows.out_flow := 0
    elem(self.node_states) is Storage
elem(self.virtual_storage_states).storage.flows.in_flow := 0
elem(self.virtual_storage_states).storage.flows.out_flow := 0
## NetworkState::add_flow
self.edge_states[p1.index.0].flow := (p3 +self.edge_states[p1.index.0].flow)
self.node_states[p1.from_node_index.0]~Flow.0.out_flow := (p3 +self.node_states[p1.from_node_index.0]~Flow.0.out_flow)
    self.node_states[p1.from_node_index.0] is Flow
self.node_states[p1.from_node_index.0]~Storage.0.flows.out_flow := (p3 +self.node_states[p1.from_node_index.0]~Storage.0.flows.out_flow)
    self.node_states[p1.from_node_index.0] is Storage
self.node_states[p1.from_node_index.0]~Storage.0.volume := (-1.15740740741e-05*as_secs_f64(ts.duration.0)*p3 +self.node_states[p1.from_node_index.0]~Storage.0.volume)
    self.node_states[p1.from_node_index.0] is Storage
self.node_states[p1.to_node_index.0]~Flow.0.in_flow := (p3 +self.node_states[p1.to_node_index.0]~Flow.0.in_flow)
    self.node_states[p1.to_node_index.0] is Flow
self.node_states[p1.to_node_index.0]~Storage.0.flows.in_flow := (p3 +self.node_states[p1.to_node_index.0]~Storage.0.flows.in_flow)
    self.node_states[p1.to_node_index.0] is Storage
self.node_states[p1.to_node_index.0]~Storage.0.volume := (1.15740740741e-05*as_secs_f64(ts.duration.0)*p3 +self.node_states[p1.to_node_index.0]~Storage.0.volume)
    self.node_states[p1.to_node_index.0] is Storage
## NetworkState::update_derived_states
elem(self.virtual_storage_states).storage.flows.out_flow := (acc(0) +elem(elem(net.virtual_storage_nodes).factors)*get_in_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)]) +elem(self.virtual_storage_states).storage.flows.out_flow)
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
elem(self.virtual_storage_states).storage.flows.out_flow := (acc(0) +elem(elem(net.virtual_storage_nodes).factors)*get_out_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)]) +elem(self.virtual_storage_states).storage.flows.out_flow)
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
elem(self.virtual_storage_states).storage.volume := (-1.15740740741e-05*acc(0)*as_secs_f64(ts.duration.0) -1.15740740741e-05*as_secs_f64(ts.duration.0)*elem(elem(net.virtual_storage_nodes).factors)*get_in_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)]) +elem(self.virtual_storage_states).storage.volume)
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
elem(self.virtual_storage_states).storage.volume := (-1.15740740741e-05*acc(0)*as_secs_f64(ts.duration.0) -1.15740740741e-05*as_secs_f64(ts.duration.0)*elem(elem(net.virtual_storage_nodes).factors)*get_out_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)]) +elem(self.virtual_storage_states).storage.volume)
    is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
push_back(elem(self.virtual_storage_states).history.flows, (acc(0) +{elem(elem(net.virtual_storage_nodes).factors)*get_in_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)]) | elem(elem(net.virtual_storage_nodes).factors)*get_out_flow(self.node_states[elem(elem(net.virtual_storage_nodes).nodes)])}))
    elem(self.virtual_storage_states).history is Some; is_active(elem(net.virtual_storage_nodes).active_period, date(ts.date))
## NetworkState::get_node_in_flow
return get_in_flow(self.node_states[p1.0])
## NetworkState::get_node_out_flow
return get_out_flow(self.node_states[p1.0])
## NetworkState::get_node_volume
[accepts]
    self.node_states[p1.0] is Storage
return self.node_states[p1.0]~Storage.0.volume
## NetworkState::get_node_max_volume
[accepts]
    self.node_states[p1.0] is Storage
return self.node_states[p1.0]~Storage.0.max_volume
## NetworkState::get_node_proportional_volume
[accepts]
    self.node_states[p1.0] is Storage
return proportional_volume(self.node_states[p1.0]~Storage.0)
## NetworkState::get_edge_flow
return self.edge_states[p1.0].flow
## NetworkState::set_volume
[accepts]
    self.node_states[p1.0] is Storage
self.node_states[p1.0]~Storage.0.max_volume := p3
self.node_states[p1.0]~Storage.0.volume := p2
## NetworkState::reset_virtual_storage_volume
self.virtual_storage_states[p1.0].last_reset := ts
self.virtual_storage_states[p1.0].storage.max_volume := p4
self.virtual_storage_states[p1.0].storage.volume := p2
## NetworkState::reset_virtual_storage_history
self.virtual_storage_states[p1.0].history.flows := from_elem(p2, self.virtual_storage_states[p1.0].history.size)
    self.virtual_storage_states[p1.0].history is Some
## NetworkState::recover_virtual_storage_last_historical_flow
pop_front(self.virtual_storage_states[p1.0].history.flows)
    !Lt(len(self.virtual_storage_states[p1.0].history.flows), self.virtual_storage_states[p1.0].history.size); self.virtual_storage_states[p1.0].history is Some
self.virtual_storage_states[p1.0].storage.flows.in_flow := (pop_front(self.virtual_storage_states[p1.0].history.flows) +self.virtual_storage_states[p1.0].storage.flows.in_flow)
    !Lt(len(self.virtual_storage_states[p1.0].history.flows), self.virtual_storage_states[p1.0].history.size); self.virtual_storage_states[p1.0].history is Some
self.virtual_storage_states[p1.0].storage.volume := (1.15740740741e-05*as_secs_f64(ts.duration.0)*pop_front(self.virtual_storage_states[p1.0].history.flows) +self.virtual_storage_states[p1.0].storage.volume)
    !Lt(len(self.virtual_storage_states[p1.0].history.flows), self.virtual_storage_states[p1.0].history.size); self.virtual_storage_states[p1.0].history is Some
## NetworkState::get_virtual_storage_volume
return self.virtual_storage_states[p1.0].storage.volume
## NetworkState::get_virtual_storage_proportional_volume
return proportional_volume(self.virtual_storage_states[p1.0].storage)
## NetworkState::get_virtual_storage_last_reset
return self.virtual_storage_states[p1.0].last_reset
