## ConstantMetricF64::get_value
return p1.constant.indices[self~IndexParameterValue.0.idx]
    self is IndexParameterValue
return p1.constant.multi_values[self~MultiParameterValue.index.idx].values[self~MultiParameterValue.key]
    self is MultiParameterValue
return p1.constant.values[self~ParameterValue.0.idx]
    self is ParameterValue
return self~Constant.0
    self is Constant
## ConstantMetricF64::is_constant_zero
return false
    !Eq(0, self~Constant.0); self is Constant
    self is IndexParameterValue|MultiParameterValue|ParameterValue
return true
    Eq(0, self~Constant.0); self is Constant
## SimpleMetricF64::get_value
return get_value(self~Constant.0, p1.constant)
    self is Constant
return p1.simple.indices[self~IndexParameterValue.index.idx]
    self is IndexParameterValue
return p1.simple.multi_values[self~MultiParameterValue.index.idx].values[self~MultiParameterValue.key]
    self is MultiParameterValue
return p1.simple.values[self~ParameterValue.index.idx]
    self is ParameterValue
## SimpleMetricF64::try_get_constant_value
return get_value(self~Constant.0, p1)
    self is Constant
return none
    self is IndexParameterValue|MultiParameterValue|ParameterValue
## SimpleMetricF64::is_constant
return false
    self is IndexParameterValue|MultiParameterValue|ParameterValue
return true
    self is Constant
## SimpleMetricF64::is_constant_zero
return false
    !is_constant_zero(self~Constant.0); self is Constant
    self is IndexParameterValue|MultiParameterValue|ParameterValue
return true
    is_constant_zero(self~Constant.0); self is Constant
## MetricF64::get_value
return (acc(0) +get_node_in_flow(state.network, elem(elem(net.aggregated_nodes[self~AggregatedNodeInFlow.0.0].nodes))))
    self is AggregatedNodeInFlow
return (acc(0) +get_node_in_flow(state.network, elem(self~MultiNodeInFlow.indices)))
    self is MultiNodeInFlow
return (acc(0) +get_node_out_flow(state.network, elem(elem(net.aggregated_nodes[self~AggregatedNodeOutFlow.0.0].nodes))))
    self is AggregatedNodeOutFlow
return (acc(0) +get_node_out_flow(state.network, elem(self~MultiNodeOutFlow.indices)))
    self is MultiNodeOutFlow
return (acc(0) +get_node_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeVolume.0.0].nodes)))
    self is AggregatedStorageNodeVolume
return (acc(0) +state.network.edge_states[elem(self~MultiEdgeFlow.indices)].flow)
    self is MultiEdgeFlow
return (acc(0)/(acc(0) +get_node_max_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0.0].nodes))) +get_node_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0.0].nodes))/(acc(0) +get_node_max_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0.0].nodes))))
    !Eq(0, acc(0) +get_node_max_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0.0].nodes))); self is AggregatedStorageNodeProportionalVolume
return 1
    Eq(0, acc(0) +get_node_max_volume(state.network, elem(net.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0.0].nodes))); self is AggregatedStorageNodeProportionalVolume
return get_max_flow(net.nodes[self~NodeMaxFlow.0.0], net, state)
    self is NodeMaxFlow
return get_max_volume(net.nodes[self~NodeMaxVolume.0.0], state)
    self is NodeMaxVolume
return get_max_volume(net.virtual_storage_nodes[self~VirtualStorageMaxVolume.0.0], state)
    self is VirtualStorageMaxVolume
return get_node_in_flow(state.network, self~NodeInFlow.0)
    self is NodeInFlow
return get_node_out_flow(state.network, self~NodeOutFlow.0)
    self is NodeOutFlow
return get_node_proportional_volume(state.network, self~NodeProportionalVolume.0)
    self is NodeProportionalVolume
return get_node_volume(state.network, self~NodeVolume.0)
    self is NodeVolume
return get_value(self~Simple.0, get_simple_parameter_values(state))
    self is Simple
return get_virtual_storage_proportional_volume(state.network, self~VirtualStorageProportionalVolume.0)
    self is VirtualStorageProportionalVolume
return state.inter_network_values[self~InterNetworkTransfer.0.0]
    self is InterNetworkTransfer
return state.network.edge_states[self~EdgeFlow.0.0].flow
    self is EdgeFlow
return state.network.virtual_storage_states[self~VirtualStorageVolume.0.0].storage.volume
    self is VirtualStorageVolume
return state.parameters_general_after.indices[self~ParameterAfterU64.0.idx]
    self is ParameterAfterU64
return state.parameters_general_after.multi_values[self~ParameterAfterMulti.index.idx].values[self~ParameterAfterMulti.key]
    self is ParameterAfterMulti
return state.parameters_general_after.values[self~ParameterAfterF64.0.idx]
    self is ParameterAfterF64
return state.parameters_general_before.indices[self~ParameterBeforeU64.0.idx]
    self is ParameterBeforeU64
return state.parameters_general_before.multi_values[self~ParameterBeforeMulti.index.idx].values[self~ParameterBeforeMulti.key]
    self is ParameterBeforeMulti
return state.parameters_general_before.values[self~ParameterBeforeF64.0.idx]
    self is ParameterBeforeF64
## MetricF64::try_get_constant_value
return none
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|ParameterAfterF64|ParameterAfterMulti|ParameterAfterU64|ParameterBeforeF64|ParameterBeforeMulti|ParameterBeforeU64|VirtualStorageMaxVolume|VirtualStorageProportionalVolume|VirtualStorageVolume
return try_get_constant_value(self~Simple.0, p1)
    self is Simple
## MetricF64::is_constant
return false
    !is_constant(self~Simple.0); self is Simple
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|ParameterAfterF64|ParameterAfterMulti|ParameterAfterU64|ParameterBeforeF64|ParameterBeforeMulti|ParameterBeforeU64|VirtualStorageMaxVolume|VirtualStorageProportionalVolume|VirtualStorageVolume
return true
    is_constant(self~Simple.0); self is Simple
## MetricF64::is_constant_zero
return false
    !is_constant_zero(self~Simple.0); self is Simple
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|ParameterAfterF64|ParameterAfterMulti|ParameterAfterU64|ParameterBeforeF64|ParameterBeforeMulti|ParameterBeforeU64|VirtualStorageMaxVolume|VirtualStorageProportionalVolume|VirtualStorageVolume
return true
    is_constant_zero(self~Simple.0); self is Simple
## <SimpleMetricF64 as TryFrom<MetricF64>>::try_from
[accepts]
    p0 is Simple
return p0~Simple.0
## <ConstantMetricF64 as TryFrom<SimpleMetricF64>>::try_from
[accepts]
    p0 is Constant
return p0~Constant.0
## <ConstantMetricF64 as TryFrom<MetricF64>>::try_from
return try_into(try_into(p0))
## metric::try_into_constant_metrics_f64
return ok(list(try_into(elem(p0))))
## metric::try_into_simple_metrics_f64
return ok(list(try_into(elem(p0))))
## <ConstantMetricF64 as From<f64>>::from
return Constant{0: p0}
## <SimpleMetricF64 as From<T>>::from
return Constant{0: p0}
## <MetricF64 as From<T>>::from
return Simple{0: Constant{0: p0}}
## UnresolvedMetricF64::new_parameter_before
return ParameterValue{}
return.name p0
return.return_value Before
## UnresolvedMetricF64::new_parameter_before_key
return MultiParameterValue{}
return.key p1
return.name p0
return.return_value Before
## UnresolvedMetricF64::new_parameter_after
return ParameterValue{}
return.name p0
return.return_value After
## UnresolvedMetricF64::new_parameter_after_else_initial
return ParameterValue{}
return.name p0
return.return_value AfterOrElseInitial
## UnresolvedMetricF64::new_parameter_after_key
return MultiParameterValue{}
return.key p1
return.name p0
return.return_value After
## UnresolvedMetricF64::is_constant
return false
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|MultiParameterValue|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|ParameterValue|VirtualStorageProportionalVolume|VirtualStorageVolume
return true
    self is Constant
## UnresolvedMetricF64::is_constant_zero
return false
    !Eq(0, self~Constant.0); self is Constant
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|MultiParameterValue|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|ParameterValue|VirtualStorageProportionalVolume|VirtualStorageVolume
return true
    Eq(0, self~Constant.0); self is Constant
## UnresolvedMetricF64::resolve
[accepts]
    p1.parameters_f64[self~ParameterValue.name] is Const|Simple; self is ParameterValue; self~ParameterValue.return_value is Before
    p1.parameters_f64[self~ParameterValue.name] is General; p2 is After; self is ParameterValue; self~ParameterValue.return_value is After
    p1.parameters_f64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is AfterOrElseInitial|Before
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is Const|Simple; self is ParameterValue; self~ParameterValue.return_value is Before
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is General; p2 is After; self is ParameterValue; self~ParameterValue.return_value is After
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is AfterOrElseInitial|Before
    self is AggregatedNodeInFlow|AggregatedNodeOutFlow|AggregatedStorageNodeProportionalVolume|AggregatedStorageNodeVolume|Constant|EdgeFlow|InterNetworkTransfer|MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow|MultiParameterValue|NodeInFlow|NodeMaxFlow|NodeMaxVolume|NodeOutFlow|NodeProportionalVolume|NodeVolume|VirtualStorageProportionalVolume|VirtualStorageVolume
return AggregatedNodeInFlow{0: p1.aggregated_nodes[self~AggregatedNodeInFlow.0]}
    self is AggregatedNodeInFlow
return AggregatedNodeOutFlow{0: p1.aggregated_nodes[self~AggregatedNodeOutFlow.0]}
    self is AggregatedNodeOutFlow
return AggregatedStorageNodeProportionalVolume{0: p1.aggregated_storage_nodes[self~AggregatedStorageNodeProportionalVolume.0]}
    self is AggregatedStorageNodeProportionalVolume
return AggregatedStorageNodeVolume{0: p1.aggregated_storage_nodes[self~AggregatedStorageNodeVolume.0]}
    self is AggregatedStorageNodeVolume
return EdgeFlow{0: p1.edges[self~EdgeFlow.0]}
    self is EdgeFlow
return IndexParameterValue{0: p1.parameters_u64[self~ParameterValue.name]~Const.0}
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is Const; self is ParameterValue
return IndexParameterValue{index: p1.parameters_u64[self~ParameterValue.name]~Simple.0}
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is Simple; self is ParameterValue
return InterNetworkTransfer{0: p1.inter_network_transfers[self~InterNetworkTransfer.0]}
    self is InterNetworkTransfer
return MultiEdgeFlow{}
    self is MultiEdgeFlow
return MultiNodeInFlow{}
    self is MultiNodeInFlow
return MultiNodeOutFlow{}
    self is MultiNodeOutFlow
return NodeInFlow{0: p1.nodes[self~NodeInFlow.0]}
    self is NodeInFlow
return NodeMaxFlow{0: p1.nodes[self~NodeMaxFlow.0]}
    self is NodeMaxFlow
return NodeMaxVolume{0: p1.nodes[self~NodeMaxVolume.0]}
    self is NodeMaxVolume
return NodeOutFlow{0: p1.nodes[self~NodeOutFlow.0]}
    self is NodeOutFlow
return NodeProportionalVolume{0: p1.nodes[self~NodeProportionalVolume.0]}
    self is NodeProportionalVolume
return NodeVolume{0: p1.nodes[self~NodeVolume.0]}
    self is NodeVolume
return ParameterAfterF64{0: p1.parameters_f64[self~ParameterValue.name]~General.0.after}
    p1.parameters_f64[self~ParameterValue.name] is Some; p1.parameters_f64[self~ParameterValue.name]? is General; self is ParameterValue; self~ParameterValue.return_value is After|AfterOrElseInitial
return ParameterAfterU64{0: p1.parameters_u64[self~ParameterValue.name]~General.0.after}
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is After|AfterOrElseInitial
return ParameterBeforeF64{0: p1.parameters_f64[self~ParameterValue.name]~General.0.before}
    p1.parameters_f64[self~ParameterValue.name] is Some; p1.parameters_f64[self~ParameterValue.name]? is General; self is ParameterValue; self~ParameterValue.return_value is Before
return ParameterBeforeU64{0: p1.parameters_u64[self~ParameterValue.name]~General.0.before}
    p1.parameters_f64[self~ParameterValue.name] is None; p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is Before
return ParameterValue{0: p1.parameters_f64[self~ParameterValue.name]~Const.0}
    p1.parameters_f64[self~ParameterValue.name] is Some; p1.parameters_f64[self~ParameterValue.name]? is Const; self is ParameterValue
return ParameterValue{index: p1.parameters_f64[self~ParameterValue.name]~Simple.0}
    p1.parameters_f64[self~ParameterValue.name] is Some; p1.parameters_f64[self~ParameterValue.name]? is Simple; self is ParameterValue
return VirtualStorageProportionalVolume{0: p1.virtual_storage_node[self~VirtualStorageProportionalVolume.0]}
    self is VirtualStorageProportionalVolume
return VirtualStorageVolume{0: p1.virtual_storage_node[self~VirtualStorageVolume.0]}
    self is VirtualStorageVolume
return resolve_parameter_index_multi_to_metric_f64(self~MultiParameterValue.name, p1.parameters_multi[self~MultiParameterValue.name], self~MultiParameterValue.key, self~MultiParameterValue.return_value, p2)
    self is MultiParameterValue
return self~Constant.0
    self is Constant
return.indices list
    self is MultiEdgeFlow|MultiNodeInFlow|MultiNodeOutFlow
return.indices[] p1.edges[elem(self~MultiEdgeFlow.edges)]
    self is MultiEdgeFlow
return.indices[] p1.nodes[elem(self~MultiNodeInFlow.nodes)]
    self is MultiNodeInFlow
return.indices[] p1.nodes[elem(self~MultiNodeOutFlow.nodes)]
    self is MultiNodeOutFlow
return.name self~MultiEdgeFlow.name
    self is MultiEdgeFlow
return.name self~MultiNodeInFlow.name
    self is MultiNodeInFlow
return.name self~MultiNodeOutFlow.name
    self is MultiNodeOutFlow
## <UnresolvedMetricF64 as From<f64>>::from
return Constant{0: p0}
## metric::resolve_parameter_index_multi_to_metric_f64
[accepts]
    p1 is Const|Simple; p3 is Before
    p1 is General; p3 is AfterOrElseInitial|Before; p4 is Before|Both
    p1 is General; p4 is After
return MultiParameterValue{}
    p1 is Const|Simple
return ParameterAfterMulti{}
    p1 is General; p3 is After|AfterOrElseInitial
return ParameterBeforeMulti{}
    p1 is General; p3 is Before
return.index p1~Const.0
    p1 is Const
return.index p1~General.0.after
    p1 is General; p3 is After|AfterOrElseInitial
return.index p1~General.0.before
    p1 is General; p3 is Before
return.index p1~Simple.0
    p1 is Simple
return.key p2
## ConstantMetricU64::get_value
return p1.constant.indices[self~IndexParameterValue.0.idx]
    self is IndexParameterValue
return p1.constant.multi_values[self~MultiParameterValue.index.idx].indices[self~MultiParameterValue.key]
    self is MultiParameterValue
return self~Constant.0
    self is Constant
## SimpleMetricU64::get_value
return get_value(self~Constant.0, p1.constant)
    self is Constant
return p1.simple.indices[self~IndexParameterValue.index.idx]
    self is IndexParameterValue
return p1.simple.multi_values[self~MultiParameterValue.index.idx].indices[self~MultiParameterValue.key]
    self is MultiParameterValue
## MetricU64::get_value
[accepts]
    self is ParameterAfterMulti|ParameterAfterU64|ParameterBeforeMulti|ParameterBeforeU64|Simple
[success]
    self is ParameterAfterMulti|ParameterAfterU64|ParameterBeforeMulti|ParameterBeforeU64|Simple
return get_value(self~Simple.0, get_simple_parameter_values(state))
    self is Simple
return state.parameters_general_after.indices[self~ParameterAfterU64.0.idx]
    self is ParameterAfterU64
return state.parameters_general_after.multi_values[self~ParameterAfterMulti.index.idx].indices[self~ParameterAfterMulti.key]
    self is ParameterAfterMulti
return state.parameters_general_before.indices[self~ParameterBeforeU64.0.idx]
    self is ParameterBeforeU64
return state.parameters_general_before.multi_values[self~ParameterBeforeMulti.index.idx].indices[self~ParameterBeforeMulti.key]
    self is ParameterBeforeMulti
## <ConstantMetricU64 as From<u64>>::from
return Constant{0: p0}
## <SimpleMetricU64 as From<T>>::from
return Constant{0: p0}
## <MetricU64 as From<T>>::from
return Simple{0: Constant{0: p0}}
## <SimpleMetricU64 as TryFrom<MetricU64>>::try_from
[accepts]
    p0 is Simple
return p0~Simple.0
## <ConstantMetricU64 as TryFrom<SimpleMetricU64>>::try_from
[accepts]
    p0 is Constant
return p0~Constant.0
## <ConstantMetricU64 as TryFrom<MetricU64>>::try_from
return try_into(try_into(p0))
## metric::try_into_constant_metrics_u64
return ok(list(try_into(elem(p0))))
## metric::try_into_simple_metrics_u64
return ok(list(try_into(elem(p0))))
## UnresolvedMetricU64::new_parameter_before
return ParameterValue{}
return.name p0
return.return_value Before
## UnresolvedMetricU64::resolve
[accepts]
    p1.parameters_u64[self~ParameterValue.name] is Const|Simple; self is ParameterValue
    p1.parameters_u64[self~ParameterValue.name] is General; p2 is After; self is ParameterValue; self~ParameterValue.return_value is After
    p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is AfterOrElseInitial|Before
    self is Constant|InterNetworkTransfer|MultiParameterValue
return IndexParameterValue{0: p1.parameters_u64[self~ParameterValue.name]~Const.0}
    p1.parameters_u64[self~ParameterValue.name] is Const; self is ParameterValue
return IndexParameterValue{index: p1.parameters_u64[self~ParameterValue.name]~Simple.0}
    p1.parameters_u64[self~ParameterValue.name] is Simple; self is ParameterValue
return InterNetworkTransfer{0: p1.inter_network_transfers[self~InterNetworkTransfer.0]}
    self is InterNetworkTransfer
return ParameterAfterU64{0: p1.parameters_u64[self~ParameterValue.name]~General.0.after}
    p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is After|AfterOrElseInitial
return ParameterBeforeU64{0: p1.parameters_u64[self~ParameterValue.name]~General.0.before}
    p1.parameters_u64[self~ParameterValue.name] is General; self is ParameterValue; self~ParameterValue.return_value is Before
return resolve_parameter_index_multi_to_metric_u64(self~MultiParameterValue.name, p1.parameters_multi[self~MultiParameterValue.name], self~MultiParameterValue.key, self~MultiParameterValue.return_value, p2)
    self is MultiParameterValue
return self~Constant.0
    self is Constant
## <UnresolvedMetricU64 as From<u64>>::from
return Constant{0: p0}
## metric::resolve_parameter_index_multi_to_metric_u64
[accepts]
    p1 is Const|Simple
    p1 is General; p3 is AfterOrElseInitial|Before; p4 is Before|Both
    p1 is General; p4 is After
return MultiParameterValue{}
    p1 is Const|Simple
return ParameterAfterMulti{}
    p1 is General; p3 is After|AfterOrElseInitial
return ParameterBeforeMulti{}
    p1 is General; p3 is Before
return.index p1~Const.0
    p1 is Const
return.index p1~General.0.after
    p1 is General; p3 is After|AfterOrElseInitial
return.index p1~General.0.before
    p1 is General; p3 is Before
return.index p1~Simple.0
    p1 is Simple
return.key p2
