## <AggFunc as From<AggFunc>>::from
return Max
    p0 is 2
return Min
    p0 is 3
return Product
    p0 is 1
return Sum
    p0 is 0
## <IndexAggFunc as From<IndexAggFunc>>::from
return All
    p0 is 5
return Any
    p0 is 4
return Max
    p0 is 2
return Min
    p0 is 3
return Product
    p0 is 1
return Sum
    p0 is 0
## <TableScalarValue as FromStr>::from_str
return Float{0: parse(p0)}
    parse(p0) is Ok
return Int{0: parse(p0)}
    parse(p0) is Err
## <TableDataRef as FromPyObject>::extract
return extract(p0)
## <TableDataRef as TryFrom<TableDataRef>>::try_from
return TableDataRef{}
return.column none
    p0.column is None
return.column try_into(p0.column)
    p0.column is Some
return.row none
    p0.index is None
return.row try_into(p0.index)
    p0.index is Some
return.table p0.table
## <Checksum as TryFromV1<HashMap<String, String>>>::try_from_v1
return MD5{hash: p0["md5"]}
    p0["md5"] is Some
return SHA256{hash: p0["sha256"]}
    p0["md5"] is None
## <Edge as TryFrom<Edge>>::try_from
return Edge{}
return.from_node p0.from_node
return.from_slot none
    flatten(p0.from_slot) is None
return.from_slot try_from_v1_str(flatten(p0.from_slot))
    flatten(p0.from_slot) is Some
return.to_node p0.to_node
return.to_slot none
    flatten(p0.to_slot) is None
return.to_slot try_from_v1_str(flatten(p0.to_slot))
    flatten(p0.to_slot) is Some
## <Metric as FromPyObject>::extract
return extract(p0)
## <Metric as From<f64>>::from
return Literal{value: p0}
## <Metric as From<NodeAttrReference>>::from
return Node{0: p0}
## <Metric as From<VirtualNodeAttrReference>>::from
return VirtualNode{0: p0}
## <Metric as TryFromV1<ParameterValue>>::try_from_v1
push(p2.parameters, try_into_v2(p0~Inline.0.0, p1, p2)~Parameter.0.0)
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Parameter
return Literal{value: p0~Constant.0}
    p0 is 0
return Parameter{0: ParameterReference{key: none, name: meta(try_into_v2(p0~Inline.0.0, p1, p2)~Parameter.0.0).name, return_value: none}}
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Parameter
return Parameter{0: ParameterReference{key: none, name: p0~Reference.0, return_value: none}}
    p0 is 1
return Table{0: try_into(p0~Table.0)}
    p0 is 3
return Timeseries{0: try_into_v2(p0~Inline.0.0, p1, p2)~Timeseries.0.ts_ref}
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Timeseries
try_into_v2(p0~Inline.0.0, p1, p2)
    p0 is 2
## <NodeAttrReference as FromPyObject>::extract
return extract(p0)
## <NodeAttrReference as From<String>>::from
return NodeAttrReference{}
return.attribute none
return.name p0
## <VirtualNodeAttrReference as FromPyObject>::extract
return extract(p0)
## <VirtualNodeAttrReference as From<String>>::from
return VirtualNodeAttrReference{}
return.attribute none
return.name p0
## <NodeComponentReference as From<String>>::from
return NodeComponentReference{}
return.component none
return.name p0
## <ParameterReturnValue as From<ParameterReturnValue>>::from
return After
    p0 is After
return AfterOrElseInitial
    p0 is AfterOrElseInitial
return Before
    p0 is Before
## <ParameterReference as FromPyObject>::extract
return extract(p0)
## <EdgeReference as FromPyObject>::extract
return extract(p0)
## <IndexMetric as From<usize>>::from
return Constant{value: p0}
## <IndexMetric as From<u64>>::from
return Constant{value: p0}
## <IndexMetric as TryFromV1<ParameterValue>>::try_from_v1
[accepts]
    !Lt(p0~Constant.0, 0); Eq(0, fract(p0~Constant.0)); p0 is 0
    p0 is 1|2|3
push(p2.parameters, try_into_v2(p0~Inline.0.0, p1, p2)~Parameter.0.0)
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Parameter
return Constant{value: p0~Constant.0}
    p0 is 0
return Parameter{0: ParameterReference{key: none, name: meta(try_into_v2(p0~Inline.0.0, p1, p2)~Parameter.0.0).name, return_value: none}}
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Parameter
return Parameter{0: ParameterReference{key: none, name: p0~Reference.0, return_value: none}}
    p0 is 1
return Table{0: try_into(p0~Table.0)}
    p0 is 3
return Timeseries{0: try_into_v2(p0~Inline.0.0, p1, p2)~Timeseries.0.ts_ref}
    p0 is 2; try_into_v2(p0~Inline.0.0, p1, p2) is Timeseries
try_into_v2(p0~Inline.0.0, p1, p2)
    p0 is 2
## <AggregationFrequency as From<MetricAggFrequency>>::from
return Annual
    p0 is Annual
return Days{0: p0~Days.days}
    p0 is Days
return Monthly
    p0 is Monthly
## <NodeSlot as From<AbstractionOutputNodeSlot>>::from
return Abstraction
    p0 is Abstraction
return River
    p0 is River
## <AbstractionOutputNodeSlot as TryFrom<NodeSlot>>::try_from
[accepts]
    p0 is Abstraction|River
[success]
    p0 is Abstraction|River
return Abstraction
    p0 is Abstraction
return River
    p0 is River
## <InputNode as TryFromV1<InputNode>>::try_from_v1
return InputNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.max_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
## <LinkNode as TryFromV1<LinkNode>>::try_from_v1
return LinkNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.max_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.parameters none
return.soft_max none
return.soft_min none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
## <LinkNode as TryFromV1<BreakLinkNode>>::try_from_v1
return LinkNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.max_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.parameters default().parameters
return.soft_max default().soft_max
return.soft_min default().soft_min
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
## <OutputNode as TryFromV1<OutputNode>>::try_from_v1
return OutputNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.max_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
## <UnresolvedStorageInitialVolume as From<StorageInitialVolume>>::from
return Absolute{volume: p0~Absolute.volume}
    p0 is Absolute
return Proportional{proportion: p0~Proportional.proportion}
    p0 is Proportional
## <StorageNode as TryFromV1<StorageNode>>::try_from_v1
return StorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <StorageNode as TryFromV1<ReservoirNode>>::try_from_v1
return StorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <CatchmentNode as TryFromV1<CatchmentNode>>::try_from_v1
return CatchmentNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.flow, p1, p2)
return.meta try_from(p0.meta)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.flow, p1, p2)
## <DelayNode as TryFrom<DelayNode>>::try_from
return DelayNode{}
return.delay Literal{value: p0.days}
    p0.days is Some
return.delay Literal{value: p0.timesteps}
    p0.days is None
return.initial_value Literal{value: default()}
    p0.initial_flow is None
return.initial_value Literal{value: p0.initial_flow}
    p0.initial_flow is Some
return.meta try_from(p0.meta)
return.parameters none
## <LossLinkNode as TryFromV1<LossLinkNode>>::try_from_v1
return LossLinkNode{}
return.loss_factor Net{factor: try_convert_node_attr(try_from(p0.meta).name, "loss_factor", p0.loss_factor, p1, p2)}
    try_convert_node_attr(try_from(p0.meta).name, "loss_factor", p0.loss_factor, p1, p2) is Some
return.loss_factor none
    try_convert_node_attr(try_from(p0.meta).name, "loss_factor", p0.loss_factor, p1, p2) is None
return.max_net_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_net_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.net_cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "loss_factor", p0.loss_factor, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
## <PiecewiseLinkNode as TryFromV1<PiecewiseLinkNode>>::try_from_v1
return PiecewiseLinkNode{}
return.meta try_from(p0.meta)
return.parameters none
return.steps list
return.steps[] PiecewiseLinkStep{cost: elem(from_elem(none, p0.nsteps)), max_flow: elem(from_elem(none, p0.nsteps)), min_flow: none}
    p0.costs is None; p0.max_flows is None
return.steps[] PiecewiseLinkStep{cost: elem(from_elem(none, p0.nsteps)), max_flow: {none | try_convert_node_attr(try_from(p0.meta).name, "max_flows", elem(p0.max_flows), p1, p2)}, min_flow: none}
    p0.costs is None; p0.max_flows is Some
return.steps[] PiecewiseLinkStep{cost: {try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), p1, p2) | try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), try_from(p0.meta).name, p2)}, max_flow: elem(from_elem(none, p0.nsteps)), min_flow: none}
    p0.costs is Some; p0.max_flows is None
return.steps[] PiecewiseLinkStep{cost: {try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), p1, p2) | try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), try_from(p0.meta).name, p2)}, max_flow: {none | try_convert_node_attr(try_from(p0.meta).name, "max_flows", elem(p0.max_flows), p1, p2)}, min_flow: none}
    for each(zip(list(try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), try_from(p0.meta).name, p2) if p1 is None, try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), p1, p2) if p1 is Some), list(try_convert_node_attr(try_from(p0.meta).name, "max_flows", elem(p0.max_flows), p1, p2) if elem(p0.max_flows) is Some, none if elem(p0.max_flows) is None & for each(p0.max_flows)))); p0.costs is Some; p0.max_flows is Some
try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), p1, p2)
    p0.costs is Some; p1 is Some
try_convert_node_attr(try_from(p0.meta).name, "costs", elem(p0.costs), try_from(p0.meta).name, p2)
    p0.costs is Some; p1 is None
try_convert_node_attr(try_from(p0.meta).name, "max_flows", elem(p0.max_flows), p1, p2)
    elem(p0.max_flows) is Some; p0.max_flows is Some
## <ReservoirNodeAttribute as From<StorageNodeAttribute>>::from
return MaxVolume
    p0 is MaxVolume
return ProportionalVolume
    p0 is ProportionalVolume
return Volume
    p0 is Volume
## <NodeSlot as From<ReservoirOutputNodeSlot>>::from
return Compensation
    p0 is Compensation
return Spill
    p0 is Spill
return Storage
    p0 is Storage
## <ReservoirOutputNodeSlot as TryFrom<NodeSlot>>::try_from
[accepts]
    p0 is Compensation|Spill|Storage
[success]
    p0 is Compensation|Spill|Storage
return Compensation
    p0 is Compensation
return Spill
    p0 is Spill
return Storage
    p0 is Storage
## <MuskingumInitialCondition as From<MuskingumInitialCondition>>::from
return Specified{}
    p0 is Specified
return SteadyState
    p0 is SteadyState
return.inflow p0~Specified.inflow
    p0 is Specified
return.outflow p0~Specified.outflow
    p0 is Specified
## <RiverNode as TryFrom<LinkNode>>::try_from
[accepts]
    p0.cost is None; p0.max_flow is None; p0.min_flow is None
return RiverNode{}
return.loss_factor none
return.meta try_from(p0.meta)
return.parameters none
return.routing_method none
## <RiverGaugeNode as TryFromV1<RiverGaugeNode>>::try_from_v1
return RiverGaugeNode{}
return.bypass_cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.meta try_from(p0.meta)
return.mrf try_convert_node_attr(try_from(p0.meta).name, "mrf", p0.mrf, p1, p2)
return.mrf_cost try_convert_node_attr(try_from(p0.meta).name, "mrf_cost", p0.mrf_cost, p1, p2)
return.parameters none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "mrf", p0.mrf, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "mrf_cost", p0.mrf_cost, p1, p2)
## <NodeSlot as From<RiverSplitWithGaugeOutputNodeSlot>>::from
return River
    p0 is River
return Split{position: p0~Split.position}
    p0 is Split
return User{name: p0~User.name}
    p0 is User
## <RiverSplitWithGaugeOutputNodeSlot as TryFrom<NodeSlot>>::try_from
[accepts]
    p0 is River|Split|User
[success]
    p0 is River|Split|User
return River
    p0 is River
return Split{position: p0~Split.position}
    p0 is Split
return User{name: p0~User.name}
    p0 is User
## <RiverSplitWithGaugeNode as TryFromV1<RiverSplitWithGaugeNode>>::try_from_v1
[accepts]
    elem(p0.factors) is None
    try_into_v2(elem(p0.factors), p1, p2) is Literal
return RiverSplitWithGaugeNode{}
return.meta try_from(p0.meta)
return.mrf try_convert_node_attr(try_from(p0.meta).name, "mrf", p0.mrf, p1, p2)
return.mrf_cost try_convert_node_attr(try_from(p0.meta).name, "mrf_cost", p0.mrf_cost, p1, p2)
return.parameters none
return.splits list
return.splits[] RiverSplit{factor: Literal{value: try_into_v2(elem(p0.factors), p1, p2)~Literal.value/((acc(0) +2*try_into_v2(elem(p0.factors), p1, p2)~Literal.value))}, slot_name: elem(p0.slot_names)}
    elem(p0.factors) is Some; skip(1)
return.splits[] RiverSplit{factor: elem(new()), slot_name: elem(p0.slot_names)}
    elem(p0.factors) is None; skip(1)
try_convert_node_attr(try_from(p0.meta).name, "mrf", p0.mrf, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "mrf_cost", p0.mrf_cost, p1, p2)
try_into_v2(elem(p0.factors), p1, p2)
    elem(p0.factors) is Some
## NodeSlot::try_from_v1_str
[accepts]
    !Eq("abstraction", p0); !Eq("river", p0); !Eq("spill", p0); !Eq("storage", p0); Eq("compensation", p0)
    !Eq("abstraction", p0); !Eq("river", p0); !Eq("storage", p0); Eq("spill", p0)
    !Eq("abstraction", p0); !Eq("river", p0); Eq("storage", p0)
    !Eq("abstraction", p0); Eq("river", p0)
    Eq("abstraction", p0)
return Abstraction
    Eq("abstraction", p0)
return Compensation
    !Eq("abstraction", p0); !Eq("river", p0); !Eq("spill", p0); !Eq("storage", p0)
return River
    !Eq("abstraction", p0); Eq("river", p0)
return Spill
    !Eq("abstraction", p0); !Eq("river", p0); !Eq("storage", p0); Eq("spill", p0)
return Storage
    !Eq("abstraction", p0); !Eq("river", p0); Eq("storage", p0)
## <AggregatedNode as TryFromV1<AggregatedNode>>::try_from_v1
return AggregatedNode{}
return.max_flow try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_from(p0.meta)
return.min_flow try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.relationship Ratio{factors: list(try_convert_parameter_attr(try_from(p0.meta).name, "factors", elem(p0.factors), try_from(p0.meta).name, p2) if p1 is None, try_convert_parameter_attr(try_from(p0.meta).name, "factors", elem(p0.factors), p1, p2) if p1 is Some)}
    p0.factors is Some
return.relationship none
    p0.factors is None
try_convert_node_attr(try_from(p0.meta).name, "max_flow", p0.max_flow, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_flow", p0.min_flow, p1, p2)
try_convert_parameter_attr(try_from(p0.meta).name, "factors", elem(p0.factors), p1, p2)
    p0.factors is Some; p1 is Some
try_convert_parameter_attr(try_from(p0.meta).name, "factors", elem(p0.factors), try_from(p0.meta).name, p2)
    p0.factors is Some; p1 is None
## <AggregatedStorageNode as TryFrom<AggregatedStorageNode>>::try_from
return AggregatedStorageNode{}
return.meta try_from(p0.meta)
return.parameters none
return.storage_nodes list
return.storage_nodes[] NodeComponentReference{component: none, name: elem(p0.storage_nodes)}
## <VirtualStorageResetVolume as From<VirtualStorageResetVolume>>::from
return Initial
    p0 is Initial
return Max
    p0 is Max
## <VirtualStorageNode as TryFromV1<VirtualStorageNode>>::try_from_v1
return VirtualStorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.factors p0.factors
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.reset none
return.reset_volume none
return.window none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <VirtualStorageNode as TryFromV1<AnnualVirtualStorageNode>>::try_from_v1
return VirtualStorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.factors p0.factors
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.reset Annual{0: AnnualReset{day: p0.reset_day, month: p0.reset_month}}
return.reset_volume Initial
    p0.reset_to_initial_volume
return.reset_volume Max
    !p0.reset_to_initial_volume
return.window none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <VirtualStorageNode as TryFromV1<MonthlyVirtualStorageNode>>::try_from_v1
return VirtualStorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.factors p0.factors
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.reset Monthly{months: p0.months}
return.reset_volume Initial
    p0.reset_to_initial_volume
return.reset_volume Max
    !p0.reset_to_initial_volume
return.window none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <VirtualStorageNode as TryFromV1<RollingVirtualStorageNode>>::try_from_v1
return VirtualStorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.factors p0.factors
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.reset none
return.reset_volume none
return.window Days{days: new(p0.days)}
    p0.days is Some
return.window Timesteps{timesteps: new(p0.timesteps)}
    p0.days is None
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <VirtualStorageNode as TryFromV1<SeasonalVirtualStorageNode>>::try_from_v1
return VirtualStorageNode{}
return.cost try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
return.factors p0.factors
return.initial_volume try_convert_initial_storage(try_from(p0.meta).name, "initial_volume", p0.initial_volume, p0.initial_volume_pc)
return.max_volume try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
return.meta try_from(p0.meta)
return.min_volume try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
return.nodes list
return.nodes[] NodeComponentReference{component: none, name: elem(p0.nodes)}
return.parameters none
return.reset Seasonal{0: SeasonalReset{end_day: p0.end_day, end_month: p0.end_month, start_day: p0.reset_day, start_month: p0.reset_month}}
return.reset_volume Initial
    p0.reset_to_initial_volume
return.reset_volume Max
    !p0.reset_to_initial_volume
return.window none
try_convert_node_attr(try_from(p0.meta).name, "cost", p0.cost, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "max_volume", p0.max_volume, p1, p2)
try_convert_node_attr(try_from(p0.meta).name, "min_volume", p0.min_volume, p1, p2)
## <VirtualNode as From<VirtualNodeType>>::from
return AggregatedStorage{0: default()}
    p0 is AggregatedStorage
return Aggregated{0: default()}
    p0 is Aggregated
return Placeholder{0: default()}
    p0 is Placeholder
return VirtualStorage{0: default()}
    p0 is VirtualStorage
## <NodePosition as From<NodePosition>>::from
return NodePosition{}
return.geographic p0.geographic
return.schematic p0.schematic
## <NodeMeta as TryFrom<NodeMeta>>::try_from
return NodeMeta{}
return.comment p0.comment
return.name p0.name
return.position NodePosition{}
    p0.position is Some
return.position none
    p0.position is None
return.position.geographic p0.position.geographic
    p0.position is Some
return.position.schematic p0.position.schematic
    p0.position is Some
return.tags convert_tags(p0.tags)
## <Node as From<NodeType>>::from
return Abstraction{0: default()}
    p0 is Abstraction
return Catchment{0: default()}
    p0 is Catchment
return Delay{0: default()}
    p0 is Delay
return Input{0: default()}
    p0 is Input
return Link{0: default()}
    p0 is Link
return LossLink{0: default()}
    p0 is LossLink
return Output{0: default()}
    p0 is Output
return PiecewiseLink{0: default()}
    p0 is PiecewiseLink
return PiecewiseStorage{0: default()}
    p0 is PiecewiseStorage
return Placeholder{0: default()}
    p0 is Placeholder
return Reservoir{0: default()}
    p0 is Reservoir
return RiverGauge{0: default()}
    p0 is RiverGauge
return RiverSplitWithGauge{0: default()}
    p0 is RiverSplitWithGauge
return River{0: default()}
    p0 is River
return Storage{0: default()}
    p0 is Storage
return Turbine{0: TurbineNode{cost: none, efficiency: 1, energy_unit_conversion: 1e-06, flow_unit_conversion: 1, meta: default(), min_head: 0, parameters: none, target: none, target_type: default(), turbine_elevation: 0, water_density: 1000, water_elevation: none}}
    p0 is Turbine
return WaterTreatmentWorks{0: default()}
    p0 is WaterTreatmentWorks
## <NodeOrVirtualNode as TryFromV1<Node>>::try_from_v1
[accepts]
    p0 is 0
return try_into_v2(p0~Core.0, p1, p2)
try_into_v2(p0~Core.0, p1, p2)
## <NodeOrVirtualNode as From<Node>>::from
return Node{0: new(p0)}
## <NodeOrVirtualNode as From<VirtualNode>>::from
return Virtual{0: new(p0)}
## <NodeOrVirtualNode as TryFromV1<Box<CoreNode>>>::try_from_v1
[accepts]
    p0.0 is 0|1|11|12|14|15|16|17|18|19|2|20|21|3|4|5|6|7|8|9
[success]
    p0.0 is 0|1|11|12|14|15|16|17|18|19|2|20|21|3|4|5|6|7|8|9
return Node{0: new(Catchment{0: try_into_v2(p0.0~Catchment.0, p1, p2)})}
    p0.0 is 5
return Node{0: new(Delay{0: try_into(p0.0~Delay.0)})}
    p0.0 is 12
return Node{0: new(Input{0: try_into_v2(p0.0~Input.0, p1, p2)})}
    p0.0 is 0
return Node{0: new(Link{0: try_into_v2(p0.0~BreakLink.0, p1, p2)})}
    p0.0 is 11
return Node{0: new(Link{0: try_into_v2(p0.0~Link.0, p1, p2)})}
    p0.0 is 1
return Node{0: new(LossLink{0: try_into_v2(p0.0~LossLink.0, p1, p2)})}
    p0.0 is 7
return Node{0: new(Output{0: try_into_v2(p0.0~Output.0, p1, p2)})}
    p0.0 is 2
return Node{0: new(PiecewiseLink{0: try_into_v2(p0.0~PiecewiseLink.0, p1, p2)})}
    p0.0 is 9
return Node{0: new(RiverGauge{0: try_into_v2(p0.0~RiverGauge.0, p1, p2)})}
    p0.0 is 6
return Node{0: new(RiverSplitWithGauge{0: try_into_v2(p0.0~RiverSplitWithGauge.0, p1, p2)})}
    p0.0 is 14
return Node{0: new(River{0: try_into(p0.0~River.0)})}
    p0.0 is 8
return Node{0: new(Storage{0: try_into_v2(p0.0~Reservoir.0, p1, p2)})}
    p0.0 is 4
return Node{0: new(Storage{0: try_into_v2(p0.0~Storage.0, p1, p2)})}
    p0.0 is 3
return Virtual{0: new(AggregatedStorage{0: try_into(p0.0~AggregatedStorage.0)})}
    p0.0 is 16
return Virtual{0: new(Aggregated{0: try_into_v2(p0.0~Aggregated.0, p1, p2)})}
    p0.0 is 15
return Virtual{0: new(VirtualStorage{0: try_into_v2(p0.0~AnnualVirtualStorage.0, p1, p2)})}
    p0.0 is 18
return Virtual{0: new(VirtualStorage{0: try_into_v2(p0.0~MonthlyVirtualStorage.0, p1, p2)})}
    p0.0 is 19
return Virtual{0: new(VirtualStorage{0: try_into_v2(p0.0~RollingVirtualStorage.0, p1, p2)})}
    p0.0 is 21
return Virtual{0: new(VirtualStorage{0: try_into_v2(p0.0~SeasonalVirtualStorage.0, p1, p2)})}
    p0.0 is 20
return Virtual{0: new(VirtualStorage{0: try_into_v2(p0.0~VirtualStorage.0, p1, p2)})}
    p0.0 is 17
try_into_v2(p0.0~Aggregated.0, p1, p2)
    p0.0 is 15
try_into_v2(p0.0~AnnualVirtualStorage.0, p1, p2)
    p0.0 is 18
try_into_v2(p0.0~BreakLink.0, p1, p2)
    p0.0 is 11
try_into_v2(p0.0~Catchment.0, p1, p2)
    p0.0 is 5
try_into_v2(p0.0~Input.0, p1, p2)
    p0.0 is 0
try_into_v2(p0.0~Link.0, p1, p2)
    p0.0 is 1
try_into_v2(p0.0~LossLink.0, p1, p2)
    p0.0 is 7
try_into_v2(p0.0~MonthlyVirtualStorage.0, p1, p2)
    p0.0 is 19
try_into_v2(p0.0~Output.0, p1, p2)
    p0.0 is 2
try_into_v2(p0.0~PiecewiseLink.0, p1, p2)
    p0.0 is 9
try_into_v2(p0.0~Reservoir.0, p1, p2)
    p0.0 is 4
try_into_v2(p0.0~RiverGauge.0, p1, p2)
    p0.0 is 6
try_into_v2(p0.0~RiverSplitWithGauge.0, p1, p2)
    p0.0 is 14
try_into_v2(p0.0~RollingVirtualStorage.0, p1, p2)
    p0.0 is 21
try_into_v2(p0.0~SeasonalVirtualStorage.0, p1, p2)
    p0.0 is 20
try_into_v2(p0.0~Storage.0, p1, p2)
    p0.0 is 3
try_into_v2(p0.0~VirtualStorage.0, p1, p2)
    p0.0 is 17
## <AggregationOrder as From<MemoryAggregationOrder>>::from
return MetricTimeScenario
    p0 is MetricTimeScenario
return TimeMetricScenario
    p0 is TimeMetricScenario
## <AggregatedParameter as TryFromV1<AggregatedParameter>>::try_from_v1
return AggregatedParameter{}
return.agg_func from(p0.agg_func)
return.meta try_into_v2(p0.meta, p1, p2)
return.metrics list
return.metrics[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
return.phase Before
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <AggregatedIndexParameter as TryFromV1<AggregatedIndexParameter>>::try_from_v1
return AggregatedIndexParameter{}
return.agg_func from(p0.agg_func)
return.meta try_into_v2(p0.meta, p1, p2)
return.metrics list
return.metrics[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
return.phase Before
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <AsymmetricSwitchIndexParameter as TryFromV1<AsymmetricSwitchIndexParameter>>::try_from_v1
return AsymmetricSwitchIndexParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.off_index_parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "off_index_parameter", p0.off_index_parameter, p1, p2)
return.on_index_parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "on_index_parameter", p0.on_index_parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "off_index_parameter", p0.off_index_parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "on_index_parameter", p0.on_index_parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ControlCurveInterpolatedParameter as TryFromV1<ControlCurveInterpolatedParameter>>::try_from_v1
[accepts]
    p0.parameters is None
    p0.values is None
return ControlCurveInterpolatedParameter{}
return.control_curves try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.storage_metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    !contains(p2.virtual_nodes, p0.storage_node)
return.storage_metric VirtualNode{0: VirtualNodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    contains(p2.virtual_nodes, p0.storage_node)
return.values list
return.values[] Literal{value: elem(p0.values)}
    p0.values is Some
return.values[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
    p0.values is None
try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
    p0.values is None
try_into_v2(p0.meta, p1, p2)
## <ControlCurveIndexParameter as TryFromV1<ControlCurveIndexParameter>>::try_from_v1
return ControlCurveIndexParameter{}
return.control_curves list
return.control_curves[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "control_curves", elem(p0.control_curves), p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.storage_metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    !contains(p2.virtual_nodes, p0.storage_node)
return.storage_metric VirtualNode{0: VirtualNodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    contains(p2.virtual_nodes, p0.storage_node)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "control_curves", elem(p0.control_curves), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ControlCurveIndexParameter as TryFromV1<ControlCurveParameter>>::try_from_v1
[accepts]
    p0.parameters is None; p0.values is None
return ControlCurveIndexParameter{}
return.control_curves try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.storage_metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ControlCurveParameter as TryFromV1<ControlCurveParameter>>::try_from_v1
return ControlCurveParameter{}
return.control_curves try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.storage_metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    !contains(p2.virtual_nodes, p0.storage_node)
return.storage_metric VirtualNode{0: VirtualNodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    contains(p2.virtual_nodes, p0.storage_node)
return.values list
return.values[] Literal{value: elem(p0.values)}
    p0.values is Some
return.values[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
    p0.values is None
try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
    p0.values is None
try_into_v2(p0.meta, p1, p2)
## <ControlCurvePiecewiseInterpolatedParameter as TryFromV1<ControlCurvePiecewiseInterpolatedParameter>>::try_from_v1
return ControlCurvePiecewiseInterpolatedParameter{}
return.control_curves try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
return.maximum none
return.meta try_into_v2(p0.meta, p1, p2)
return.minimum p0.minimum
return.storage_metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    !contains(p2.virtual_nodes, p0.storage_node)
return.storage_metric VirtualNode{0: VirtualNodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    contains(p2.virtual_nodes, p0.storage_node)
return.values p0.values
try_convert_control_curves(try_into_v2(p0.meta, p1, p2).name, p0.control_curves, p0.control_curve, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ActivationFunction as From<ActivationFunction>>::from
return BinaryStep{}
    p0 is BinaryStep
return Logistic{}
    p0 is Logistic
return Rectifier{}
    p0 is Rectifier
return Unit{}
    p0 is Unit
return.growth_rate p0~Logistic.growth_rate
    p0 is Logistic
return.max p0~Logistic.max
    p0 is Logistic
return.max p0~Rectifier.max
    p0 is Rectifier
return.max p0~Unit.max
    p0 is Unit
return.min p0~Rectifier.min
    p0 is Rectifier
return.min p0~Unit.min
    p0 is Unit
return.neg_value 0
    p0 is BinaryStep; p0~BinaryStep.off_value is None
    p0 is Rectifier; p0~Rectifier.off_value is None
return.neg_value p0~BinaryStep.off_value
    p0 is BinaryStep; p0~BinaryStep.off_value is Some
return.neg_value p0~Rectifier.off_value
    p0 is Rectifier; p0~Rectifier.off_value is Some
return.pos_value p0~BinaryStep.on_value
    p0 is BinaryStep
## <ConstantParameter as TryFromV1<ConstantParameter>>::try_from_v1
return ConstantParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.value Literal{value: 0}
    p0.table is None; p0.value is None
return.value Literal{value: p0.value}
    p0.value is Some
return.value Table{0: try_into(p0.table)}
    p0.table is Some; p0.value is None
return.variable none
try_into_v2(p0.meta, p1, p2)
## <ConstantScenarioParameter as TryFromV1<ConstantScenarioParameter>>::try_from_v1
return ConstantScenarioParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.scenario_group p0.scenario
return.values try_convert_values(try_into_v2(p0.meta, p1, p2).name, p0.values, p0.external, p0.table)
try_into_v2(p0.meta, p1, p2)
## <MaxParameter as TryFromV1<MaxParameter>>::try_from_v1
return MaxParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.threshold p0.threshold
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <DivisionParameter as TryFromV1<DivisionParameter>>::try_from_v1
return DivisionParameter{}
return.denominator try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "denominator", p0.denominator, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.numerator try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "numerator", p0.numerator, p1, p2)
return.phase Before
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "denominator", p0.denominator, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "numerator", p0.numerator, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <MinParameter as TryFromV1<MinParameter>>::try_from_v1
return MinParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.threshold p0.threshold
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <NegativeParameter as TryFromV1<NegativeParameter>>::try_from_v1
return NegativeParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <NegativeMaxParameter as TryFromV1<NegativeMaxParameter>>::try_from_v1
return NegativeMaxParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.threshold p0.threshold
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <NegativeMinParameter as TryFromV1<NegativeMinParameter>>::try_from_v1
return NegativeMinParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.threshold p0.threshold
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <DiscountFactorParameter as TryFromV1<DiscountFactorParameter>>::try_from_v1
return DiscountFactorParameter{}
return.base_year p0.base_year
return.discount_rate Literal{value: p0.rate}
return.meta try_into_v2(p0.meta, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <HydropowerTargetParameter as TryFromV1<HydropowerTargetParameter>>::try_from_v1
return HydropowerTargetParameter{}
return.actual_flow none
return.efficiency p0.efficiency
return.energy_unit_conversion p0.energy_unit_conversion
return.flow_unit_conversion p0.flow_unit_conversion
return.max_flow try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "max_flow", p0.max_flow, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.min_flow try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "min_flow", p0.min_flow, p1, p2)
return.min_head p0.min_head
return.target try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "target", p0.target, p1, p2)
return.turbine_elevation p0.turbine_elevation
return.water_density p0.density
return.water_elevation try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "water_elevation_parameter", p0.water_elevation_parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "max_flow", p0.max_flow, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "min_flow", p0.min_flow, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "target", p0.target, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "water_elevation_parameter", p0.water_elevation_parameter, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <IndexedArrayParameter as TryFromV1<IndexedArrayParameter>>::try_from_v1
return IndexedArrayParameter{}
return.index_parameter try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "index_parameter", p0.index_parameter, p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.metrics list
return.metrics[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "index_parameter", p0.index_parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameters", elem(p0.parameters), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <InterpolatedParameter as TryFromV1<InterpolatedFlowParameter>>::try_from_v1
[accepts]
    Eq("linear", as_str(p0.interp_kwargs["kind"]))
    as_str(p0.interp_kwargs["kind"]) is None
    p0.interp_kwargs is None
    p0.interp_kwargs["kind"] is None
return InterpolatedParameter{}
return.error_on_bounds as_bool(p0.interp_kwargs["bounds_error"])
    as_bool(p0.interp_kwargs["bounds_error"]) is Some; p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is Some
return.error_on_bounds none
    as_bool(p0.interp_kwargs["bounds_error"]) is None; p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is Some
    p0.interp_kwargs is None
    p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is None
return.fp list
return.fp[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "values", elem(p0.values), p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.x Node{0: NodeAttrReference{attribute: none, name: p0.node}}
return.xp list
return.xp[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "flows", elem(p0.flows), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "flows", elem(p0.flows), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "values", elem(p0.values), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <InterpolatedParameter as TryFromV1<InterpolatedVolumeParameter>>::try_from_v1
[accepts]
    Eq("linear", as_str(p0.interp_kwargs["kind"]))
    as_str(p0.interp_kwargs["kind"]) is None
    p0.interp_kwargs is None
    p0.interp_kwargs["kind"] is None
return InterpolatedParameter{}
return.error_on_bounds as_bool(p0.interp_kwargs["bounds_error"])
    as_bool(p0.interp_kwargs["bounds_error"]) is Some; p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is Some
return.error_on_bounds none
    as_bool(p0.interp_kwargs["bounds_error"]) is None; p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is Some
    p0.interp_kwargs is None
    p0.interp_kwargs is Some; p0.interp_kwargs["bounds_error"] is None
return.fp list
return.fp[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "values", elem(p0.values), p1, p2)
return.meta try_into_v2(p0.meta, p1, p2)
return.x Node{0: NodeAttrReference{attribute: none, name: p0.node}}
return.xp list
return.xp[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "volumes", elem(p0.volumes), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "values", elem(p0.values), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "volumes", elem(p0.volumes), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <Polynomial1DParameter as TryFromV1<Polynomial1DParameter>>::try_from_v1
[accepts]
    p0.use_proportional_volume is None|false|true
return Polynomial1DParameter{}
return.coefficients p0.coefficients
return.meta try_into_v2(p0.meta, p1, p2)
return.metric Node{0: NodeAttrReference{attribute: ProportionalVolume, name: p0.storage_node}}
    p0.use_proportional_volume is None
    p0.use_proportional_volume is Some; p0.use_proportional_volume?
return.metric Node{0: NodeAttrReference{attribute: Volume, name: p0.storage_node}}
    !p0.use_proportional_volume?; p0.use_proportional_volume is Some
return.offset p0.offset
return.scale p0.scale
try_into_v2(p0.meta, p1, p2)
## <DailyProfileParameter as TryFromV1<DailyProfileParameter>>::try_from_v1
return DailyProfileParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.values try_convert_values(try_into_v2(p0.meta, p1, p2).name, p0.values, p0.external, p0.table_ref)
try_into_v2(p0.meta, p1, p2)
## <MonthlyInterpDay as From<MonthlyInterpDay>>::from
return First
    p0 is First
return Last
    p0 is Last
## <MonthlyInterpDay as From<MonthInterpDay>>::from
return First
    p0 is 0
return Last
    p0 is 1
## <MonthlyProfileParameter as TryFromV1<MonthlyProfileParameter>>::try_from_v1
return MonthlyProfileParameter{}
return.interp_day from(p0.interp_day)
    p0.interp_day is Some
return.interp_day none
    p0.interp_day is None
return.meta try_into_v2(p0.meta, p1, p2)
return.values try_convert_values(try_into_v2(p0.meta, p1, p2).name, none, p0.external, p0.table_ref)
    p0.values is None
return.values try_convert_values(try_into_v2(p0.meta, p1, p2).name, p0.values, p0.external, p0.table_ref)
    p0.values is Some
try_into_v2(p0.meta, p1, p2)
## <UniformDrawdownProfileParameter as TryFromV1<UniformDrawdownProfileParameter>>::try_from_v1
return UniformDrawdownProfileParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.reset_day Literal{value: p0.reset_day}
    p0.reset_day is Some
return.reset_day none
    p0.reset_day is None
return.reset_month Literal{value: p0.reset_month}
    p0.reset_month is Some
return.reset_month none
    p0.reset_month is None
return.residual_days Literal{value: p0.residual_days}
    p0.residual_days is Some
return.residual_days none
    p0.residual_days is None
try_into_v2(p0.meta, p1, p2)
## <RbfProfileVariableConfig as From<RbfProfileVariableSettings>>::from
return RbfProfileVariableConfig{}
return.days_of_year_range p0.days_of_year_range
return.value_lower_bounds 0
    p0.value_lower_bounds is None
return.value_lower_bounds p0.value_lower_bounds
    p0.value_lower_bounds is Some
return.value_upper_bounds inf
    p0.value_upper_bounds is None
return.value_upper_bounds p0.value_upper_bounds
    p0.value_upper_bounds is Some
## <RbfProfileParameter as TryFromV1<RbfProfileParameter>>::try_from_v1
[accepts]
    !Eq("cubic", as_str(p0.rbf_kwargs["function"])); !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("linear", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("thin_plate", as_str(p0.rbf_kwargs["function"]))
    !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("linear", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("cubic", as_str(p0.rbf_kwargs["function"]))
    !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("linear", as_str(p0.rbf_kwargs["function"]))
    !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("gaussian", as_str(p0.rbf_kwargs["function"]))
    !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("inverse", as_str(p0.rbf_kwargs["function"]))
    !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); Eq("multiquadric", as_str(p0.rbf_kwargs["function"]))
    !contains_key(p0.rbf_kwargs, "norm"); !contains_key(p0.rbf_kwargs, "smooth"); p0.rbf_kwargs["function"] is None
return RbfProfileParameter{}
return.function Cubic
    !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("linear", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("cubic", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["function"] is Some
return.function Gaussian{epsilon: as_f64(p0.rbf_kwargs["epsilon"])}
    !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("gaussian", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is Some; p0.rbf_kwargs["function"] is Some
return.function Gaussian{epsilon: none}
    !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("gaussian", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is None; p0.rbf_kwargs["function"] is Some
return.function InverseMultiQuadric{epsilon: as_f64(p0.rbf_kwargs["epsilon"])}
    !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("inverse", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is Some; p0.rbf_kwargs["function"] is Some
return.function InverseMultiQuadric{epsilon: none}
    !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("inverse", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is None; p0.rbf_kwargs["function"] is Some
return.function Linear
    !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); Eq("linear", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["function"] is Some
return.function MultiQuadric{epsilon: as_f64(p0.rbf_kwargs["epsilon"])}
    Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is Some; p0.rbf_kwargs["function"] is Some
    p0.rbf_kwargs["epsilon"] is Some; p0.rbf_kwargs["function"] is None
return.function MultiQuadric{epsilon: none}
    Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["epsilon"] is None; p0.rbf_kwargs["function"] is Some
    p0.rbf_kwargs["epsilon"] is None; p0.rbf_kwargs["function"] is None
return.function ThinPlateSpline
    !Eq("cubic", as_str(p0.rbf_kwargs["function"])); !Eq("gaussian", as_str(p0.rbf_kwargs["function"])); !Eq("inverse", as_str(p0.rbf_kwargs["function"])); !Eq("linear", as_str(p0.rbf_kwargs["function"])); !Eq("multiquadric", as_str(p0.rbf_kwargs["function"])); p0.rbf_kwargs["function"] is Some
return.meta try_into_v2(p0.meta, p1, p2)
return.points list
return.points[] (elem(p0.days_of_year), elem(p0.values))
return.variable none
try_into_v2(p0.meta, p1, p2)
## <WeeklyInterpDay as From<WeeklyInterpDay>>::from
return First
    p0 is First
return Last
    p0 is Last
## <WeeklyProfileParameter as TryFromV1<WeeklyProfileParameter>>::try_from_v1
return WeeklyProfileParameter{}
return.interp_day none
return.meta try_into_v2(p0.meta, p1, p2)
return.values try_convert_values(try_into_v2(p0.meta, p1, p2).name, p0.values, p0.external, p0.table_ref)
try_into_v2(p0.meta, p1, p2)
## <RollingParameter as TryFromV1<RollingMeanFlowNodeParameter>>::try_from_v1
[accepts]
    p0.days is None
return RollingParameter{}
return.agg_func Mean
return.initial_value default()
    p0.initial_flow is None
return.initial_value p0.initial_flow
    p0.initial_flow is Some
return.meta try_into_v2(p0.meta, p1, p2)
return.metric Node{0: NodeAttrReference{attribute: none, name: p0.node}}
return.min_values none
return.window_size p0.timesteps
try_into_v2(p0.meta, p1, p2)
## <TablesArrayParameter as TryFromV1<TablesArrayParameter>>::try_from_v1
return TablesArrayParameter{}
return.checksum none
    p0.checksum is None
return.checksum try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "checksum", p0.checksum, p1, p2)
    p0.checksum is Some
return.meta try_into_v2(p0.meta, p1, p2)
return.node p0.node
return.scenario p0.scenario
return.timestep_offset none
return.url p0.url
return.wh p0.wh
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "checksum", p0.checksum, p1, p2)
    p0.checksum is Some
try_into_v2(p0.meta, p1, p2)
## <Predicate as From<Predicate>>::from @schema pywr_schema pywr_v1_schema
return EQ
    p0 is 2
return GE
    p0 is 4
return GT
    p0 is 1
return LE
    p0 is 3
return LT
    p0 is 0
## <Predicate as From<Predicate>>::from @schema pywr_core pywr_schema
return EqualTo
    p0 is EQ
return GreaterThan
    p0 is GT
return GreaterThanOrEqualTo
    p0 is GE
return LessThan
    p0 is LT
return LessThanOrEqualTo
    p0 is LE
## <ThresholdParameter as TryFromV1<ParameterThresholdParameter>>::try_from_v1
return ThresholdParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.predicate from(p0.predicate)
return.ratchet false
return.returned_metrics none
    p0.values is None
return.returned_metrics try_into(list(Literal{value: elem(p0.values)}))
    p0.values is Some
return.threshold try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ThresholdParameter as TryFromV1<NodeThresholdParameter>>::try_from_v1
return ThresholdParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric Node{0: NodeAttrReference{attribute: none, name: p0.node}}
return.predicate from(p0.predicate)
return.ratchet false
return.returned_metrics none
    p0.values is None
return.returned_metrics try_into(list(Literal{value: elem(p0.values)}))
    p0.values is Some
return.threshold try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ThresholdParameter as TryFromV1<StorageThresholdParameter>>::try_from_v1
return ThresholdParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric Node{0: NodeAttrReference{attribute: none, name: p0.storage_node}}
return.predicate from(p0.predicate)
return.ratchet false
return.returned_metrics none
    p0.values is None
return.returned_metrics try_into(list(Literal{value: elem(p0.values)}))
    p0.values is Some
return.threshold try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "threshold", p0.threshold, p1, p2)
try_into_v2(p0.meta, p1, p2)
## <MultiThresholdParameter as TryFromV1<MultipleThresholdIndexParameter>>::try_from_v1
return MultiThresholdParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric Node{0: NodeAttrReference{attribute: none, name: p0.node}}
return.predicate GE
return.ratchet false
return.returned_metrics none
return.thresholds list
return.thresholds[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "thresholds", elem(p0.thresholds), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "thresholds", elem(p0.thresholds), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <MultiThresholdParameter as TryFromV1<MultipleThresholdParameterIndexParameter>>::try_from_v1
return MultiThresholdParameter{}
return.meta try_into_v2(p0.meta, p1, p2)
return.metric try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
return.predicate GE
return.ratchet false
return.returned_metrics none
return.thresholds list
return.thresholds[] try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "thresholds", elem(p0.thresholds), p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "parameter", p0.parameter, p1, p2)
try_convert_parameter_attr(try_into_v2(p0.meta, p1, p2).name, "thresholds", elem(p0.thresholds), p1, p2)
try_into_v2(p0.meta, p1, p2)
## <ParameterOrTimeseriesRef as From<Parameter>>::from
return Parameter{0: new(p0)}
## <ParameterOrTimeseriesRef as From<ConvertedTimeseriesReference>>::from
return Timeseries{0: p0}
## <ParameterOrTimeseriesRef as TryFromV1<Parameter>>::try_from_v1
[accepts]
    p0 is 0; p0~Core.0.0 is 0|1|10|11|12|13|14|15|16|17|18|19|2|20|21|22|23|24|25|28|29|3|31|32|33|34|36|39|4|5|6|7|8|9
[success]
    p0~Core.0.0 is 0|1|10|11|12|13|14|15|16|17|18|19|2|20|21|22|23|24|25|28|29|3|31|32|33|34|36|39|4|5|6|7|8|9
return Parameter{0: new(AggregatedIndex{0: try_into_v2(p0~Core.0.0~AggregatedIndex.0, p1, p2)})}
    p0~Core.0.0 is 1
return Parameter{0: new(Aggregated{0: try_into_v2(p0~Core.0.0~Aggregated.0, p1, p2)})}
    p0~Core.0.0 is 0
return Parameter{0: new(AsymmetricSwitchIndex{0: try_into_v2(p0~Core.0.0~AsymmetricSwitchIndex.0, p1, p2)})}
    p0~Core.0.0 is 2
return Parameter{0: new(ConstantScenario{0: try_into_v2(p0~Core.0.0~ConstantScenario.0, p1, p2)})}
    p0~Core.0.0 is 4
return Parameter{0: new(Constant{0: try_into_v2(p0~Core.0.0~Constant.0, p1, p2)})}
    p0~Core.0.0 is 3
return Parameter{0: new(ControlCurveIndex{0: try_into_v2'(p0~Core.0.0~ControlCurve.0, p1, p2)})}
    p0~Core.0.0 is 8; try_into_v2(p0~Core.0.0~ControlCurve.0, p1, p2) is Err
return Parameter{0: new(ControlCurveIndex{0: try_into_v2(p0~Core.0.0~ControlCurveIndex.0, p1, p2)})}
    p0~Core.0.0 is 7
return Parameter{0: new(ControlCurveInterpolated{0: try_into_v2(p0~Core.0.0~ControlCurveInterpolated.0, p1, p2)})}
    p0~Core.0.0 is 6
return Parameter{0: new(ControlCurvePiecewiseInterpolated{0: try_into_v2(p0~Core.0.0~ControlCurvePiecewiseInterpolated.0, p1, p2)})}
    p0~Core.0.0 is 5
return Parameter{0: new(ControlCurve{0: try_into_v2(p0~Core.0.0~ControlCurve.0, p1, p2)})}
    p0~Core.0.0 is 8; try_into_v2(p0~Core.0.0~ControlCurve.0, p1, p2) is Ok
return Parameter{0: new(DailyProfile{0: try_into_v2(p0~Core.0.0~DailyProfile.0, p1, p2)})}
    p0~Core.0.0 is 9
return Parameter{0: new(DiscountFactor{0: try_into_v2(p0~Core.0.0~DiscountFactor.0, p1, p2)})}
    p0~Core.0.0 is 31
return Parameter{0: new(Division{0: try_into_v2(p0~Core.0.0~Division.0, p1, p2)})}
    p0~Core.0.0 is 18
return Parameter{0: new(HydropowerTarget{0: try_into_v2(p0~Core.0.0~HydropowerTarget.0, p1, p2)})}
    p0~Core.0.0 is 34
return Parameter{0: new(IndexedArray{0: try_into_v2(p0~Core.0.0~IndexedArray.0, p1, p2)})}
    p0~Core.0.0 is 10
return Parameter{0: new(Interpolated{0: try_into_v2(p0~Core.0.0~InterpolatedFlow.0, p1, p2)})}
    p0~Core.0.0 is 33
return Parameter{0: new(Interpolated{0: try_into_v2(p0~Core.0.0~InterpolatedVolume.0, p1, p2)})}
    p0~Core.0.0 is 32
return Parameter{0: new(Max{0: try_into_v2(p0~Core.0.0~Max.0, p1, p2)})}
    p0~Core.0.0 is 14
return Parameter{0: new(Min{0: try_into_v2(p0~Core.0.0~Min.0, p1, p2)})}
    p0~Core.0.0 is 15
return Parameter{0: new(MonthlyProfile{0: try_into_v2(p0~Core.0.0~MonthlyProfile.0, p1, p2)})}
    p0~Core.0.0 is 11
return Parameter{0: new(MultiThreshold{0: try_into_v2(p0~Core.0.0~MultipleThresholdIndex.0, p1, p2)})}
    p0~Core.0.0 is 24
return Parameter{0: new(MultiThreshold{0: try_into_v2(p0~Core.0.0~MultipleThresholdParameterIndex.0, p1, p2)})}
    p0~Core.0.0 is 25
return Parameter{0: new(NegativeMax{0: try_into_v2(p0~Core.0.0~NegativeMax.0, p1, p2)})}
    p0~Core.0.0 is 17
return Parameter{0: new(NegativeMin{0: try_into_v2(p0~Core.0.0~NegativeMin.0, p1, p2)})}
    p0~Core.0.0 is 16
return Parameter{0: new(Negative{0: try_into_v2(p0~Core.0.0~Negative.0, p1, p2)})}
    p0~Core.0.0 is 19
return Parameter{0: new(Polynomial1D{0: try_into_v2(p0~Core.0.0~Polynomial1D.0, p1, p2)})}
    p0~Core.0.0 is 20
return Parameter{0: new(RbfProfile{0: try_into_v2(p0~Core.0.0~RbfProfile.0, p1, p2)})}
    p0~Core.0.0 is 39
return Parameter{0: new(Rolling{0: try_into_v2(p0~Core.0.0~RollingMeanFlowNode.0, p1, p2)})}
    p0~Core.0.0 is 36
return Parameter{0: new(TablesArray{0: try_into_v2(p0~Core.0.0~TablesArray.0, p1, p2)})}
    p0~Core.0.0 is 28
return Parameter{0: new(Threshold{0: try_into_v2(p0~Core.0.0~NodeThreshold.0, p1, p2)})}
    p0~Core.0.0 is 22
return Parameter{0: new(Threshold{0: try_into_v2(p0~Core.0.0~ParameterThreshold.0, p1, p2)})}
    p0~Core.0.0 is 21
return Parameter{0: new(Threshold{0: try_into_v2(p0~Core.0.0~StorageThreshold.0, p1, p2)})}
    p0~Core.0.0 is 23
return Parameter{0: new(UniformDrawdownProfile{0: try_into_v2(p0~Core.0.0~UniformDrawdownProfile.0, p1, p2)})}
    p0~Core.0.0 is 13
return Parameter{0: new(WeeklyProfile{0: try_into_v2(p0~Core.0.0~WeeklyProfile.0, p1, p2)})}
    p0~Core.0.0 is 12
return Timeseries{0: try_into_v2(p0~Core.0.0~DataFrame.0, p1, p2)}
    p0~Core.0.0 is 29
try_into_v2(p0~Core.0.0~Aggregated.0, p1, p2)
    p0~Core.0.0 is 0
try_into_v2(p0~Core.0.0~AggregatedIndex.0, p1, p2)
    p0~Core.0.0 is 1
try_into_v2(p0~Core.0.0~AsymmetricSwitchIndex.0, p1, p2)
    p0~Core.0.0 is 2
try_into_v2(p0~Core.0.0~Constant.0, p1, p2)
    p0~Core.0.0 is 3
try_into_v2(p0~Core.0.0~ConstantScenario.0, p1, p2)
    p0~Core.0.0 is 4
try_into_v2(p0~Core.0.0~ControlCurve.0, p1, p2)
    p0~Core.0.0 is 8
try_into_v2(p0~Core.0.0~ControlCurveIndex.0, p1, p2)
    p0~Core.0.0 is 7
try_into_v2(p0~Core.0.0~ControlCurveInterpolated.0, p1, p2)
    p0~Core.0.0 is 6
try_into_v2(p0~Core.0.0~ControlCurvePiecewiseInterpolated.0, p1, p2)
    p0~Core.0.0 is 5
try_into_v2(p0~Core.0.0~DailyProfile.0, p1, p2)
    p0~Core.0.0 is 9
try_into_v2(p0~Core.0.0~DataFrame.0, p1, p2)
    p0~Core.0.0 is 29
try_into_v2(p0~Core.0.0~DiscountFactor.0, p1, p2)
    p0~Core.0.0 is 31
try_into_v2(p0~Core.0.0~Division.0, p1, p2)
    p0~Core.0.0 is 18
try_into_v2(p0~Core.0.0~HydropowerTarget.0, p1, p2)
    p0~Core.0.0 is 34
try_into_v2(p0~Core.0.0~IndexedArray.0, p1, p2)
    p0~Core.0.0 is 10
try_into_v2(p0~Core.0.0~InterpolatedFlow.0, p1, p2)
    p0~Core.0.0 is 33
try_into_v2(p0~Core.0.0~InterpolatedVolume.0, p1, p2)
    p0~Core.0.0 is 32
try_into_v2(p0~Core.0.0~Max.0, p1, p2)
    p0~Core.0.0 is 14
try_into_v2(p0~Core.0.0~Min.0, p1, p2)
    p0~Core.0.0 is 15
try_into_v2(p0~Core.0.0~MonthlyProfile.0, p1, p2)
    p0~Core.0.0 is 11
try_into_v2(p0~Core.0.0~MultipleThresholdIndex.0, p1, p2)
    p0~Core.0.0 is 24
try_into_v2(p0~Core.0.0~MultipleThresholdParameterIndex.0, p1, p2)
    p0~Core.0.0 is 25
try_into_v2(p0~Core.0.0~Negative.0, p1, p2)
    p0~Core.0.0 is 19
try_into_v2(p0~Core.0.0~NegativeMax.0, p1, p2)
    p0~Core.0.0 is 17
try_into_v2(p0~Core.0.0~NegativeMin.0, p1, p2)
    p0~Core.0.0 is 16
try_into_v2(p0~Core.0.0~NodeThreshold.0, p1, p2)
    p0~Core.0.0 is 22
try_into_v2(p0~Core.0.0~ParameterThreshold.0, p1, p2)
    p0~Core.0.0 is 21
try_into_v2(p0~Core.0.0~Polynomial1D.0, p1, p2)
    p0~Core.0.0 is 20
try_into_v2(p0~Core.0.0~RbfProfile.0, p1, p2)
    p0~Core.0.0 is 39
try_into_v2(p0~Core.0.0~RollingMeanFlowNode.0, p1, p2)
    p0~Core.0.0 is 36
try_into_v2(p0~Core.0.0~StorageThreshold.0, p1, p2)
    p0~Core.0.0 is 23
try_into_v2(p0~Core.0.0~TablesArray.0, p1, p2)
    p0~Core.0.0 is 28
try_into_v2(p0~Core.0.0~UniformDrawdownProfile.0, p1, p2)
    p0~Core.0.0 is 13
try_into_v2(p0~Core.0.0~WeeklyProfile.0, p1, p2)
    p0~Core.0.0 is 12
## <ConstantValue<f64> as From<f64>>::from
return Literal{value: p0}
## <ConstantValue<u64> as From<u64>>::from
return Literal{value: p0}
## <ConstantValue<u64> as From<u32>>::from
return Literal{value: p0}
## <ConstantValue<u64> as From<u16>>::from
return Literal{value: p0}
## <ConstantValue<u64> as From<u8>>::from
return Literal{value: p0}
## <ConstantValue<f64> as TryFrom<ParameterValue>>::try_from
[accepts]
    p0 is 0|3
[success]
    p0 is 0|3
return Literal{value: p0~Constant.0}
    p0 is 0
return Table{0: try_into(p0~Table.0)}
    p0 is 3
## <TableIndex as TryFrom<TableIndex>>::try_from
[accepts]
    p0 is 0; p0~Single.0 is 0
    p0 is 1
return Multi{0: list(elem(p0~Multi.0)~Name.0)}
    p0 is 1
return Single{0: p0~Single.0~Name.0}
    p0 is 0
## <DynamicFloatValueType<'a> as From<&'a Metric>>::from
return Single{0: p0}
## <DynamicFloatValueType<'a> as From<&'a Vec<Metric>>>::from
return List{0: p0}
## <TimeseriesReference as FromPyObject>::extract
return extract(p0)
## <ConvertedTimeseriesReference as TryFromV1<DataFrameParameter>>::try_from_v1
[accepts]
    p0.column is None
    p0.scenario is None
leave loop early()
    Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); p0.url is Some
push(p2.timeseries, Pandas{0: PandasTimeseries{checksum: none, kwargs: p0.pandas_kwargs, meta: try_into_v2(p0.meta, p1, p2), time_col: as_str(remove(p0.pandas_kwargs, "index_col")), url: p0.url}})
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); as_str(remove(p0.pandas_kwargs, "index_col")) is Some; p0.checksum is None; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is Some
push(p2.timeseries, Pandas{0: PandasTimeseries{checksum: none, kwargs: p0.pandas_kwargs, meta: try_into_v2(p0.meta, p1, p2), time_col: none, url: p0.url}})
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); as_str(remove(p0.pandas_kwargs, "index_col")) is None; p0.checksum is None; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is Some
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); p0.checksum is None; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is None
push(p2.timeseries, Pandas{0: PandasTimeseries{checksum: ok(try_from_v1(p0.checksum, p1, p2)), kwargs: p0.pandas_kwargs, meta: try_into_v2(p0.meta, p1, p2), time_col: as_str(remove(p0.pandas_kwargs, "index_col")), url: p0.url}})
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); as_str(remove(p0.pandas_kwargs, "index_col")) is Some; p0.checksum is Some; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is Some
push(p2.timeseries, Pandas{0: PandasTimeseries{checksum: ok(try_from_v1(p0.checksum, p1, p2)), kwargs: p0.pandas_kwargs, meta: try_into_v2(p0.meta, p1, p2), time_col: none, url: p0.url}})
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); as_str(remove(p0.pandas_kwargs, "index_col")) is None; p0.checksum is Some; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is Some
    !Eq(name(elem(p2.timeseries)), try_into_v2(p0.meta, p1, p2).name); p0.checksum is Some; p0.url is Some; remove(p0.pandas_kwargs, "index_col") is None
remove(p0.pandas_kwargs, "index_col")
    p0.url is Some
remove(p0.pandas_kwargs, "parse_dates")
    Eq("csv", extension(p0.url)); contains_key(p0.pandas_kwargs, "parse_dates"); extension(p0.url) is Some; p0.url is Some
return ConvertedTimeseriesReference{}
return.original_parameter_name try_into_v2(p0.meta, p1, p2).name
return.ts_ref TimeseriesReference{}
return.ts_ref.columns Column{name: p0.column}
    p0.column is Some
return.ts_ref.columns Scenario{name: p0.scenario}
    p0.column is None; p0.scenario is Some
return.ts_ref.columns none
    p0.column is None; p0.scenario is None
return.ts_ref.name p0.table
    p0.url is None
return.ts_ref.name try_into_v2(p0.meta, p1, p2).name
    p0.url is Some
try_from_v1(p0.checksum, p1, p2)
    p0.checksum is Some; p0.url is Some
try_into_v2(p0.meta, p1, p2)
## ConversionData::reset_count
self.unnamed_count := 0
## <Option<T> as TryFromV1<Option<U>>>::try_from_v1
return none
    p0 is None
return try_into_v2(p0, p1, p2)
    p0 is Some
try_into_v2(p0, p1, p2)
    p0 is Some
## <T as TryIntoV2<U>>::try_into_v2
return try_from_v1(self, p1, p2)
try_from_v1(self, p1, p2)
## v1::convert_tags
return list
return[] (elem(default()).0, elem(default()).1~String.0)
    p0 is None
return[] (elem(p0).0, elem(p0).1~String.0)
    p0 is Some
## <ParameterMeta as TryFromV1<ParameterMeta>>::try_from_v1
p2.unnamed_count := (p2.unnamed_count +1)
    p0.name is None
return ParameterMeta{}
return.comment p0.comment
return.name must_use(format(new(b"\x08unnamed-\xc0\x00", (new_display((p2.unnamed_count +1))))))
    p0.name is None; p1 is None
return.name must_use(format(new(b"\xc0\x02-p\xc0\x00", (new_display(p1), new_display((p2.unnamed_count +1))))))
    p0.name is None; p1 is Some
return.name p0.name
    p0.name is Some
return.tags convert_tags(p0.tags)
## <ParameterMeta as TryFromV1<Option<ParameterMeta>>>::try_from_v1
p2.unnamed_count := (p2.unnamed_count +1)
    p0 is None
return ParameterMeta{}
    p0 is None
return try_into_v2(p0, p1, p2)
    p0 is Some
return.comment none
    p0 is None
return.name must_use(format(new(b"\x08unnamed-\xc0\x00", (new_display((p2.unnamed_count +1))))))
    p0 is None
return.tags new()
    p0 is None
try_into_v2(p0, p1, p2)
    p0 is Some
## v1::try_convert_node_attr
return try_into_v2(p2, p0, p4)
    p3 is None
return try_into_v2(p2, p3, p4)
    p3 is Some
try_into_v2(p2, p0, p4)
    p3 is None
try_into_v2(p2, p3, p4)
    p3 is Some
## v1::try_convert_parameter_attr
return try_into_v2(p2, p0, p4)
    p3 is None
return try_into_v2(p2, p3, p4)
    p3 is Some
try_into_v2(p2, p0, p4)
    p3 is None
try_into_v2(p2, p3, p4)
    p3 is Some
## v1::try_convert_node_meta
return try_from(p0)
## v1::try_convert_initial_storage
return Absolute{volume: p2}
    p2 is Some
return Proportional{proportion: p3}
    p2 is None
## v1::try_convert_values
return Literal{values: p1}
    p1 is Some
return Table{0: try_into(p3)}
    p1 is None
## v1::try_convert_control_curves
return list
return[] try_convert_parameter_attr(p0, "control_curve", p2, p3, p4)
    p1 is None
return[] try_convert_parameter_attr(p0, "control_curves", elem(p1), p3, p4)
    p1 is Some
try_convert_parameter_attr(p0, "control_curve", p2, p3, p4)
    p1 is None
try_convert_parameter_attr(p0, "control_curves", elem(p1), p3, p4)
    p1 is Some
