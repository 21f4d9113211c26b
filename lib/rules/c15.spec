## AbstractionNode::default_attribute
return Abstraction
## AbstractionNode::default_component
return Abstraction
## AbstractionNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, "abstraction")
    p1 is None
    p1 is Some; try_into(p1) is Abstraction|Inflow
return[] new(self.meta.name, "bypass")
    p1 is Some; try_into(p1) is Inflow|Outflow
return[] new(self.meta.name, "mrf")
    p1 is Some; self.mrf is Some; try_into(p1) is Inflow|Outflow
## AbstractionNode::create_metric
return MultiNodeInFlow{}
    p1 is Some; try_into(p1) is Inflow|Outflow
return NodeOutFlow{0: new(self.meta.name, "abstraction")}
    p1 is None
    p1 is Some; try_into(p1) is Abstraction
return.name self.meta.name
    p1 is Some; try_into(p1) is Inflow|Outflow
return.nodes nodes_for_flow_constraints(self, Inflow)
    p1 is Some; try_into(p1) is Inflow
return.nodes nodes_for_flow_constraints(self, Outflow)
    p1 is Some; try_into(p1) is Outflow
## InputNode::default_attribute
return Outflow
## InputNode::default_component
return Outflow
## InputNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, none)
## InputNode::create_metric
return NodeOutFlow{0: new(self.meta.name, none)}
## LinkNode::default_attribute
return Outflow
## LinkNode::default_component
return Outflow
## LinkNode::nodes_for_flow_constraints
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_max"))
    self.soft_max is Some
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_min"))
    self.soft_min is Some
return list
return[] new(self.meta.name, none)
## LinkNode::create_metric
return MultiNodeInFlow{}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return MultiNodeOutFlow{}
    p1 is Some; try_into(p1) is Inflow
return.name self.meta.name
return.nodes list
return.nodes[] new(self.meta.name, "soft_max")
    self.soft_max is Some
return.nodes[] new(self.meta.name, "soft_min")
    self.soft_min is Some
return.nodes[] new(self.meta.name, none)
## OutputNode::default_attribute
return Inflow
## OutputNode::default_component
return Inflow
## OutputNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, none)
## OutputNode::create_metric
push(p1.parameters.f64, new(DeficitParameterBuilder{flow: NodeInFlow{0: UnresolvedNode{name: self.meta.name, sub_name: none}}, max_flow: NodeMaxFlow{0: UnresolvedNode{name: self.meta.name, sub_name: none}}, meta: ParameterMeta{name: new("deficit", self.meta.name)}}))
    !contains_name(p1.parameters, new("deficit", self.meta.name)); p2 is Some; try_into(p2) is Deficit
return NodeInFlow{0: new(self.meta.name, none)}
    p2 is None
    p2 is Some; try_into(p2) is Inflow
return ParameterValue{}
    p2 is Some; try_into(p2) is Deficit
return.name new("deficit", self.meta.name)
    p2 is Some; try_into(p2) is Deficit
return.return_value AfterOrElseInitial
    p2 is Some; try_into(p2) is Deficit
## <StorageInitialVolume as Default>::default
return Proportional{proportion: 1}
## StorageNode::default_attribute
return Volume
## StorageNode::nodes_for_storage_constraints
return list
return[] new(self.meta.name, none)
## StorageNode::make_builder
NodeBuilder{name: self.meta.name}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: self.meta.name}.initial_volume := from(self.initial_volume)
NodeBuilder{name: self.meta.name}.max_volume := load(self.max_volume, p1, p2, self.meta.name)
    self.max_volume is Some
NodeBuilder{name: self.meta.name}.min_volume := load(self.min_volume, p1, p2, self.meta.name)
    self.min_volume is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_volume, p1, p2, self.meta.name)
    self.max_volume is Some
load(self.min_volume, p1, p2, self.meta.name)
    self.min_volume is Some
return NodeBuilder{}
return.cost none
return.cost_agg_func none
return.initial_volume none
return.max_flow none
return.max_volume none
return.min_flow none
return.min_volume none
return.name self.meta.name
return.node_type Storage
## StorageNode::create_metric
return NodeMaxVolume{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is MaxVolume
return NodeProportionalVolume{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is ProportionalVolume
return NodeVolume{0: new(self.meta.name, none)}
    p1 is None
    p1 is Some; try_into(p1) is Volume
## CatchmentNode::default_attribute
return Outflow
## CatchmentNode::default_component
return Outflow
## CatchmentNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, none)
## CatchmentNode::create_metric
return NodeOutFlow{0: new(self.meta.name, none)}
## DelayNode::default_attribute
return Outflow
## DelayNode::default_component
return Outflow
## DelayNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, "inflow")
    p1 is Some; try_into(p1) is Inflow
return[] new(self.meta.name, "outflow")
    p1 is None
    p1 is Some; try_into(p1) is Outflow
## DelayNode::create_metric
return NodeInFlow{0: new(self.meta.name, "inflow")}
    p1 is Some; try_into(p1) is Inflow
return NodeOutFlow{0: new(self.meta.name, "outflow")}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
## LossFactor::load
load(self~Gross.factor, p1, p2, p3)
    self is Gross
load(self~Net.factor, p1, p2, p3)
    self is Net
push(default().factors, Constant{0: 1})
    !is_constant_zero(load(self~Net.factor, p1, p2, p3)); self is Net
push(default().factors, load(self~Gross.factor, p1, p2, p3))
    !is_constant_zero(load(self~Gross.factor, p1, p2, p3)); self is Gross
push(default().factors, load(self~Net.factor, p1, p2, p3))
    !is_constant_zero(load(self~Net.factor, p1, p2, p3)); self is Net
return new(default())
    !is_constant_zero(load(self~Gross.factor, p1, p2, p3)); self is Gross
    !is_constant_zero(load(self~Net.factor, p1, p2, p3)); self is Net
return none
    is_constant_zero(load(self~Gross.factor, p1, p2, p3)); self is Gross
    is_constant_zero(load(self~Net.factor, p1, p2, p3)); self is Net
## LossLinkNode::default_attribute
return Outflow
## LossLinkNode::default_component
return Outflow
## LossLinkNode::nodes_for_flow_constraints
return list
    p1 is None
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
    p1 is Some; try_into(p1) is Inflow|Outflow
return new()
    p1 is Some; self.loss_factor is None; try_into(p1) is Loss
return[] new(self.meta.name, "loss")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow|Loss
return[] new(self.meta.name, "net")
    p1 is None
    p1 is Some; try_into(p1) is Inflow|Outflow
## LossLinkNode::create_metric
return Constant{0: 0}
    p1 is Some; self.loss_factor is None; try_into(p1) is Loss
return MultiNodeInFlow{}
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return NodeInFlow{0: new(self.meta.name, "loss")}
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
return NodeInFlow{0: new(self.meta.name, "net")}
    p1 is Some; self.loss_factor is None; try_into(p1) is Inflow
return NodeOutFlow{0: new(self.meta.name, "net")}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return.name self.meta.name
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes list
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes[] new(self.meta.name, "loss")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes[] new(self.meta.name, "net")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
## PiecewiseLinkNode::default_attribute
return Outflow
## PiecewiseLinkNode::default_component
return Outflow
## PiecewiseLinkNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
## PiecewiseLinkNode::create_metric
return MultiNodeInFlow{}
    p1 is Some; try_into(p1) is Inflow
return MultiNodeOutFlow{}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return.name self.meta.name
return.nodes list
return.nodes[] new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
## PiecewiseStorageNode::default_attribute
return Volume
## PiecewiseStorageNode::nodes_for_storage_constraints
return list
return[] new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(elem(Range{end: (len(self.steps) +1), start: 0})))))))
## PiecewiseStorageNode::set_sub_node_max_volume
VolumeBetweenControlCurvesParameterBuilder{meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-max-volume\x00", (new_display(p1))))), self.meta.name)}}.lower := p4
    p4 is Some
VolumeBetweenControlCurvesParameterBuilder{meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-max-volume\x00", (new_display(p1))))), self.meta.name)}}.upper := p3
    p3 is Some
p6.max_volume := ParameterValue{}
p6.max_volume.name := new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-max-volume\x00", (new_display(p1))))), self.meta.name)
p6.max_volume.return_value := Before
push(p5.parameters.f64, new(VolumeBetweenControlCurvesParameterBuilder{lower: none, meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-max-volume\x00", (new_display(p1))))), self.meta.name)}, total: p2, upper: none}))
return ParameterValue{}
return.name new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-max-volume\x00", (new_display(p1))))), self.meta.name)
return.return_value Before
## PiecewiseStorageNode::set_sub_node_min_volume
DifferenceParameterBuilder{meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-min-volume\x00", (new_display(p1))))), self.meta.name)}}.max := p4
DifferenceParameterBuilder{meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-min-volume\x00", (new_display(p1))))), self.meta.name)}}.min := Constant{0: 0}
p6.min_volume := ParameterValue{}
p6.min_volume.name := new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-min-volume\x00", (new_display(p1))))), self.meta.name)
p6.min_volume.return_value := Before
push(p5.parameters.f64, new(DifferenceParameterBuilder{a: p2, b: p3, max: none, meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x0b-min-volume\x00", (new_display(p1))))), self.meta.name)}, min: none}))
## PiecewiseStorageNode::set_sub_node_initial_volume
p3.initial_volume := DistributedAbsolute{}
    self.initial_volume is Absolute
p3.initial_volume := DistributedProportional{}
    self.initial_volume is Proportional
p3.initial_volume.absolute := self.initial_volume~Absolute.volume
    self.initial_volume is Absolute
p3.initial_volume.prior_max_volume := p2
p3.initial_volume.proportion := self.initial_volume~Proportional.proportion
    self.initial_volume is Proportional
p3.initial_volume.total_volume := p1
    self.initial_volume is Proportional
## PiecewiseStorageNode::create_metric
return AggregatedStorageNodeProportionalVolume{0: new(self.meta.name, "agg-store")}
    p1 is Some; try_into(p1) is ProportionalVolume
return AggregatedStorageNodeVolume{0: new(self.meta.name, "agg-store")}
    p1 is None
    p1 is Some; try_into(p1) is Volume
## PlaceholderNode::default_attribute
return Outflow
## PlaceholderNode::nodes_for_flow_constraints

## PlaceholderNode::nodes_for_storage_constraints

## PlaceholderNode::create_metric

## ReservoirNode::meta
return self.storage.meta
## ReservoirNode::meta_mut
return self.storage.meta
## ReservoirNode::default_attribute
return from(Volume)
## ReservoirNode::default_component
return Compensation
## ReservoirNode::nodes_for_flow_constraints
return list
return[] new(self.storage.meta.name, "compensation")
    p1 is None
    p1 is Some; try_into(p1) is Compensation
return[] new(self.storage.meta.name, "evaporation")
    p1 is Some; try_into(p1) is Evaporation
return[] new(self.storage.meta.name, "leakage")
    p1 is Some; try_into(p1) is Loss
return[] new(self.storage.meta.name, "rainfall")
    p1 is Some; try_into(p1) is Rainfall
## ReservoirNode::get_area_metric
push(p1.parameters.f64, InterpolatedParameterBuilder{})
    p4.data is Interpolated
push(p1.parameters.f64, InterpolatedParameterBuilder{}).error_on_bounds = true
    p4.data is Interpolated
push(p1.parameters.f64, InterpolatedParameterBuilder{}).meta = ParameterMeta{name: new(p3, self.storage.meta.name)}
    p4.data is Interpolated
push(p1.parameters.f64, InterpolatedParameterBuilder{}).points = list
    p4.data is Interpolated
push(p1.parameters.f64, InterpolatedParameterBuilder{}).points[] = (Constant{0: elem(load(p4.data~Interpolated.storage, p2.tables))}, Constant{0: elem(load(p4.data~Interpolated.area, p2.tables))})
    p4.data is Interpolated
push(p1.parameters.f64, InterpolatedParameterBuilder{}).x = Constant{0: 1}
    p4.data is Interpolated; p4.is_storage_proportional; p5
push(p1.parameters.f64, InterpolatedParameterBuilder{}).x = NodeMaxVolume{0: new(self.storage.meta.name, none)}
    !p4.is_storage_proportional; p4.data is Interpolated; p5
push(p1.parameters.f64, InterpolatedParameterBuilder{}).x = NodeProportionalVolume{0: new(self.storage.meta.name, none)}
    !p5; p4.data is Interpolated; p4.is_storage_proportional
push(p1.parameters.f64, InterpolatedParameterBuilder{}).x = NodeVolume{0: new(self.storage.meta.name, none)}
    !p4.is_storage_proportional; !p5; p4.data is Interpolated
push(p1.parameters.f64, Polynomial1DParameterBuilder{})
    p4.data is Polynomial
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).coefficients = p4.data~Polynomial.0
    p4.data is Polynomial
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).meta = ParameterMeta{name: new(p3, self.storage.meta.name)}
    p4.data is Polynomial
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).metric = Constant{0: 1}
    p4.data is Polynomial; p4.is_storage_proportional; p5
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).metric = NodeMaxVolume{0: new(self.storage.meta.name, none)}
    !p4.is_storage_proportional; p4.data is Polynomial; p5
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).metric = NodeProportionalVolume{0: new(self.storage.meta.name, none)}
    !p5; p4.data is Polynomial; p4.is_storage_proportional
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).metric = NodeVolume{0: new(self.storage.meta.name, none)}
    !p4.is_storage_proportional; !p5; p4.data is Polynomial
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).offset = 0
    p4.data is Polynomial
push(p1.parameters.f64, Polynomial1DParameterBuilder{}).scale = 1
    p4.data is Polynomial
return ParameterValue{}
return.name new(p3, self.storage.meta.name)
return.return_value Before
## ReservoirNode::create_metric
return Constant{0: 0}
    create_metric(self.storage, p1) is Err; from(Volume) is Compensation; p1 is None; self.compensation is None
    create_metric(self.storage, p1) is Err; from(Volume) is Evaporation; p1 is None; self.evaporation is None
    create_metric(self.storage, p1) is Err; from(Volume) is Evaporation; p1 is None; self.evaporation is Some; self.surface_area is None
    create_metric(self.storage, p1) is Err; from(Volume) is Rainfall; p1 is None; self.rainfall is None
    create_metric(self.storage, p1) is Err; from(Volume) is Rainfall; p1 is None; self.rainfall is Some; self.surface_area is None
    create_metric(self.storage, p1) is Err; p1 is Some; self.compensation is None; try_into(p1) is Compensation
    create_metric(self.storage, p1) is Err; p1 is Some; self.evaporation is None; try_into(p1) is Evaporation
    create_metric(self.storage, p1) is Err; p1 is Some; self.evaporation is Some; self.surface_area is None; try_into(p1) is Evaporation
    create_metric(self.storage, p1) is Err; p1 is Some; self.rainfall is None; try_into(p1) is Rainfall
    create_metric(self.storage, p1) is Err; p1 is Some; self.rainfall is Some; self.surface_area is None; try_into(p1) is Rainfall
return NodeInFlow{0: new(self.storage.meta.name, "compensation")}
    create_metric(self.storage, p1) is Err; from(Volume) is Compensation; p1 is None; self.compensation is Some
    create_metric(self.storage, p1) is Err; p1 is Some; self.compensation is Some; try_into(p1) is Compensation
return NodeInFlow{0: new(self.storage.meta.name, "evaporation")}
    create_metric(self.storage, p1) is Err; from(Volume) is Evaporation; p1 is None; self.evaporation is Some; self.surface_area is Some
    create_metric(self.storage, p1) is Err; p1 is Some; self.evaporation is Some; self.surface_area is Some; try_into(p1) is Evaporation
return NodeMaxVolume{0: new(self.storage.meta.name, none)}
    create_metric(self.storage, p1) is Err; from(Volume) is MaxVolume; p1 is None
    create_metric(self.storage, p1) is Err; p1 is Some; try_into(p1) is MaxVolume
return NodeOutFlow{0: new(self.storage.meta.name, "rainfall")}
    create_metric(self.storage, p1) is Err; from(Volume) is Rainfall; p1 is None; self.rainfall is Some; self.surface_area is Some
    create_metric(self.storage, p1) is Err; p1 is Some; self.rainfall is Some; self.surface_area is Some; try_into(p1) is Rainfall
return NodeProportionalVolume{0: new(self.storage.meta.name, none)}
    create_metric(self.storage, p1) is Err; from(Volume) is ProportionalVolume; p1 is None
    create_metric(self.storage, p1) is Err; p1 is Some; try_into(p1) is ProportionalVolume
return NodeVolume{0: new(self.storage.meta.name, none)}
    create_metric(self.storage, p1) is Err; from(Volume) is Volume; p1 is None
    create_metric(self.storage, p1) is Err; p1 is Some; try_into(p1) is Volume
return create_metric(self.storage, p1)
    create_metric(self.storage, p1) is Ok
## RiverNode::default_attribute
return Outflow
## RiverNode::default_component
return Outflow
## RiverNode::nodes_for_flow_constraints
return list
    p1 is None
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
    p1 is Some; try_into(p1) is Inflow|Outflow
return new()
    p1 is Some; self.loss_factor is None; try_into(p1) is Loss
return[] new(self.meta.name, "inflow")
    p1 is Some; self.routing_method is Some; try_into(p1) is Inflow
return[] new(self.meta.name, "loss")
    p1 is Some; self.loss_factor is Some; self.routing_method is None; try_into(p1) is Inflow
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
return[] new(self.meta.name, "net")
    p1 is None; self.routing_method is None
    p1 is Some; self.routing_method is None; try_into(p1) is Inflow|Outflow
return[] new(self.meta.name, "outflow")
    p1 is None; self.routing_method is Some
    p1 is Some; self.routing_method is Some; try_into(p1) is Outflow
## RiverNode::create_metric
return Constant{0: 0}
    p1 is Some; self.loss_factor is None; try_into(p1) is Loss
return MultiNodeInFlow{}
    p1 is Some; try_into(p1) is Inflow
return MultiNodeOutFlow{}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return NodeInFlow{0: new(self.meta.name, "loss")}
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
return.name self.meta.name
    p1 is None
    p1 is Some; try_into(p1) is Inflow|Outflow
return.nodes nodes_for_flow_constraints(self, {Inflow | Loss | Outflow})
    p1 is None
    p1 is Some; try_into(p1) is Inflow|Outflow
## RiverGaugeNode::default_attribute
return Outflow
## RiverGaugeNode::default_component
return Outflow
## RiverGaugeNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, "bypass")
return[] new(self.meta.name, "mrf")
## RiverGaugeNode::create_metric
return MultiNodeInFlow{}
    p1 is Some; try_into(p1) is Inflow
return MultiNodeOutFlow{}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return.name self.meta.name
return.nodes list
return.nodes[] new(self.meta.name, "bypass")
return.nodes[] new(self.meta.name, "mrf")
## RiverSplitWithGaugeNode::default_attribute
return Outflow
## RiverSplitWithGaugeNode::default_component
return Outflow
## RiverSplitWithGaugeNode::nodes_for_flow_constraints
return default_connectors(self)
## RiverSplitWithGaugeNode::create_metric
return MultiNodeInFlow{}
    p1 is Some; try_into(p1) is Inflow
return MultiNodeOutFlow{}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return.name self.meta.name
return.nodes default_connectors(self)
## <TurbineNode as Default>::default
return TurbineNode{}
return.cost none
return.efficiency 1
return.energy_unit_conversion 1e-06
return.flow_unit_conversion 1
return.meta default()
return.min_head 0
return.parameters none
return.target none
return.target_type default()
return.turbine_elevation 0
return.water_density 1000
return.water_elevation none
## TurbineNode::default_attribute
return Outflow
## TurbineNode::default_component
return Outflow
## TurbineNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, none)
## TurbineNode::create_metric
return NodeInFlow{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is Inflow
return NodeOutFlow{0: new(self.meta.name, none)}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return ParameterValue{}
    p1 is Some; try_into(p1) is Power
return.name new("power", self.meta.name)
    p1 is Some; try_into(p1) is Power
return.return_value After
    p1 is Some; try_into(p1) is Power
## WaterTreatmentWorksNode::default_attribute
return Outflow
## WaterTreatmentWorksNode::default_component
return Outflow
## WaterTreatmentWorksNode::nodes_for_flow_constraints
return list
return[] new(self.meta.name, "loss")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
    p1 is Some; try_into(p1) is Loss
return[] new(self.meta.name, "net")
    p1 is None
    p1 is Some; try_into(p1) is Inflow|Outflow
## WaterTreatmentWorksNode::create_metric
return Constant{0: 0}
    p1 is Some; self.loss_factor is None; try_into(p1) is Loss
return MultiNodeInFlow{}
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return NodeInFlow{0: new(self.meta.name, "loss")}
    p1 is Some; self.loss_factor is Some; try_into(p1) is Loss
return NodeInFlow{0: new(self.meta.name, "net")}
    p1 is Some; self.loss_factor is None; try_into(p1) is Inflow
return NodeOutFlow{0: new(self.meta.name, "net")}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
return.name self.meta.name
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes list
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes[] new(self.meta.name, "loss")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
return.nodes[] new(self.meta.name, "net")
    p1 is Some; self.loss_factor is Some; try_into(p1) is Inflow
## NodeBuilder::new @schema
return NodeBuilder{}
return.name none
return.position none
return.ty p0
## NodeBuilder::position
return NodeBuilder{}
return.name self.name
return.position p1
return.ty self.ty
## NodeBuilder::name @schema
return NodeBuilder{}
return.name p1
return.position self.position
return.ty self.ty
## NodeBuilder::next_default_name_for_model
return NodeBuilder{}
return.name must_use(format(new(b"\xc0\x01-\xc0\x00", (new_display(self.ty), new_display(acc(1))))))
return.position self.position
return.ty self.ty
## NodeBuilder::build @schema
meta_mut(from(self.ty)).name := self.name
    self.name is Some
meta_mut(from(self.ty)).name := self.ty
    self.name is None
meta_mut(from(self.ty)).position := self.position
return from(self.ty)
## Node::name @schema
return meta(self).name
## Node::position
return meta(self).position
## Node::node_type @schema
return from(self)
## Node::meta
return self~Abstraction.0.meta
    self is Abstraction
return self~Catchment.0.meta
    self is Catchment
return self~Delay.0.meta
    self is Delay
return self~Input.0.meta
    self is Input
return self~Link.0.meta
    self is Link
return self~LossLink.0.meta
    self is LossLink
return self~Output.0.meta
    self is Output
return self~PiecewiseLink.0.meta
    self is PiecewiseLink
return self~PiecewiseStorage.0.meta
    self is PiecewiseStorage
return self~Placeholder.0.meta
    self is Placeholder
return self~Reservoir.0.storage.meta
    self is Reservoir
return self~River.0.meta
    self is River
return self~RiverGauge.0.meta
    self is RiverGauge
return self~RiverSplitWithGauge.0.meta
    self is RiverSplitWithGauge
return self~Storage.0.meta
    self is Storage
return self~Turbine.0.meta
    self is Turbine
return self~WaterTreatmentWorks.0.meta
    self is WaterTreatmentWorks
## Node::meta_mut
return self~Abstraction.0.meta
    self is Abstraction
return self~Catchment.0.meta
    self is Catchment
return self~Delay.0.meta
    self is Delay
return self~Input.0.meta
    self is Input
return self~Link.0.meta
    self is Link
return self~LossLink.0.meta
    self is LossLink
return self~Output.0.meta
    self is Output
return self~PiecewiseLink.0.meta
    self is PiecewiseLink
return self~PiecewiseStorage.0.meta
    self is PiecewiseStorage
return self~Placeholder.0.meta
    self is Placeholder
return self~Reservoir.0.storage.meta
    self is Reservoir
return self~River.0.meta
    self is River
return self~RiverGauge.0.meta
    self is RiverGauge
return self~RiverSplitWithGauge.0.meta
    self is RiverSplitWithGauge
return self~Storage.0.meta
    self is Storage
return self~Turbine.0.meta
    self is Turbine
return self~WaterTreatmentWorks.0.meta
    self is WaterTreatmentWorks
## Node::default_attribute
return Abstraction
    self is Abstraction
return Compensation
    self is Reservoir
return Deficit
    self is Output
return Evaporation
    self is Reservoir
return Inflow
    self is Abstraction|Delay|Link|LossLink|Output|PiecewiseLink|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
return Loss
    self is LossLink|River|WaterTreatmentWorks
return MaxVolume
    self is Reservoir|Storage
return Outflow
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|PiecewiseLink|Placeholder|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
return Power
    self is Turbine
return ProportionalVolume
    self is PiecewiseStorage|Reservoir|Storage
return Rainfall
    self is Reservoir
return Volume
    self is PiecewiseStorage|Reservoir|Storage
## Node::default_component
return Abstraction
    self is Abstraction
return Compensation
    self is Reservoir
return Evaporation
    self is Reservoir
return Inflow
    self is Abstraction|Delay|Link|LossLink|Output|PiecewiseLink|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
return Loss
    self is LossLink|Reservoir|River|WaterTreatmentWorks
return Outflow
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|PiecewiseLink|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
return Rainfall
    self is Reservoir
return none
    self is PiecewiseStorage|Placeholder|Storage
## Node::local_parameters
return none
    self is Placeholder
return self~Abstraction.0.parameters
    self is Abstraction
return self~Catchment.0.parameters
    self is Catchment
return self~Delay.0.parameters
    self is Delay
return self~Input.0.parameters
    self is Input
return self~Link.0.parameters
    self is Link
return self~LossLink.0.parameters
    self is LossLink
return self~Output.0.parameters
    self is Output
return self~PiecewiseLink.0.parameters
    self is PiecewiseLink
return self~PiecewiseStorage.0.parameters
    self is PiecewiseStorage
return self~Reservoir.0.storage.parameters
    self is Reservoir
return self~River.0.parameters
    self is River
return self~RiverGauge.0.parameters
    self is RiverGauge
return self~RiverSplitWithGauge.0.parameters
    self is RiverSplitWithGauge
return self~Storage.0.parameters
    self is Storage
return self~Turbine.0.parameters
    self is Turbine
return self~WaterTreatmentWorks.0.parameters
    self is WaterTreatmentWorks
## Node::nodes_for_flow_constraints
[accepts]
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|Output|PiecewiseLink|Reservoir|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
[success]
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|Output|PiecewiseLink|Reservoir|River|RiverGauge|RiverSplitWithGauge|Turbine|WaterTreatmentWorks
return default_connectors(self~RiverSplitWithGauge.0)
    self is RiverSplitWithGauge
return list
    self is Catchment|Input|Output|PiecewiseLink|RiverGauge|Turbine
return nodes_for_flow_constraints(self~Abstraction.0, p1)
    self is Abstraction
return nodes_for_flow_constraints(self~Delay.0, p1)
    self is Delay
return nodes_for_flow_constraints(self~Link.0, p1)
    self is Link
return nodes_for_flow_constraints(self~LossLink.0, p1)
    self is LossLink
return nodes_for_flow_constraints(self~Reservoir.0, p1)
    self is Reservoir
return nodes_for_flow_constraints(self~River.0, p1)
    self is River
return nodes_for_flow_constraints(self~WaterTreatmentWorks.0, p1)
    self is WaterTreatmentWorks
return[] new(self~Catchment.0.meta.name, none)
    self is Catchment
return[] new(self~Input.0.meta.name, none)
    self is Input
return[] new(self~Output.0.meta.name, none)
    self is Output
return[] new(self~PiecewiseLink.0.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self~PiecewiseLink.0.steps)))))))
    self is PiecewiseLink
return[] new(self~RiverGauge.0.meta.name, "bypass")
    self is RiverGauge
return[] new(self~RiverGauge.0.meta.name, "mrf")
    self is RiverGauge
return[] new(self~Turbine.0.meta.name, none)
    self is Turbine
## Node::nodes_for_storage_constraints
[accepts]
    self is PiecewiseStorage|Reservoir|Storage
[success]
    self is PiecewiseStorage|Reservoir|Storage
return list
return[] new(self~PiecewiseStorage.0.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(elem(Range{end: (len(self~PiecewiseStorage.0.steps) +1), start: 0})))))))
    self is PiecewiseStorage
return[] new(self~Reservoir.0.storage.meta.name, none)
    self is Reservoir
return[] new(self~Storage.0.meta.name, none)
    self is Storage
## Node::create_metric
[accepts]
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|Output|PiecewiseLink|PiecewiseStorage|Reservoir|River|RiverGauge|RiverSplitWithGauge|Storage|Turbine|WaterTreatmentWorks
[success]
    self is Abstraction|Catchment|Delay|Input|Link|LossLink|Output|PiecewiseLink|PiecewiseStorage|Reservoir|River|RiverGauge|RiverSplitWithGauge|Storage|Turbine|WaterTreatmentWorks
create_metric(self~Output.0, p1, p2)
    self is Output
return NodeOutFlow{0: new(self~Catchment.0.meta.name, none)}
    self is Catchment
return NodeOutFlow{0: new(self~Input.0.meta.name, none)}
    self is Input
return create_metric(self~Abstraction.0, p2)
    self is Abstraction
return create_metric(self~Delay.0, p2)
    self is Delay
return create_metric(self~Link.0, p2)
    self is Link
return create_metric(self~LossLink.0, p2)
    self is LossLink
return create_metric(self~Output.0, p1, p2)
    self is Output
return create_metric(self~PiecewiseLink.0, p2)
    self is PiecewiseLink
return create_metric(self~PiecewiseStorage.0, p2)
    self is PiecewiseStorage
return create_metric(self~Reservoir.0, p2)
    self is Reservoir
return create_metric(self~River.0, p2)
    self is River
return create_metric(self~RiverGauge.0, p2)
    self is RiverGauge
return create_metric(self~RiverSplitWithGauge.0, p2)
    self is RiverSplitWithGauge
return create_metric(self~Storage.0, p2)
    self is Storage
return create_metric(self~Turbine.0, p2)
    self is Turbine
return create_metric(self~WaterTreatmentWorks.0, p2)
    self is WaterTreatmentWorks
