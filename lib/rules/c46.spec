## AggregatedNode::default_attribute
return Outflow
## AggregatedNode::add_to_network
AggregatedNodeBuilder{name: new(self.meta.name, none)}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
AggregatedNodeBuilder{name: new(self.meta.name, none)}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
AggregatedNodeBuilder{name: new(self.meta.name, none)}.relationship := ExclusivityBuilder{}
    self.relationship is Some; self.relationship? is Exclusive
AggregatedNodeBuilder{name: new(self.meta.name, none)}.relationship := new(default())
    self.relationship is Some; self.relationship? is Coefficients|Proportion|Ratio
AggregatedNodeBuilder{name: new(self.meta.name, none)}.relationship.max_active := 1
    self.relationship is Some; self.relationship? is Exclusive
AggregatedNodeBuilder{name: new(self.meta.name, none)}.relationship.min_active := 0
    self.relationship is Some; self.relationship? is Exclusive
ExclusivityBuilder{max_active: 1, min_active: 0}.max_active := self.relationship~Exclusive.max_active
    self.relationship is Some; self.relationship? is Exclusive; self.relationship~Exclusive.max_active is Some
ExclusivityBuilder{max_active: 1, min_active: 0}.min_active := self.relationship~Exclusive.min_active
    self.relationship is Some; self.relationship? is Exclusive; self.relationship~Exclusive.min_active is Some
[accepts]
    self.relationship is Coefficients|Exclusive|None|Proportion|Ratio
default().rhs := load(self.relationship~Coefficients.rhs, p1, p2, self.meta.name)
    self.relationship is Some; self.relationship? is Coefficients; self.relationship~Coefficients.rhs is Some
load(elem(self.relationship~Coefficients.factors), p1, p2, self.meta.name)
    self.relationship is Some; self.relationship? is Coefficients
load(elem(self.relationship~Proportion.factors), p1, p2, self.meta.name)
    self.relationship is Some; self.relationship? is Proportion
load(elem(self.relationship~Ratio.factors), p1, p2, self.meta.name)
    self.relationship is Some; self.relationship? is Ratio
load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
load(self.relationship~Coefficients.rhs, p1, p2, self.meta.name)
    self.relationship is Some; self.relationship? is Coefficients; self.relationship~Coefficients.rhs is Some
push(default().factors, load(elem(self.relationship~Coefficients.factors), p1, p2, self.meta.name))
    self.relationship is Some; self.relationship? is Coefficients
push(default().factors, load(elem(self.relationship~Proportion.factors), p1, p2, self.meta.name))
    self.relationship is Some; self.relationship? is Proportion
push(default().factors, load(elem(self.relationship~Ratio.factors), p1, p2, self.meta.name))
    self.relationship is Some; self.relationship? is Ratio
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, none), nodes: list(nodes_for_flow_constraints(get_node_by_name(p2.schema, elem(self.nodes).name), elem(self.nodes).component)), relationship: none})
## AggregatedNode::create_metric
return AggregatedNodeInFlow{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is Inflow
return AggregatedNodeOutFlow{0: new(self.meta.name, none)}
    p1 is None
    p1 is Some; try_into(p1) is Outflow
## AggregatedStorageNode::default_attribute
return Volume
## AggregatedStorageNode::add_to_network
push(p1.aggregated_storage_nodes, AggregatedStorageNodeBuilder{name: new(self.meta.name, none), nodes: flatten(list(nodes_for_storage_constraints(get_node_by_name(p2.schema, elem(self.storage_nodes).name))))})
## AggregatedStorageNode::create_metric
return AggregatedStorageNodeProportionalVolume{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is ProportionalVolume
return AggregatedStorageNodeVolume{0: new(self.meta.name, none)}
    p1 is None
    p1 is Some; try_into(p1) is Volume
## <VirtualStorageReset as TryInto<VirtualStorageReset>>::try_into
return DayOfYear{}
    self is Annual|Seasonal
return Never
    self is Never
return NumberOfMonths{months: self~Monthly.months}
    self is Monthly
return.day self~Annual.0.day
    self is Annual
return.day self~Seasonal.0.start_day
    self is Seasonal
return.month self~Annual.0.month
    self is Annual
return.month self~Seasonal.0.start_month
    self is Seasonal
## <RollingWindow as Default>::default
return Timesteps{timesteps: new(30)}
## RollingWindow::as_timesteps
return new(self~Days.days/whole_days(fixed_step_duration(p1)))
    fixed_step_duration(p1) is Some; self is Days; whole_days(fixed_step_duration(p1)) is Some
return none
    fixed_step_duration(p1) is None; self is Days
    fixed_step_duration(p1) is Some; self is Days; whole_days(fixed_step_duration(p1)) is None
return self~Timesteps.timesteps
    self is Timesteps
## VirtualStorageNode::default_attribute
return Volume
## VirtualStorageNode::add_to_network
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.active_period := Period{}
    self.reset is Some; self.reset? is Seasonal
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.active_period.end_day := self.reset~Seasonal.0.end_day
    self.reset is Some; self.reset? is Seasonal
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.active_period.end_month := self.reset~Seasonal.0.end_month
    self.reset is Some; self.reset? is Seasonal
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.active_period.start_day := self.reset~Seasonal.0.start_day
    self.reset is Some; self.reset? is Seasonal
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.active_period.start_month := self.reset~Seasonal.0.start_month
    self.reset is Some; self.reset? is Seasonal
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.factors := self.factors
    self.factors is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.initial_volume := from(self.initial_volume)
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.max_volume := load(self.max_volume, p1, p2, self.meta.name)
    self.max_volume is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.min_volume := load(self.min_volume, p1, p2, self.meta.name)
    self.min_volume is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.reset := try_into(self.reset)
    self.reset is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.reset_volume := from(self.reset_volume)
    self.reset_volume is Some
VirtualStorageNodeBuilder{name: new(self.meta.name, none)}.rolling_window := as_timesteps(self.window, p2.domain.time)
    self.window is Some
[accepts]
    self.reset is Annual|Monthly|Never|None|Seasonal
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_volume, p1, p2, self.meta.name)
    self.max_volume is Some
load(self.min_volume, p1, p2, self.meta.name)
    self.min_volume is Some
push(p1.virtual_storage_nodes, VirtualStorageNodeBuilder{active_period: Always, cost: none, factors: none, initial_volume: Absolute{volume: 0}, max_volume: none, min_volume: none, name: new(self.meta.name, none), nodes: flatten(list(nodes_for_flow_constraints(get_node_by_name(p2.schema, elem(self.nodes).name), elem(self.nodes).component))), reset: Never, reset_volume: Initial, rolling_window: none})
## VirtualStorageNode::create_metric
return VirtualStorageProportionalVolume{0: new(self.meta.name, none)}
    p1 is Some; try_into(p1) is ProportionalVolume
return VirtualStorageVolume{0: new(self.meta.name, none)}
    p1 is None
    p1 is Some; try_into(p1) is Volume
## VirtualNode::name
return meta(self).name
## VirtualNode::position
return meta(self).position
## VirtualNode::node_type
return from(self)
## VirtualNode::meta
return self~Aggregated.0.meta
    self is Aggregated
return self~AggregatedStorage.0.meta
    self is AggregatedStorage
return self~Placeholder.0.meta
    self is Placeholder
return self~VirtualStorage.0.meta
    self is VirtualStorage
## VirtualNode::meta_mut
return self~Aggregated.0.meta
    self is Aggregated
return self~AggregatedStorage.0.meta
    self is AggregatedStorage
return self~Placeholder.0.meta
    self is Placeholder
return self~VirtualStorage.0.meta
    self is VirtualStorage
## VirtualNode::default_attribute
return Inflow
    self is Aggregated
return Outflow
    self is Aggregated|Placeholder
return ProportionalVolume
    self is AggregatedStorage|VirtualStorage
return Volume
    self is AggregatedStorage|VirtualStorage
## VirtualNode::default_component
return none
## VirtualNode::local_parameters
return none
    self is Placeholder
return self~Aggregated.0.parameters
    self is Aggregated
return self~AggregatedStorage.0.parameters
    self is AggregatedStorage
return self~VirtualStorage.0.parameters
    self is VirtualStorage
## VirtualNode::add_to_network
add_to_network(self~Aggregated.0, p1, p2)
    self is Aggregated
add_to_network(self~AggregatedStorage.0, p1, p2)
    self is AggregatedStorage
add_to_network(self~VirtualStorage.0, p1, p2)
    self is VirtualStorage
## VirtualNode::create_metric
[accepts]
    self is Aggregated|AggregatedStorage|VirtualStorage
[success]
    self is Aggregated|AggregatedStorage|VirtualStorage
return create_metric(self~Aggregated.0, p1)
    self is Aggregated
return create_metric(self~AggregatedStorage.0, p1)
    self is AggregatedStorage
return create_metric(self~VirtualStorage.0, p1)
    self is VirtualStorage
