## Edge::iter_node_connection_pairs
return list
return[] (elem(repeat(elem(output_connectors(get_node_by_name(p1.schema, self.from_node), self.from_slot)))), elem(input_connectors(get_node_by_name(p1.schema, self.to_node), self.to_slot)))
    for each(flat_map(output_connectors(get_node_by_name(p1.schema, self.from_node), self.from_slot), |zip(repeat(xa), input_connectors(get_node_by_name(p1.schema, self.to_node), self.to_slot))|))
## Edge::add_to_network
push(p1.edges, UnresolvedEdge{from: elem(iter_node_connection_pairs(self, p2)).0, to: elem(iter_node_connection_pairs(self, p2)).1})
## Edge::create_metric
return MultiEdgeFlow{}
return.edges list
return.edges[] UnresolvedEdge{from: elem(iter_node_connection_pairs(self, p1)).0, to: elem(iter_node_connection_pairs(self, p1)).1}
return.name self
## AbstractionNode::iter_output_slots
return (from(River), from(Abstraction))
## AbstractionNode::input_connectors
[accepts]
    p1 is None
push(list(new(self.meta.name, "bypass"), new(self.meta.name, "abstraction")), new(self.meta.name, "mrf"))
    self.mrf is Some
return list
return[] new(self.meta.name, "abstraction")
return[] new(self.meta.name, "bypass")
## AbstractionNode::output_connectors
return list
return[] new(self.meta.name, "abstraction")
    p1 is Some; try_into(p1) is Abstraction
return[] new(self.meta.name, "bypass")
    p1 is None
    p1 is Some; try_into(p1) is River
return[] new(self.meta.name, "mrf")
    p1 is None; self.mrf is Some
    p1 is Some; self.mrf is Some; try_into(p1) is River
## InputNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## InputNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## LinkNode::input_connectors
[accepts]
    p1 is None
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_max"))
    self.soft_max is Some
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_min"))
    self.soft_min is Some
return list
return[] new(self.meta.name, none)
## LinkNode::output_connectors
[accepts]
    p1 is None
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_max"))
    self.soft_max is Some
push(list(new(self.meta.name, none)), new(self.meta.name, "soft_min"))
    self.soft_min is Some
return list
return[] new(self.meta.name, none)
## OutputNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## OutputNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## StorageNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## StorageNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## CatchmentNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## CatchmentNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## DelayNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "inflow")
## DelayNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "outflow")
## LossLinkNode::input_connectors
[accepts]
    p1 is None
push(list(new(self.meta.name, "net")), new(self.meta.name, "loss"))
    self.loss_factor is Some
return list
return[] new(self.meta.name, "net")
## LossLinkNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "net")
## PiecewiseLinkNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
## PiecewiseLinkNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
## PiecewiseStorageNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(elem(Range{end: len(self.steps), start: 0})))))))
## PiecewiseStorageNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(elem(Range{end: len(self.steps), start: 0})))))))
## PlaceholderNode::input_connectors
return list
return[] UnresolvedNode{name: self.meta.name, sub_name: none}
## PlaceholderNode::output_connectors
return list
return[] UnresolvedNode{name: self.meta.name, sub_name: none}
## ReservoirNode::iter_output_slots
return (from(Storage), from(Compensation), from(Spill))
## ReservoirNode::input_connectors
[accepts]
    p1 is None
return list
return[] UnresolvedNode{name: self.storage.meta.name, sub_name: none}
## ReservoirNode::output_connectors
[accepts]
    p1 is None
    self.spill is LinkNode; try_into(p1) is Spill
    try_into(p1) is Compensation|Storage
return list
return[] UnresolvedNode{name: self.storage.meta.name, sub_name: none}
    p1 is None
    p1 is Some; try_into(p1) is Storage
return[] new(self.storage.meta.name, "compensation")
    p1 is Some; try_into(p1) is Compensation
return[] new(self.storage.meta.name, "spill")
    p1 is Some; try_into(p1) is Spill
## RiverNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "inflow")
    self.routing_method is Some
return[] new(self.meta.name, "loss")
    self.loss_factor is Some; self.routing_method is None
return[] new(self.meta.name, "net")
    self.routing_method is None
## RiverNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "net")
    self.loss_factor is None; self.routing_method is None
    self.loss_factor is Some
return[] new(self.meta.name, "outflow")
    self.loss_factor is None; self.routing_method is Some
## RiverGaugeNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "bypass")
return[] new(self.meta.name, "mrf")
## RiverGaugeNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "bypass")
return[] new(self.meta.name, "mrf")
## RiverSplitWithGaugeNode::iter_output_slots
return chain((from(River)), map(enumerate(self.splits), |Split{position: xa.0} if xa.1.slot_name is None / User{name: xa.1.slot_name} if xa.1.slot_name is Some|))
## RiverSplitWithGaugeNode::default_connectors
push(list(new(self.meta.name, "mrf"), new(self.meta.name, "bypass")), new(self.meta.name, must_use(format(new(b"\x06split-\xc0\x00", (new_display(idx(self.splits))))))))
return list
return[] new(self.meta.name, "bypass")
return[] new(self.meta.name, "mrf")
## RiverSplitWithGaugeNode::input_connectors
[accepts]
    p1 is None
return default_connectors(self)
## RiverSplitWithGaugeNode::output_connectors
[accepts]
    Eq(elem(self.splits).slot_name, try_into(p1)~User.name); try_into(p1) is User
    Lt(try_into(p1)~Split.position, len(self.splits)); try_into(p1) is Split
    p1 is None
    try_into(p1) is River
[success]
    Eq(elem(self.splits).slot_name, try_into(p1)~User.name); elem(self.splits).slot_name is Some; p1 is Some; try_into(p1) is User
    p1 is None
    p1 is Some; try_into(p1) is River|Split
leave loop early()
    p1 is Some; try_into(p1) is User
return default_connectors(self)
    p1 is None
    try_into(p1) is River
return list
    p1 is Some; try_into(p1) is Split|User
return[] new(self.meta.name, must_use(format(new(b"\x06split-\xc0\x00", (new_display(idx(self.splits)))))))
    p1 is Some; try_into(p1) is User
return[] new(self.meta.name, must_use(format(new(b"\x06split-\xc0\x00", (new_display(try_into(p1)~Split.position))))))
    p1 is Some; try_into(p1) is Split
## TurbineNode::input_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## TurbineNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, none)
## WaterTreatmentWorksNode::input_connectors
[accepts]
    p1 is None
push(list(new(self.meta.name, "net")), new(self.meta.name, "loss"))
    self.loss_factor is Some
return list
return[] new(self.meta.name, "net")
## WaterTreatmentWorksNode::output_connectors
[accepts]
    p1 is None
return list
return[] new(self.meta.name, "net_above_soft_min_flow")
return[] new(self.meta.name, "net_soft_min_flow")
## VirtualStorageNode::input_connectors
return new()
## VirtualStorageNode::output_connectors
return new()
## Node::iter_input_slots
return none
## Node::iter_output_slots
return new((from(River), from(Abstraction)))
    self is Abstraction
return new((from(Storage), from(Compensation), from(Spill)))
    self is Reservoir
return new(chain((from(River)), map(enumerate(self~RiverSplitWithGauge.0.splits), |Split{position: xa.0} if xa.1.slot_name is None / User{name: xa.1.slot_name} if xa.1.slot_name is Some|)))
    self is RiverSplitWithGauge
return none
    self is Catchment|Delay|Input|Link|LossLink|Output|PiecewiseLink|PiecewiseStorage|Placeholder|River|RiverGauge|Storage|Turbine|WaterTreatmentWorks
## Node::input_connectors
return input_connectors(self~Abstraction.0, p1)
    self is Abstraction
return input_connectors(self~Catchment.0, p1)
    self is Catchment
return input_connectors(self~Delay.0, p1)
    self is Delay
return input_connectors(self~Input.0, p1)
    self is Input
return input_connectors(self~Link.0, p1)
    self is Link
return input_connectors(self~LossLink.0, p1)
    self is LossLink
return input_connectors(self~Output.0, p1)
    self is Output
return input_connectors(self~PiecewiseLink.0, p1)
    self is PiecewiseLink
return input_connectors(self~PiecewiseStorage.0, p1)
    self is PiecewiseStorage
return input_connectors(self~Reservoir.0, p1)
    self is Reservoir
return input_connectors(self~River.0, p1)
    self is River
return input_connectors(self~RiverGauge.0, p1)
    self is RiverGauge
return input_connectors(self~RiverSplitWithGauge.0, p1)
    self is RiverSplitWithGauge
return input_connectors(self~Storage.0, p1)
    self is Storage
return input_connectors(self~Turbine.0, p1)
    self is Turbine
return input_connectors(self~WaterTreatmentWorks.0, p1)
    self is WaterTreatmentWorks
return list
    self is Placeholder
return[] UnresolvedNode{name: self~Placeholder.0.meta.name, sub_name: none}
    self is Placeholder
## Node::output_connectors
return list
    self is Placeholder
return output_connectors(self~Abstraction.0, p1)
    self is Abstraction
return output_connectors(self~Catchment.0, p1)
    self is Catchment
return output_connectors(self~Delay.0, p1)
    self is Delay
return output_connectors(self~Input.0, p1)
    self is Input
return output_connectors(self~Link.0, p1)
    self is Link
return output_connectors(self~LossLink.0, p1)
    self is LossLink
return output_connectors(self~Output.0, p1)
    self is Output
return output_connectors(self~PiecewiseLink.0, p1)
    self is PiecewiseLink
return output_connectors(self~PiecewiseStorage.0, p1)
    self is PiecewiseStorage
return output_connectors(self~Reservoir.0, p1)
    self is Reservoir
return output_connectors(self~River.0, p1)
    self is River
return output_connectors(self~RiverGauge.0, p1)
    self is RiverGauge
return output_connectors(self~RiverSplitWithGauge.0, p1)
    self is RiverSplitWithGauge
return output_connectors(self~Storage.0, p1)
    self is Storage
return output_connectors(self~Turbine.0, p1)
    self is Turbine
return output_connectors(self~WaterTreatmentWorks.0, p1)
    self is WaterTreatmentWorks
return[] UnresolvedNode{name: self~Placeholder.0.meta.name, sub_name: none}
    self is Placeholder
