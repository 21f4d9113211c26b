## AbstractionNode::add_to_network
NodeBuilder{name: new(self.meta.name, "abstraction")}.cost := load(self.abs_cost, p1, p2, self.meta.name)
    self.abs_cost is Some
NodeBuilder{name: new(self.meta.name, "abstraction")}.max_flow := load(self.abs_max_flow, p1, p2, self.meta.name)
    self.abs_max_flow is Some
NodeBuilder{name: new(self.meta.name, "abstraction")}.min_flow := load(self.abs_min_flow, p1, p2, self.meta.name)
    self.abs_min_flow is Some
NodeBuilder{name: new(self.meta.name, "mrf")}.cost := load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf is Some; self.mrf_cost is Some
NodeBuilder{name: new(self.meta.name, "mrf")}.max_flow := load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(self.abs_cost, p1, p2, self.meta.name)
    self.abs_cost is Some
load(self.abs_max_flow, p1, p2, self.meta.name)
    self.abs_max_flow is Some
load(self.abs_min_flow, p1, p2, self.meta.name)
    self.abs_min_flow is Some
load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf is Some; self.mrf_cost is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "abstraction"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "bypass"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "mrf"), node_type: Link})
    self.mrf is Some
## InputNode::add_to_network
NodeBuilder{name: self.meta.name}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: self.meta.name}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
NodeBuilder{name: self.meta.name}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: self.meta.name, node_type: Input})
## LinkNode::add_to_network
AggregatedNodeBuilder{name: new(self.meta.name, "aggregate_node")}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some; self.soft_max is Some; self.soft_min is None
    self.max_flow is Some; self.soft_min is Some
AggregatedNodeBuilder{name: new(self.meta.name, "aggregate_node")}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some; self.soft_max is Some; self.soft_min is None
    self.min_flow is Some; self.soft_min is Some
AggregatedNodeBuilder{name: new(self.meta.name, "aggregate_node_l_l_min")}.max_flow := load(self.soft_max.flow, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.flow is Some; self.soft_min is Some
NodeBuilder{name: new(self.meta.name, "soft_max")}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some; self.soft_max is Some; self.soft_min is None
NodeBuilder{name: new(self.meta.name, "soft_max")}.cost := load(self.soft_max.cost, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.cost is Some; self.soft_min is Some
NodeBuilder{name: new(self.meta.name, "soft_max")}.max_flow := load(self.soft_max.flow, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.flow is Some; self.soft_min is None
NodeBuilder{name: new(self.meta.name, "soft_min")}.cost := load(self.soft_min.cost, p1, p2, self.meta.name)
    self.soft_min is Some; self.soft_min.cost is Some
NodeBuilder{name: new(self.meta.name, "soft_min")}.max_flow := load(self.soft_min.flow, p1, p2, self.meta.name)
    self.soft_min is Some; self.soft_min.flow is Some
NodeBuilder{name: self.meta.name}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some; self.soft_max is None; self.soft_min is None
    self.cost is Some; self.soft_min is Some
NodeBuilder{name: self.meta.name}.cost := load(self.soft_max.cost, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.cost is Some; self.soft_min is None
NodeBuilder{name: self.meta.name}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some; self.soft_max is None; self.soft_min is None
NodeBuilder{name: self.meta.name}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some; self.soft_max is None; self.soft_min is None
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
load(self.soft_max.cost, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.cost is Some
load(self.soft_max.flow, p1, p2, self.meta.name)
    self.soft_max is Some; self.soft_max.flow is Some
load(self.soft_min.cost, p1, p2, self.meta.name)
    self.soft_min is Some; self.soft_min.cost is Some
load(self.soft_min.flow, p1, p2, self.meta.name)
    self.soft_min is Some; self.soft_min.flow is Some
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "aggregate_node"), nodes: list(list(new(self.meta.name, none), new(self.meta.name, "soft_max")) if self.soft_max is Some & self.soft_min is None, list(new(self.meta.name, none), new(self.meta.name, "soft_min")) if self.soft_max is None & self.soft_min is Some, list(new(self.meta.name, none), new(self.meta.name, "soft_min"), new(self.meta.name, "soft_max")) if self.soft_max is Some & self.soft_min is Some), relationship: none})
    self.soft_max is Some; self.soft_min is None
    self.soft_min is Some
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "aggregate_node_l_l_min"), nodes: list(list(new(self.meta.name, none), new(self.meta.name, "soft_min"))), relationship: none})
    self.soft_max is Some; self.soft_min is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "soft_max"), node_type: Link})
    self.soft_max is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "soft_min"), node_type: Link})
    self.soft_min is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: self.meta.name, node_type: Link})
## OutputNode::add_to_network
NodeBuilder{name: self.meta.name}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: self.meta.name}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
NodeBuilder{name: self.meta.name}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: self.meta.name, node_type: Output})
## StorageNode::add_to_network
make_builder(self, p1, p2)
push(p1.nodes, make_builder(self, p1, p2))
## CatchmentNode::add_to_model
NodeBuilder{name: self.meta.name}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: self.meta.name}.max_flow := load(self.flow, p1, p2, self.meta.name)
    self.flow is Some
NodeBuilder{name: self.meta.name}.min_flow := load(self.flow, p1, p2, self.meta.name)
    self.flow is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.flow, p1, p2, self.meta.name)
    self.flow is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: self.meta.name, node_type: Input})
## DelayNode::add_to_model
NodeBuilder{name: new(self.meta.name, "outflow")}.max_flow := ParameterValue{}
NodeBuilder{name: new(self.meta.name, "outflow")}.max_flow.name := new("delay", self.meta.name)
NodeBuilder{name: new(self.meta.name, "outflow")}.max_flow.return_value := Before
NodeBuilder{name: new(self.meta.name, "outflow")}.min_flow := ParameterValue{}
NodeBuilder{name: new(self.meta.name, "outflow")}.min_flow.name := new("delay", self.meta.name)
NodeBuilder{name: new(self.meta.name, "outflow")}.min_flow.return_value := Before
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "inflow"), node_type: Output})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "outflow"), node_type: Input})
push(p1.parameters.f64, new(DelayParameterBuilder{delay: load(self.delay, p2.tables), initial_value: load(self.initial_value, p2.tables), meta: ParameterMeta{name: new("delay", self.meta.name)}, metric: NodeInFlow{0: new(self.meta.name, "inflow")}}))
## LossLinkNode::add_to_network
AggregatedNodeBuilder{name: new(self.meta.name, "agg")}.relationship := load(self.loss_factor, p1, p2, self.meta.name)
    load(self.loss_factor, p1, p2, self.meta.name) is Some; self.loss_factor is Some
NodeBuilder{name: new(self.meta.name, "loss")}.max_flow := Constant{0: 0}
    load(self.loss_factor, p1, p2, self.meta.name) is None; self.loss_factor is Some
NodeBuilder{name: new(self.meta.name, "net")}.cost := load(self.net_cost, p1, p2, self.meta.name)
    self.net_cost is Some
NodeBuilder{name: new(self.meta.name, "net")}.max_flow := load(self.max_net_flow, p1, p2, self.meta.name)
    self.max_net_flow is Some
NodeBuilder{name: new(self.meta.name, "net")}.min_flow := load(self.min_net_flow, p1, p2, self.meta.name)
    self.min_net_flow is Some
load(self.loss_factor, p1, p2, self.meta.name)
    self.loss_factor is Some
load(self.max_net_flow, p1, p2, self.meta.name)
    self.max_net_flow is Some
load(self.min_net_flow, p1, p2, self.meta.name)
    self.min_net_flow is Some
load(self.net_cost, p1, p2, self.meta.name)
    self.net_cost is Some
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "agg"), nodes: list(list(new(self.meta.name, "net")), list(new(self.meta.name, "loss"))), relationship: none})
    self.loss_factor is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "loss"), node_type: Output})
    self.loss_factor is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "net"), node_type: Link})
## PiecewiseLinkNode::add_to_network
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))}.cost := load(elem(self.steps).cost, p1, p2, self.meta.name)
    elem(self.steps).cost is Some
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))}.max_flow := load(elem(self.steps).max_flow, p1, p2, self.meta.name)
    elem(self.steps).max_flow is Some
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))}.min_flow := load(elem(self.steps).min_flow, p1, p2, self.meta.name)
    elem(self.steps).min_flow is Some
load(elem(self.steps).cost, p1, p2, self.meta.name)
    elem(self.steps).cost is Some
load(elem(self.steps).max_flow, p1, p2, self.meta.name)
    elem(self.steps).max_flow is Some
load(elem(self.steps).min_flow, p1, p2, self.meta.name)
    elem(self.steps).min_flow is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x05step-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Link})
## PiecewiseStorageNode::add_to_network
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))}.cost := load(elem(self.steps).cost, p1, p2, self.meta.name)
    elem(self.steps).cost is Some
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))}.initial_volume := Proportional{proportion: 1}
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))}.initial_volume := Proportional{proportion: 1}
load(elem(self.steps).control_curve, p1, p2, self.meta.name)
load(elem(self.steps).cost, p1, p2, self.meta.name)
    elem(self.steps).cost is Some
load(last(self.steps).control_curve, p1, p2, self.meta.name)
    last(self.steps) is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.max_volume, p1, p2, self.meta.name)
load(self.min_volume, p1, p2, self.meta.name)
    self.min_volume is Some
load(self.steps[(idx(self.steps) -1)].control_curve, p1, p2, self.meta.name)
    !Lt(idx(self.steps), 1)
push(p1.aggregated_storage_nodes, AggregatedStorageNodeBuilder{name: new(self.meta.name, "agg-store"), nodes: new()})
push(p1.edges, UnresolvedEdge{})
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).from = last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).from = new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).from = new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).to = last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps)))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps)))))))
    last(list(new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))))) is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: Sum, meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(idx(self.steps)))))), self.meta.name)}, metrics: new(), phase: Before}))
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: Sum, meta: ParameterMeta{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(len(self.steps)))))), self.meta.name)}, metrics: new(), phase: Before}))
set_sub_node_initial_volume(self, load(self.max_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(idx(self.steps)))))), self.meta.name), return_value: Before}, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
set_sub_node_initial_volume(self, load(self.max_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(len(self.steps)))))), self.meta.name), return_value: Before}, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
set_sub_node_max_volume(self, idx(self.steps), load(self.max_volume, p1, p2, self.meta.name), load(elem(self.steps).control_curve, p1, p2, self.meta.name), load(self.steps[(idx(self.steps) -1)].control_curve, p1, p2, self.meta.name), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
    !Lt(idx(self.steps), 1)
set_sub_node_max_volume(self, idx(self.steps), load(self.max_volume, p1, p2, self.meta.name), load(elem(self.steps).control_curve, p1, p2, self.meta.name), none, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
    Lt(idx(self.steps), 1)
set_sub_node_max_volume(self, len(self.steps), load(self.max_volume, p1, p2, self.meta.name), none, load(last(self.steps).control_curve, p1, p2, self.meta.name), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
    last(self.steps) is Some
set_sub_node_max_volume(self, len(self.steps), load(self.max_volume, p1, p2, self.meta.name), none, none, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
    last(self.steps) is None
set_sub_node_min_volume(self, idx(self.steps), load(self.min_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(idx(self.steps)))))), self.meta.name), return_value: Before}, set_sub_node_max_volume(self, idx(self.steps), load(self.max_volume, p1, p2, self.meta.name), load(elem(self.steps).control_curve, p1, p2, self.meta.name), load(self.steps[(idx(self.steps) -1)].control_curve, p1, p2, self.meta.name), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage}), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
    !Lt(idx(self.steps), 1); self.min_volume is Some
set_sub_node_min_volume(self, idx(self.steps), load(self.min_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(idx(self.steps)))))), self.meta.name), return_value: Before}, set_sub_node_max_volume(self, idx(self.steps), load(self.max_volume, p1, p2, self.meta.name), load(elem(self.steps).control_curve, p1, p2, self.meta.name), none, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage}), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(idx(self.steps))))))), node_type: Storage})
    Lt(idx(self.steps), 1); self.min_volume is Some
set_sub_node_min_volume(self, len(self.steps), load(self.min_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(len(self.steps)))))), self.meta.name), return_value: Before}, set_sub_node_max_volume(self, len(self.steps), load(self.max_volume, p1, p2, self.meta.name), none, load(last(self.steps).control_curve, p1, p2, self.meta.name), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage}), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
    last(self.steps) is Some; self.min_volume is Some
set_sub_node_min_volume(self, len(self.steps), load(self.min_volume, p1, p2, self.meta.name), ParameterValue{name: new(must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x11-prior-max-volume\x00", (new_display(len(self.steps)))))), self.meta.name), return_value: Before}, set_sub_node_max_volume(self, len(self.steps), load(self.max_volume, p1, p2, self.meta.name), none, none, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage}), p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06store-\xc3 \x00\x00i\x02\x00\x00", (new_display(len(self.steps))))))), node_type: Storage})
    last(self.steps) is None; self.min_volume is Some
## PlaceholderNode::add_to_network

## ReservoirNode::node_indices_for_storage_constraints
return list
return[] new(self.storage.meta.name, none)
## ReservoirNode::add_to_network
NodeBuilder{name: new(self.storage.meta.name, "compensation")}.min_flow := load(self.compensation, p1, p2, self.storage.meta.name)
    self.compensation is Some
NodeBuilder{name: new(self.storage.meta.name, "evaporation")}.cost := load(self.evaporation.cost, p1, p2, self.storage.meta.name)
    self.evaporation is Some; self.evaporation.cost is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "evaporation")}.max_flow := ParameterValue{}
    self.evaporation is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "evaporation")}.max_flow.name := new("evaporation", self.storage.meta.name)
    self.evaporation is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "evaporation")}.max_flow.return_value := Before
    self.evaporation is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "leakage")}.cost := load(self.leakage.cost, p1, p2, self.storage.meta.name)
    self.leakage is Some; self.leakage.cost is Some
NodeBuilder{name: new(self.storage.meta.name, "leakage")}.max_flow := load(self.leakage.loss, p1, p2, self.storage.meta.name)
    self.leakage is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.max_flow := ParameterValue{}
    self.rainfall is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.max_flow.name := new("rainfall", self.storage.meta.name)
    self.rainfall is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.max_flow.return_value := Before
    self.rainfall is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.min_flow := ParameterValue{}
    self.rainfall is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.min_flow.name := new("rainfall", self.storage.meta.name)
    self.rainfall is Some; self.surface_area is Some
NodeBuilder{name: new(self.storage.meta.name, "rainfall")}.min_flow.return_value := Before
    self.rainfall is Some; self.surface_area is Some
[accepts]
    self.connect_compensation_to_spill is None|false|true; self.spill is LinkNode|None|OutputNode
get_area_metric(self, p1, p2, "evaporation_area", self.surface_area, false)
    self.evaporation is Some; self.evaporation.use_max_area is None; self.surface_area is Some
get_area_metric(self, p1, p2, "evaporation_area", self.surface_area, self.evaporation.use_max_area)
    self.evaporation is Some; self.evaporation.use_max_area is Some; self.surface_area is Some
get_area_metric(self, p1, p2, "rainfall_area", self.surface_area, false)
    self.rainfall is Some; self.rainfall.use_max_area is None; self.surface_area is Some
get_area_metric(self, p1, p2, "rainfall_area", self.surface_area, self.rainfall.use_max_area)
    self.rainfall is Some; self.rainfall.use_max_area is Some; self.surface_area is Some
load(self.compensation, p1, p2, self.storage.meta.name)
    self.compensation is Some
load(self.evaporation.cost, p1, p2, self.storage.meta.name)
    self.evaporation is Some; self.evaporation.cost is Some; self.surface_area is Some
load(self.evaporation.data, p1, p2, self.storage.meta.name)
    self.evaporation is Some; self.surface_area is Some
load(self.leakage.cost, p1, p2, self.storage.meta.name)
    self.leakage is Some; self.leakage.cost is Some
load(self.leakage.loss, p1, p2, self.storage.meta.name)
    self.leakage is Some
load(self.rainfall.data, p1, p2, self.storage.meta.name)
    self.rainfall is Some; self.surface_area is Some
make_builder(self.storage, p1, p2)
push(p1.edges, UnresolvedEdge{})
    self.compensation is Some; self.evaporation is None; self.leakage is None; self.rainfall is None; self.spill is None; self.surface_area is Some
    self.compensation is Some; self.leakage is None; self.spill is None; self.surface_area is None
    self.evaporation is Some; self.leakage is None; self.rainfall is None; self.spill is None; self.surface_area is Some
    self.leakage is Some; self.rainfall is None; self.spill is None; self.surface_area is Some
    self.leakage is Some; self.spill is None; self.surface_area is None
    self.rainfall is Some; self.spill is None; self.surface_area is Some
    self.spill is Some
push(p1.edges, UnresolvedEdge{}).from = new(self.storage.meta.name, "compensation")
    self.compensation is Some; self.connect_compensation_to_spill is None; self.spill is Some
    self.compensation is Some; self.connect_compensation_to_spill is Some; self.connect_compensation_to_spill?; self.spill is Some
push(p1.edges, UnresolvedEdge{}).from = new(self.storage.meta.name, "rainfall")
    self.rainfall is Some; self.surface_area is Some
push(p1.edges, UnresolvedEdge{}).from = new(self.storage.meta.name, none)
    self.compensation is Some; self.evaporation is None; self.leakage is None; self.spill is None; self.surface_area is Some
    self.compensation is Some; self.leakage is None; self.spill is None; self.surface_area is None
    self.evaporation is Some; self.leakage is None; self.spill is None; self.surface_area is Some
    self.leakage is Some; self.spill is None
    self.spill is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.storage.meta.name, "compensation")
    self.compensation is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.storage.meta.name, "evaporation")
    self.evaporation is Some; self.surface_area is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.storage.meta.name, "leakage")
    self.leakage is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.storage.meta.name, "spill")
    self.spill is Some
push(p1.edges, UnresolvedEdge{}).to = new(self.storage.meta.name, none)
    self.rainfall is Some; self.surface_area is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "compensation"), node_type: Link})
    self.compensation is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "evaporation"), node_type: Output})
    self.evaporation is Some; self.surface_area is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "leakage"), node_type: Output})
    self.leakage is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "rainfall"), node_type: Input})
    self.rainfall is Some; self.surface_area is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "spill"), node_type: Link})
    self.spill is Some; self.spill? is LinkNode
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.storage.meta.name, "spill"), node_type: Output})
    self.spill is Some; self.spill? is OutputNode
push(p1.nodes, make_builder(self.storage, p1, p2))
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: Product, meta: ParameterMeta{name: new("evaporation", self.storage.meta.name)}, metrics: list(load(self.evaporation.data, p1, p2, self.storage.meta.name), get_area_metric(self, p1, p2, "evaporation_area", self.surface_area, false) if self.evaporation.use_max_area is None, get_area_metric(self, p1, p2, "evaporation_area", self.surface_area, self.evaporation.use_max_area) if self.evaporation.use_max_area is Some), phase: Before}))
    self.evaporation is Some; self.surface_area is Some
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: Product, meta: ParameterMeta{name: new("rainfall", self.storage.meta.name)}, metrics: list(load(self.rainfall.data, p1, p2, self.storage.meta.name), get_area_metric(self, p1, p2, "rainfall_area", self.surface_area, false) if self.rainfall.use_max_area is None, get_area_metric(self, p1, p2, "rainfall_area", self.surface_area, self.rainfall.use_max_area) if self.rainfall.use_max_area is Some), phase: Before}))
    self.rainfall is Some; self.surface_area is Some
## RiverNode::add_to_network
add_loss_to_network(self, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "loss"), node_type: Output}, p2)
    self.loss_factor is Some
add_routing_to_network(self, p1, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "outflow"), node_type: Input}, p2)
    self.routing_method is Some
push(p1.edges, UnresolvedEdge{from: new(self.meta.name, "outflow"), to: new(self.meta.name, "loss")})
    self.loss_factor is Some; self.routing_method is Some
push(p1.edges, UnresolvedEdge{from: new(self.meta.name, "outflow"), to: new(self.meta.name, "net")})
    self.loss_factor is Some; self.routing_method is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "inflow"), node_type: Output})
    self.routing_method is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "loss"), node_type: Output})
    self.loss_factor is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "net"), node_type: Link})
    self.loss_factor is Some; self.routing_method is Some
    self.routing_method is None
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "outflow"), node_type: Input})
    self.routing_method is Some
## RiverNode::add_loss_to_network
AggregatedNodeBuilder{name: new(self.meta.name, "aggregated_loss_node")}.relationship := load(self.loss_factor, p1, p3, self.meta.name)
    load(self.loss_factor, p1, p3, self.meta.name) is Some; self.loss_factor is Some
load(self.loss_factor, p1, p3, self.meta.name)
    self.loss_factor is Some
p2.max_flow := Constant{0: 0}
    load(self.loss_factor, p1, p3, self.meta.name) is None; self.loss_factor is Some
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "aggregated_loss_node"), nodes: list(list(new(self.meta.name, "net")), list(new(self.meta.name, "loss"))), relationship: none})
    load(self.loss_factor, p1, p3, self.meta.name) is Some; self.loss_factor is Some
## RiverNode::add_routing_to_network
AggregatedNodeBuilder{name: new(self.meta.name, "aggregated_routing_node")}.relationship := new(default())
    self.routing_method is Some; self.routing_method? is Muskingum
[accepts]
    self.routing_method is Delay|Muskingum|None
default().rhs := MultiParameterValue{}
    self.routing_method is Some; self.routing_method? is Muskingum
default().rhs.key := "rhs"
    self.routing_method is Some; self.routing_method? is Muskingum
default().rhs.name := new("muskingum", self.meta.name)
    self.routing_method is Some; self.routing_method? is Muskingum
default().rhs.return_value := Before
    self.routing_method is Some; self.routing_method? is Muskingum
load(self.routing_method~Muskingum.travel_time, p1, p3, self.meta.name)
    self.routing_method is Some; self.routing_method? is Muskingum
load(self.routing_method~Muskingum.weight, p1, p3, self.meta.name)
    self.routing_method is Some; self.routing_method? is Muskingum
p2.max_flow := ParameterValue{}
    self.routing_method is Some; self.routing_method? is Delay
p2.max_flow.name := new("delay", self.meta.name)
    self.routing_method is Some; self.routing_method? is Delay
p2.max_flow.return_value := Before
    self.routing_method is Some; self.routing_method? is Delay
p2.min_flow := ParameterValue{}
    self.routing_method is Some; self.routing_method? is Delay
p2.min_flow.name := new("delay", self.meta.name)
    self.routing_method is Some; self.routing_method? is Delay
p2.min_flow.return_value := Before
    self.routing_method is Some; self.routing_method? is Delay
push(default().factors, Constant{0: 1})
    self.routing_method is Some; self.routing_method? is Muskingum
push(default().factors, MultiParameterValue{key: "inflow_factor", name: new("muskingum", self.meta.name), return_value: Before})
    self.routing_method is Some; self.routing_method? is Muskingum
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "aggregated_routing_node"), nodes: list(list(new(self.meta.name, "outflow")), list(new(self.meta.name, "inflow"))), relationship: none})
    self.routing_method is Some; self.routing_method? is Muskingum
push(p1.parameters.f64, new(DelayParameterBuilder{delay: self.routing_method~Delay.delay, initial_value: load(self.routing_method~Delay.initial_value, p3.tables), meta: ParameterMeta{name: new("delay", self.meta.name)}, metric: NodeInFlow{0: new(self.meta.name, "inflow")}}))
    self.routing_method is Some; self.routing_method? is Delay
push(p1.parameters.multi, new(MuskingumParameterBuilder{inflow: NodeInFlow{0: new(self.meta.name, "inflow")}, initial_condition: from(self.routing_method~Muskingum.initial_condition), meta: ParameterMeta{name: new("muskingum", self.meta.name)}, outflow: NodeOutFlow{0: new(self.meta.name, "outflow")}, travel_time: load(self.routing_method~Muskingum.travel_time, p1, p3, self.meta.name), weight: load(self.routing_method~Muskingum.weight, p1, p3, self.meta.name)}))
    self.routing_method is Some; self.routing_method? is Muskingum
## RiverGaugeNode::add_to_network
NodeBuilder{name: new(self.meta.name, "bypass")}.cost := load(self.bypass_cost, p1, p2, self.meta.name)
    self.bypass_cost is Some
NodeBuilder{name: new(self.meta.name, "mrf")}.cost := load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf_cost is Some
NodeBuilder{name: new(self.meta.name, "mrf")}.max_flow := load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(self.bypass_cost, p1, p2, self.meta.name)
    self.bypass_cost is Some
load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf_cost is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "bypass"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "mrf"), node_type: Link})
## RiverSplitWithGaugeNode::add_to_network
AggregatedNodeBuilder{name: new(self.meta.name, must_use(format(new(b"\nsplit-agg-\xc0\x00", (new_display(idx(self.splits)))))))}.relationship := new(default())
NodeBuilder{name: new(self.meta.name, "mrf")}.cost := load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf_cost is Some
NodeBuilder{name: new(self.meta.name, "mrf")}.max_flow := load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(elem(self.splits).factor, p1, p2, self.meta.name)
load(self.mrf, p1, p2, self.meta.name)
    self.mrf is Some
load(self.mrf_cost, p1, p2, self.meta.name)
    self.mrf_cost is Some
push(default().factors, load(elem(self.splits).factor, p1, p2, self.meta.name))
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, must_use(format(new(b"\nsplit-agg-\xc0\x00", (new_display(idx(self.splits))))))), nodes: list(list(new(self.meta.name, "bypass")), list(new(self.meta.name, must_use(format(new(b"\x06split-\xc0\x00", (new_display(idx(self.splits))))))))), relationship: none})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "bypass"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "mrf"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, must_use(format(new(b"\x06split-\xc0\x00", (new_display(idx(self.splits))))))), node_type: Link})
## TurbineNode::add_to_network
NodeBuilder{name: new(self.meta.name, none)}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: new(self.meta.name, none)}.max_flow := ParameterValue{}
    default() is Both|MaxFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MaxFlow
NodeBuilder{name: new(self.meta.name, none)}.max_flow.name := new("power", self.meta.name)
    default() is Both|MaxFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MaxFlow
NodeBuilder{name: new(self.meta.name, none)}.max_flow.return_value := Before
    default() is Both|MaxFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MaxFlow
NodeBuilder{name: new(self.meta.name, none)}.min_flow := ParameterValue{}
    default() is Both|MinFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MinFlow
NodeBuilder{name: new(self.meta.name, none)}.min_flow.name := new("power", self.meta.name)
    default() is Both|MinFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MinFlow
NodeBuilder{name: new(self.meta.name, none)}.min_flow.return_value := Before
    default() is Both|MinFlow; self.target is Some; self.target_type is None
    self.target is Some; self.target_type is Some; self.target_type? is Both|MinFlow
[accepts]
    self.target is None
    self.target_type is Both|MaxFlow|MinFlow|None
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.target, p1, p2, self.meta.name)
    self.target is Some
load(self.water_elevation, p1, p2, self.meta.name)
    self.water_elevation is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, none), node_type: Link})
push(p1.parameters.f64, new(new(new("power", self.meta.name), HydropowerTargetData{actual_flow: NodeInFlow{0: new(self.meta.name, none)}, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, self.meta.name), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, self.meta.name)})))
    self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new("power", self.meta.name), HydropowerTargetData{actual_flow: NodeInFlow{0: new(self.meta.name, none)}, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, self.meta.name), water_density: self.water_density, water_elevation: none})))
    self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new("power", self.meta.name), HydropowerTargetData{actual_flow: NodeInFlow{0: new(self.meta.name, none)}, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, self.meta.name)})))
    self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new("power", self.meta.name), HydropowerTargetData{actual_flow: NodeInFlow{0: new(self.meta.name, none)}, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.target is None; self.water_elevation is None
## WaterTreatmentWorksNode::add_to_network
AggregatedNodeBuilder{name: new(self.meta.name, "agg")}.relationship := load(self.loss_factor, p1, p2, self.meta.name)
    load(self.loss_factor, p1, p2, self.meta.name) is Some; self.loss_factor is Some
NodeBuilder{name: new(self.meta.name, "loss")}.max_flow := Constant{0: 0}
    load(self.loss_factor, p1, p2, self.meta.name) is None; self.loss_factor is Some
NodeBuilder{name: new(self.meta.name, "net")}.cost := load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
NodeBuilder{name: new(self.meta.name, "net")}.max_flow := load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
NodeBuilder{name: new(self.meta.name, "net")}.min_flow := load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
NodeBuilder{name: new(self.meta.name, "net_soft_min_flow")}.cost := load(self.soft_min_flow_cost, p1, p2, self.meta.name)
    self.soft_min_flow_cost is Some
NodeBuilder{name: new(self.meta.name, "net_soft_min_flow")}.max_flow := load(self.soft_min_flow, p1, p2, self.meta.name)
    self.soft_min_flow is Some
load(self.cost, p1, p2, self.meta.name)
    self.cost is Some
load(self.loss_factor, p1, p2, self.meta.name)
    self.loss_factor is Some
load(self.max_flow, p1, p2, self.meta.name)
    self.max_flow is Some
load(self.min_flow, p1, p2, self.meta.name)
    self.min_flow is Some
load(self.soft_min_flow, p1, p2, self.meta.name)
    self.soft_min_flow is Some
load(self.soft_min_flow_cost, p1, p2, self.meta.name)
    self.soft_min_flow_cost is Some
push(p1.aggregated_nodes, AggregatedNodeBuilder{max_flow: none, min_flow: none, name: new(self.meta.name, "agg"), nodes: list(list(new(self.meta.name, "net")), list(new(self.meta.name, "loss"))), relationship: none})
    load(self.loss_factor, p1, p2, self.meta.name) is Some; self.loss_factor is Some
push(p1.edges, UnresolvedEdge{from: new(self.meta.name, "net"), to: new(self.meta.name, "net_above_soft_min_flow")})
push(p1.edges, UnresolvedEdge{from: new(self.meta.name, "net"), to: new(self.meta.name, "net_soft_min_flow")})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "loss"), node_type: Output})
    self.loss_factor is Some
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "net"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "net_above_soft_min_flow"), node_type: Link})
push(p1.nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: new(self.meta.name, "net_soft_min_flow"), node_type: Link})
## Node::add_to_network
add_to_model(self~Catchment.0, p1, p2)
    self is Catchment
add_to_model(self~Delay.0, p1, p2)
    self is Delay
add_to_network(self~Abstraction.0, p1, p2)
    self is Abstraction
add_to_network(self~Input.0, p1, p2)
    self is Input
add_to_network(self~Link.0, p1, p2)
    self is Link
add_to_network(self~LossLink.0, p1, p2)
    self is LossLink
add_to_network(self~Output.0, p1, p2)
    self is Output
add_to_network(self~PiecewiseLink.0, p1, p2)
    self is PiecewiseLink
add_to_network(self~PiecewiseStorage.0, p1, p2)
    self is PiecewiseStorage
add_to_network(self~Reservoir.0, p1, p2)
    self is Reservoir
add_to_network(self~River.0, p1, p2)
    self is River
add_to_network(self~RiverGauge.0, p1, p2)
    self is RiverGauge
add_to_network(self~RiverSplitWithGauge.0, p1, p2)
    self is RiverSplitWithGauge
add_to_network(self~Turbine.0, p1, p2)
    self is Turbine
add_to_network(self~WaterTreatmentWorks.0, p1, p2)
    self is WaterTreatmentWorks
make_builder(self~Storage.0, p1, p2)
    self is Storage
push(p1.nodes, make_builder(self~Storage.0, p1, p2))
    self is Storage
## NodeOrVirtualNode::add_to_model
add_to_network(self~Node.0.0, p1, p2)
    self is Node
add_to_network(self~Virtual.0.0, p1, p2)
    self is Virtual
