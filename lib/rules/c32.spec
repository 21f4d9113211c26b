## Factors::is_constant
leave loop early()
    !is_constant(elem(self~Coefficients.factors)); self is Coefficients
    !is_constant(elem(self~Proportion.factors)); self is Proportion
    !is_constant(elem(self~Ratio.factors)); self is Ratio
return false
    !is_constant(elem(self~Coefficients.factors)); self is Coefficients
    !is_constant(elem(self~Proportion.factors)); self is Proportion
    !is_constant(elem(self~Ratio.factors)); self is Ratio
    !is_constant(self~Coefficients.rhs); is_constant(elem(self~Coefficients.factors)); self is Coefficients; self~Coefficients.rhs is Some
return true
    is_constant(elem(self~Coefficients.factors)); is_constant(self~Coefficients.rhs); self is Coefficients; self~Coefficients.rhs is Some
    is_constant(elem(self~Coefficients.factors)); self is Coefficients; self~Coefficients.rhs is None
    is_constant(elem(self~Proportion.factors)); self is Proportion
    is_constant(elem(self~Ratio.factors)); self is Ratio
## ProportionalFactorsBuilder::factor
push(self.factors, p1)
return self
## <ProportionalFactorsBuilder as RelationshipBuilder>::build
return Factored{0: Proportion{factors: list(resolve(elem(self.factors), p1, Before))}}
## RatioFactorsBuilder::factor
push(self.factors, p1)
return self
## <RatioFactorsBuilder as RelationshipBuilder>::build
return Factored{0: Ratio{factors: list(resolve(elem(self.factors), p1, Before))}}
## CoefficientFactorsBuilder::factor
push(self.factors, p1)
return self
## CoefficientFactorsBuilder::rhs
return self
self.rhs := p1
## <CoefficientFactorsBuilder as RelationshipBuilder>::build
return Factored{0: Coefficients{factors: list(resolve(elem(self.factors), p1, Before)), rhs: none}}
    self.rhs is None
return Factored{0: Coefficients{factors: list(resolve(elem(self.factors), p1, Before)), rhs: resolve(self.rhs, p1, Before)}}
    self.rhs is Some
## Exclusivity::min_active
return self.min_active
## Exclusivity::max_active
return self.max_active
## <ExclusivityBuilder as Default>::default
return ExclusivityBuilder{}
return.max_active 1
return.min_active 0
## ExclusivityBuilder::min_active
return self
self.min_active := p1
## ExclusivityBuilder::max_active
return self
self.max_active := p1
## <ExclusivityBuilder as RelationshipBuilder>::build
return Exclusive{0: Exclusivity{max_active: self.max_active, min_active: self.min_active}}
## NodeFactorPair<'a>::node0_indices
return p0.node0.indices
## NodeFactorPair<'a>::node0_factor
return p0.node0.factor
## NodeFactorPair<'a>::node1_indices
return p0.node1.indices
## NodeFactorPair<'a>::node1_factor
return p0.node1.factor
## NodeFactorPair<'a>::rhs
return p0.rhs
## NodeConstFactorPair<'a>::node0_indices
return p0.node0.indices
## NodeConstFactorPair<'a>::node0_factor
return p0.node0.factor
## NodeConstFactorPair<'a>::node1_indices
return p0.node1.indices
## NodeConstFactorPair<'a>::node1_factor
return p0.node1.factor
## NodeConstFactorPair<'a>::rhs
return p0.rhs
## AggregatedNode::name @core
return self.meta.name
## AggregatedNode::sub_name
return self.meta.sub_name
## AggregatedNode::full_name
return.0 self.meta.name
return.1 self.meta.sub_name
## AggregatedNode::index
return self.meta.index
## AggregatedNode::iter_nodes
return map(self.nodes, fn:alloc::vec::Vec::as_slice)
## AggregatedNode::has_exclusivity
[accepts]
    self.relationship is Exclusive|Factored|None
return false
    self.relationship is None
    self.relationship is Some; self.relationship? is Factored
return true
    self.relationship is Some; self.relationship? is Exclusive
## AggregatedNode::has_factors
[accepts]
    self.relationship is Exclusive|Factored|None
return false
    self.relationship is None
    self.relationship is Some; self.relationship? is Exclusive
return true
    self.relationship is Some; self.relationship? is Factored
## AggregatedNode::has_const_factors
[accepts]
    self.relationship is Exclusive|Factored|None
return false
    !is_constant(self.relationship~Factored.0); self.relationship is Some; self.relationship? is Factored
    self.relationship is None
    self.relationship is Some; self.relationship? is Exclusive
return true
    is_constant(self.relationship~Factored.0); self.relationship is Some; self.relationship? is Factored
## AggregatedNode::set_relationship
self.relationship := p1
## AggregatedNode::get_exclusivity
[accepts]
    self.relationship is Exclusive|Factored|None
return none
    self.relationship is None
    self.relationship is Some; self.relationship? is Factored
return self.relationship~Exclusive.0
    self.relationship is Some; self.relationship? is Exclusive
## AggregatedNode::get_factors
[accepts]
    self.relationship is Exclusive|Factored|None
return none
    self.relationship is None
    self.relationship is Some; self.relationship? is Exclusive
return self.relationship~Factored.0
    self.relationship is Some; self.relationship? is Factored
## AggregatedNode::get_factor_node_pairs
return list
    has_factors(self)
return none
    !has_factors(self)
return[] (self.nodes[0], elem(self.nodes))
    has_factors(self); skip(1)
## AggregatedNode::get_const_norm_factor_pairs
[accepts]
    get_factors(self) is Coefficients|None|Proportion|Ratio
return get_const_coefficient_factor_pairs(get_factors(self)~Coefficients.factors, self.nodes, get_factors(self)~Coefficients.rhs, p1)
    get_factors(self) is Some; get_factors(self)? is Coefficients
return get_const_norm_proportional_factor_pairs(get_factors(self)~Proportion.factors, self.nodes, p1)
    get_factors(self) is Some; get_factors(self)? is Proportion
return get_const_norm_ratio_factor_pairs(get_factors(self)~Ratio.factors, self.nodes, p1)
    get_factors(self) is Some; get_factors(self)? is Ratio
return none
    get_factors(self) is None
## AggregatedNode::get_norm_factor_pairs
[accepts]
    !Lt(get_value(get_factors(self)~Ratio.factors[0], net, state), 0); Eq(len(get_factors(self)~Ratio.factors), len(self.nodes)); get_factors(self) is Ratio
    Eq(2, len(get_factors(self)~Coefficients.factors)); Eq(len(get_factors(self)~Coefficients.factors), len(self.nodes)); get_factors(self) is Coefficients
    Eq(len(get_factors(self)~Proportion.factors) +1, len(self.nodes)); Lt(acc(0) +get_value(elem(get_factors(self)~Proportion.factors), net, state), 1); get_factors(self) is Proportion
    get_factors(self) is None
return list
    get_factors(self) is Some
return none
    get_factors(self) is None
return[] NodeFactorPair{node0: NodeFactor{factor: 1, indices: self.nodes[0]}, node1: NodeFactor{factor: (acc(0)/get_value(elem(get_factors(self)~Proportion.factors), net, state) -1/get_value(elem(get_factors(self)~Proportion.factors), net, state) +1), indices: elem(self.nodes)}, rhs: 0}
    get_factors(self) is Some; get_factors(self)? is Proportion; skip(1)
return[] NodeFactorPair{node0: NodeFactor{factor: 1, indices: self.nodes[0]}, node1: NodeFactor{factor: -get_value(get_factors(self)~Ratio.factors[0], net, state)/get_value(elem(get_factors(self)~Ratio.factors), net, state), indices: elem(self.nodes)}, rhs: 0}
    get_factors(self) is Some; get_factors(self)? is Ratio; skip(1)
return[] NodeFactorPair{node0: NodeFactor{factor: get_value(get_factors(self)~Coefficients.factors[0], net, state), indices: self.nodes[0]}, node1: NodeFactor{factor: get_value(get_factors(self)~Coefficients.factors[1], net, state), indices: self.nodes[1]}, rhs: 0}
    get_factors(self) is Some; get_factors(self)? is Coefficients; get_factors(self)~Coefficients.rhs is None
return[] NodeFactorPair{node0: NodeFactor{factor: get_value(get_factors(self)~Coefficients.factors[0], net, state), indices: self.nodes[0]}, node1: NodeFactor{factor: get_value(get_factors(self)~Coefficients.factors[1], net, state), indices: self.nodes[1]}, rhs: get_value(get_factors(self)~Coefficients.rhs, net, state)}
    get_factors(self) is Some; get_factors(self)? is Coefficients; get_factors(self)~Coefficients.rhs is Some
## AggregatedNode::get_min_flow
return get_min_flow(self.flow_constraints, net, state)
## AggregatedNode::get_max_flow
return get_max_flow(self.flow_constraints, net, state)
## AggregatedNode::get_flow_bounds
return.0 get_min_flow(self, net, state)
return.1 get_max_flow(self, net, state)
## AggregatedNode::default_metric
return AggregatedNodeInFlow{0: self.meta.index}
## AggregatedNodeBuilder::new
return AggregatedNodeBuilder{}
return.max_flow none
return.min_flow none
return.name p0
return.nodes new()
return.relationship none
## AggregatedNodeBuilder::name
return self.name
## AggregatedNodeBuilder::sub_name
return self
set_sub_name(self.name, p1)
## AggregatedNodeBuilder::min_flow
return self
self.min_flow := p1
## AggregatedNodeBuilder::max_flow
return self
self.max_flow := p1
## AggregatedNodeBuilder::nodes
push(self.nodes, p1)
return self
## AggregatedNodeBuilder::relationship
return self
self.relationship := p1
## AggregatedNodeBuilder::build
return AggregatedNode{}
return.flow_constraints FlowConstraints{}
return.flow_constraints.max_flow none
    self.max_flow is None
return.flow_constraints.max_flow resolve(self.max_flow, p1, Before)
    self.max_flow is Some
return.flow_constraints.min_flow none
    self.min_flow is None
return.flow_constraints.min_flow resolve(self.min_flow, p1, Before)
    self.min_flow is Some
return.meta NodeMeta{}
return.meta.index p1.aggregated_nodes[self.name]
return.meta.name self.name.name
return.meta.sub_name self.name.sub_name
return.nodes list
return.nodes[] list(p1.nodes[elem(elem(self.nodes))])
return.relationship build(self.relationship.0, p1)
    self.relationship is Some
return.relationship none
    self.relationship is None
## aggregated_node::get_const_norm_proportional_factor_pairs
[accepts]
    Eq(len(p0) +1, len(p1)); Lt(acc(0) +{none | try_get_constant_value(elem(p0), p2)}, 1)
    Eq(len(p0) +1, len(p1)); {none | try_get_constant_value(elem(p0), p2)} is None
leave loop early()
    {none | try_get_constant_value(elem(p0), p2)} is None
return list
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: 1, indices: p1[0]}, node1: NodeConstFactor{factor: (acc(0)/{none | try_get_constant_value(elem(p0), p2)} -1/{none | try_get_constant_value(elem(p0), p2)} +1), indices: elem(p1)}, rhs: 0}
    skip(1); {none | try_get_constant_value(elem(p0), p2)} is Some
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: 1, indices: p1[0]}, node1: NodeConstFactor{factor: none, indices: elem(p1)}, rhs: 0}
    skip(1); {none | try_get_constant_value(elem(p0), p2)} is None
## aggregated_node::get_const_norm_ratio_factor_pairs
[accepts]
    !Lt(try_get_constant_value(p0[0], p2), 0); Eq(len(p0), len(p1))
    Eq(len(p0), len(p1)); try_get_constant_value(p0[0], p2) is None
return list
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: 1, indices: p1[0]}, node1: NodeConstFactor{factor: -try_get_constant_value(p0[0], p2)/try_get_constant_value(elem(p0), p2), indices: elem(p1)}, rhs: 0}
    skip(1); try_get_constant_value(elem(p0), p2) is Some; try_get_constant_value(p0[0], p2) is Some
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: 1, indices: p1[0]}, node1: NodeConstFactor{factor: none, indices: elem(p1)}, rhs: 0}
    skip(1); try_get_constant_value(elem(p0), p2) is None; try_get_constant_value(p0[0], p2) is Some
    skip(1); try_get_constant_value(p0[0], p2) is None
## aggregated_node::get_const_coefficient_factor_pairs
[accepts]
    Eq(2, len(p0)); Eq(len(p0), len(p1))
return list
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: none, indices: p1[0]}, node1: NodeConstFactor{factor: none, indices: p1[1]}, rhs: 0}
    p2 is Some; try_get_constant_value(p2, p3) is None
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: try_get_constant_value(p0[0], p3), indices: p1[0]}, node1: NodeConstFactor{factor: try_get_constant_value(p0[1], p3), indices: p1[1]}, rhs: 0}
    p2 is None
return[] NodeConstFactorPair{node0: NodeConstFactor{factor: try_get_constant_value(p0[0], p3), indices: p1[0]}, node1: NodeConstFactor{factor: try_get_constant_value(p0[1], p3), indices: p1[1]}, rhs: try_get_constant_value(p2, p3)}
    p2 is Some; try_get_constant_value(p2, p3) is Some
