## <Metric as Default>::default
return Literal{value: 0}
## Metric::load
[accepts]
    self is Edge|InterNetworkTransfer|Literal|LocalParameter|Node|Parameter|Table|VirtualNode
    self is Timeseries; self~Timeseries.0.columns is Column|None|Scenario
load_column_f64(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Column.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Column
load_df_f64(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Scenario.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Scenario
load_f64(self~Node.0, p1, p2)
    self is Node
load_single_column_f64(p2.timeseries, p1, self~Timeseries.0.name)
    self is Timeseries; self~Timeseries.0.columns is None
return Constant{0: get_scalar_f64(p2.tables.tables[self~Table.0.table], key(self~Table.0))}
    self is Table
return Constant{0: self~Literal.value}
    self is Literal
return InterNetworkTransfer{0: self~InterNetworkTransfer.name}
    self is InterNetworkTransfer
return MultiEdgeFlow{}
    self is Edge
return ParameterValue{}
    self is Timeseries
return load_f64(self~LocalParameter.0, p3)
    self is LocalParameter
return load_f64(self~Node.0, p1, p2)
    self is Node
return load_f64(self~Parameter.0, none)
    self is Parameter
return load_f64(self~VirtualNode.0, p2)
    self is VirtualNode
return.edges list
    self is Edge
return.edges[] UnresolvedEdge{from: elem(iter_node_connection_pairs(self~Edge.0.edge, p2)).0, to: elem(iter_node_connection_pairs(self~Edge.0.edge, p2)).1}
    self is Edge
return.name load_column_f64(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Column.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Column
return.name load_df_f64(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Scenario.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Scenario
return.name load_single_column_f64(p2.timeseries, p1, self~Timeseries.0.name)
    self is Timeseries; self~Timeseries.0.columns is None
return.name self~Edge.0.edge
    self is Edge
return.return_value Before
    self is Timeseries
## Metric::name
[accepts]
    self is Edge|InterNetworkTransfer|LocalParameter|Node|Parameter|Table|Timeseries|VirtualNode
[success]
    self is Edge|InterNetworkTransfer|LocalParameter|Node|Parameter|Table|Timeseries|VirtualNode
return self~Edge.0.edge
    self is Edge
return self~InterNetworkTransfer.name
    self is InterNetworkTransfer
return self~LocalParameter.0.name
    self is LocalParameter
return self~Node.0.name
    self is Node
return self~Parameter.0.name
    self is Parameter
return self~Table.0.table
    self is Table
return self~Timeseries.0.name
    self is Timeseries
return self~VirtualNode.0.name
    self is VirtualNode
## Metric::attribute
return "Flow"
    self is Edge
return "value"
    column(self~Timeseries.0) is None; self is Timeseries
    self is InterNetworkTransfer|Literal
return attribute(self~LocalParameter.0)
    self is LocalParameter
return attribute(self~Node.0, p1)
    self is Node
return attribute(self~Parameter.0)
    self is Parameter
return attribute(self~VirtualNode.0, p1)
    self is VirtualNode
return column(self~Timeseries.0)
    column(self~Timeseries.0) is Some; self is Timeseries
return join(key(self~Table.0), ";")
    self is Table
## Metric::load_as_output
load(self, p1, p2, p3)
return new(name(self), attribute(self, p2), self, node_type(self~Node.0, p2), load(self, p1, p2, p3))
    self is Node
return new(name(self), attribute(self, p2), self, node_type(self~VirtualNode.0, p2), load(self, p1, p2, p3))
    self is VirtualNode
return new(name(self), attribute(self, p2), self, none, load(self, p1, p2, p3))
    self is Edge|InterNetworkTransfer|Literal|Table|Timeseries
return new(name(self), attribute(self, p2), self, parameter_type(self~LocalParameter.0, p2), load(self, p1, p2, p3))
    self is LocalParameter
return new(name(self), attribute(self, p2), self, parameter_type(self~Parameter.0, p2), load(self, p1, p2, p3))
    self is Parameter
## NodeAttrReference::new
return NodeAttrReference{}
return.attribute p1
return.name p0
## NodeAttrReference::load_f64
create_metric(get_node_by_name(p2.schema, self.name), p1, self.attribute)
return create_metric(get_node_by_name(p2.schema, self.name), p1, self.attribute)
## NodeAttrReference::load_u64

## NodeAttrReference::attribute
return default_attribute(get_node_by_name(p1.schema, self.name))
    self.attribute is None
return self.attribute
    self.attribute is Some
## NodeAttrReference::node_type
return node_type(get_node_by_name(p1.schema, self.name))
## VirtualNodeAttrReference::new
return VirtualNodeAttrReference{}
return.attribute p1
return.name p0
## VirtualNodeAttrReference::load_f64
return create_metric(get_virtual_node_by_name(p1.schema, self.name), self.attribute)
## VirtualNodeAttrReference::load_u64

## VirtualNodeAttrReference::attribute
return default_attribute(get_virtual_node_by_name(p1.schema, self.name))
    self.attribute is None
return self.attribute
    self.attribute is Some
## VirtualNodeAttrReference::node_type
return from(get_virtual_node_by_name(p1.schema, self.name))
## ParameterReference::load_f64
return MultiParameterValue{}
    self.key is Some
return ParameterValue{}
    self.key is None
return.key self.key
    self.key is Some
return.name new(self.name, p1)
return.return_value from(default())
    self.return_value is None
return.return_value from(self.return_value)
    self.return_value is Some
## ParameterReference::load_u64
return MultiParameterValue{}
    self.key is Some
return ParameterValue{}
    self.key is None
return.key self.key
    self.key is Some
return.name new(self.name, p1)
return.return_value from(default())
    self.return_value is None
return.return_value from(self.return_value)
    self.return_value is Some
## ParameterReference::parameter_type
return from(get_parameter_by_name(p1.schema, self.name))
## ParameterReference::attribute
return self.key
    self.key is Some
return to_lowercase(default())
    self.key is None; self.return_value is None
return to_lowercase(self.return_value)
    self.key is None; self.return_value is Some
## ParameterReferenceBuilder::new
return ParameterReferenceBuilder{}
return.key none
return.name p0
return.return_value none
## ParameterReferenceBuilder::key
return self
self.key := p1
## ParameterReferenceBuilder::return_value
return self
self.return_value := p1
## ParameterReferenceBuilder::build
return ParameterReference{}
return.key self.key
return.name self.name
return.return_value self.return_value
## EdgeReference::load
return MultiEdgeFlow{}
return.edges list
return.edges[] UnresolvedEdge{from: elem(iter_node_connection_pairs(self.edge, p1)).0, to: elem(iter_node_connection_pairs(self.edge, p1)).1}
return.name self.edge
## IndexMetric::load
[accepts]
    self is Constant|InterNetworkTransfer|LocalParameter|Parameter|Table
    self is Timeseries; self~Timeseries.0.columns is Column|None|Scenario
[success]
    self is Constant|InterNetworkTransfer|LocalParameter|Parameter|Table|Timeseries
load_column_usize(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Column.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Column
load_df_usize(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Scenario.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Scenario
load_single_column_usize(p2.timeseries, p1, self~Timeseries.0.name)
    self is Timeseries; self~Timeseries.0.columns is None
return Constant{0: get_scalar_u64(p2.tables.tables[self~Table.0.table], key(self~Table.0))}
    self is Table
return Constant{0: self~Constant.value}
    self is Constant
return InterNetworkTransfer{0: self~InterNetworkTransfer.name}
    self is InterNetworkTransfer
return ParameterValue{}
    self is Timeseries
return load_u64(self~LocalParameter.0, p3)
    self is LocalParameter
return load_u64(self~Parameter.0, none)
    self is Parameter
return.name load_column_usize(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Column.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Column
return.name load_df_usize(p2.timeseries, p1, self~Timeseries.0.name, self~Timeseries.0.columns~Scenario.name)
    self is Timeseries; self~Timeseries.0.columns is Some; self~Timeseries.0.columns? is Scenario
return.name load_single_column_usize(p2.timeseries, p1, self~Timeseries.0.name)
    self is Timeseries; self~Timeseries.0.columns is None
return.return_value Before
    self is Timeseries
