## MetricAggregator::load
return new(from(self.freq), load(self.func, p1), load(self.child.0, p1))
    self.child is Some; self.freq is Some
return new(from(self.freq), load(self.func, p1), none)
    self.child is None; self.freq is Some
return new(none, load(self.func, p1), load(self.child.0, p1))
    self.child is Some; self.freq is None
return new(none, load(self.func, p1), none)
    self.child is None; self.freq is None
## MetricSetFilters::create_metrics
ParameterReferenceBuilder{name: meta(elem(p1.schema.parameters)).name}.return_value := After
    elem(p1.schema.parameters) is Aggregated|AggregatedIndex|AsymmetricSwitchIndex|Constant|ConstantScenario|ControlCurve|ControlCurveIndex|ControlCurveInterpolated|ControlCurvePiecewiseInterpolated|DailyProfile|Delay|DelayIndex|DiscountFactor|DiurnalProfile|Division|HydropowerTarget|IndexedArray|Interpolated|Max|Min|MonthlyProfile|MultiThreshold|Negative|NegativeMax|NegativeMin|Offset|Placeholder|Polynomial1D|RbfProfile|Rolling|RollingIndex|TablesArray|Threshold|UniformDrawdownProfile|WeeklyProfile; p1.schema.parameters is Some; phase(elem(p1.schema.parameters)) is After|Both; self.all_parameters
    elem(p1.schema.parameters) is Python; elem(p1.schema.parameters)~Python.0.return_type is Float|Int; p1.schema.parameters is Some; phase(elem(p1.schema.parameters)) is After|Both; self.all_parameters
ParameterReferenceBuilder{name: meta(elem(p1.schema.parameters)).name}.return_value := Before
    elem(p1.schema.parameters) is Aggregated|AggregatedIndex|AsymmetricSwitchIndex|Constant|ConstantScenario|ControlCurve|ControlCurveIndex|ControlCurveInterpolated|ControlCurvePiecewiseInterpolated|DailyProfile|Delay|DelayIndex|DiscountFactor|DiurnalProfile|Division|HydropowerTarget|IndexedArray|Interpolated|Max|Min|MonthlyProfile|MultiThreshold|Negative|NegativeMax|NegativeMin|Offset|Placeholder|Polynomial1D|RbfProfile|Rolling|RollingIndex|TablesArray|Threshold|UniformDrawdownProfile|WeeklyProfile; p1.schema.parameters is Some; phase(elem(p1.schema.parameters)) is Before; self.all_parameters
    elem(p1.schema.parameters) is Python; elem(p1.schema.parameters)~Python.0.return_type is Float|Int; p1.schema.parameters is Some; phase(elem(p1.schema.parameters)) is Before; self.all_parameters
return list
return[] Edge{0: EdgeReference{edge: elem(p1.schema.edges)}}
    self.all_edges
return[] Node{0: NodeAttrReference{attribute: none, name: name(elem(p1.schema.nodes))}}
    self.all_nodes
return[] Parameter{0: ParameterReference{key: none, name: meta(elem(p1.schema.parameters)).name, return_value: none}}
    elem(p1.schema.parameters) is Aggregated|AggregatedIndex|AsymmetricSwitchIndex|Constant|ConstantScenario|ControlCurve|ControlCurveIndex|ControlCurveInterpolated|ControlCurvePiecewiseInterpolated|DailyProfile|Delay|DelayIndex|DiscountFactor|DiurnalProfile|Division|HydropowerTarget|IndexedArray|Interpolated|Max|Min|MonthlyProfile|MultiThreshold|Negative|NegativeMax|NegativeMin|Offset|Placeholder|Polynomial1D|RbfProfile|Rolling|RollingIndex|TablesArray|Threshold|UniformDrawdownProfile|WeeklyProfile; p1.schema.parameters is Some; self.all_parameters
    elem(p1.schema.parameters) is Python; elem(p1.schema.parameters)~Python.0.return_type is Float|Int; p1.schema.parameters is Some; self.all_parameters
return[] VirtualNode{0: VirtualNodeAttrReference{attribute: none, name: name(elem(p1.schema.virtual_nodes))}}
    p1.schema.virtual_nodes is Some; self.all_virtual_nodes
## MetricSet::add_to_network
MetricSetBuilder{name: self.name}.aggregator := load(self.aggregator, p2.data_path)
    self.aggregator is Some
[accepts]
    !Lt(len(list(load_as_output(elem(create_metrics(self.filters, p2)), p1, p2, none))), 1); self.metrics is None
    !Lt(len(list(load_as_output(elem(self.metrics), p1, p2, none))), 1)
load_as_output(elem(create_metrics(self.filters, p2)), p1, p2, none)
load_as_output(elem(self.metrics), p1, p2, none)
    self.metrics is Some
push(list(load_as_output(elem(self.metrics), p1, p2, none)), load_as_output(elem(create_metrics(self.filters, p2)), p1, p2, none))
    !contains(list(load_as_output(elem(self.metrics), p1, p2, none)), load_as_output(elem(create_metrics(self.filters, p2)), p1, p2, none)); self.metrics is Some
push(p1.metric_sets, MetricSetBuilder{aggregator: none, metrics: list(load_as_output(elem(create_metrics(self.filters, p2)), p1, p2, none) if self.metrics is None, load_as_output(elem(self.metrics), p1, p2, none) if self.metrics is Some), name: self.name})
## CsvOutput::add_to_network
[accepts]
    self.decimal_places is None; self.format is Long
    self.format is Long; self.metric_set is Multiple
    self.metric_set is Single
push(p1.recorders, CsvLongFmtOutputBuilder{self.name})
    self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).decimal_places = new(self.decimal_places)
    self.decimal_places is Some; self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).decimal_places = none
    self.decimal_places is None; self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).filename = join(p2, self.filename)
    is_relative(self.filename); p2 is Some; self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).filename = self.filename
    !is_relative(self.filename); p2 is Some; self.format is Long
    p2 is None; self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).meta = RecorderMeta{}
    self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).meta.comment = ""
    self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).meta.name = self.name
    self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).metric_sets = list
    self.format is Long
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).metric_sets[] = elem(self.metric_set~Multiple.0)
    self.format is Long; self.metric_set is Multiple
push(p1.recorders, CsvLongFmtOutputBuilder{self.name}).metric_sets[] = self.metric_set~Single.0
    self.format is Long; self.metric_set is Single
push(p1.recorders, new(CsvWideFmtOutputBuilder{filename: join(p2, self.filename), meta: RecorderMeta{comment: "", name: self.name}, metric_set: self.metric_set~Single.0}))
    is_relative(self.filename); p2 is Some; self.format is Wide
push(p1.recorders, new(CsvWideFmtOutputBuilder{filename: self.filename, meta: RecorderMeta{comment: "", name: self.name}, metric_set: self.metric_set~Single.0}))
    !is_relative(self.filename); p2 is Some; self.format is Wide
    p2 is None; self.format is Wide
## Hdf5Output::add_to_network
push(p1.recorders, new(HDF5RecorderBuilder{filename: join(p2, self.filename), meta: RecorderMeta{comment: "", name: self.name}, metric_set: self.metric_set}))
    is_relative(self.filename); p2 is Some
push(p1.recorders, new(HDF5RecorderBuilder{filename: self.filename, meta: RecorderMeta{comment: "", name: self.name}, metric_set: self.metric_set}))
    !is_relative(self.filename); p2 is Some
    p2 is None
## MemoryOutput::add_to_network
push(p1.recorders, MemoryRecorderBuilder{self.name})
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation = Aggregation{}
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.metric = load(default().metric, p2)
    default().metric is Some; self.aggregation is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.metric = load(self.aggregation.metric, p2)
    self.aggregation is Some; self.aggregation.metric is Some
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.metric = none
    default().metric is None; self.aggregation is None
    self.aggregation is Some; self.aggregation.metric is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.scenario = load(default().scenario, p2)
    default().scenario is Some; self.aggregation is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.scenario = load(self.aggregation.scenario, p2)
    self.aggregation is Some; self.aggregation.scenario is Some
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.scenario = none
    default().scenario is None; self.aggregation is None
    self.aggregation is Some; self.aggregation.scenario is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.time = load(default().time, p2)
    default().time is Some; self.aggregation is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.time = load(self.aggregation.time, p2)
    self.aggregation is Some; self.aggregation.time is Some
push(p1.recorders, MemoryRecorderBuilder{self.name}).aggregation.time = none
    default().time is None; self.aggregation is None
    self.aggregation is Some; self.aggregation.time is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).meta = RecorderMeta{}
push(p1.recorders, MemoryRecorderBuilder{self.name}).meta.comment = ""
push(p1.recorders, MemoryRecorderBuilder{self.name}).meta.name = self.name
push(p1.recorders, MemoryRecorderBuilder{self.name}).metric_set = self.metric_set
push(p1.recorders, MemoryRecorderBuilder{self.name}).order = default()
    self.order is None
push(p1.recorders, MemoryRecorderBuilder{self.name}).order = from(self.order)
    self.order is Some
## Output::add_to_model
add_to_network(self~CSV.0, p1, p3)
    self is CSV
add_to_network(self~HDF5.0, p1, p3)
    self is HDF5
add_to_network(self~Memory.0.0, p1, p2)
    self is Memory
## Output::name
return self~CSV.0.name
    self is CSV
return self~HDF5.0.name
    self is HDF5
return self~Memory.0.0.name
    self is Memory
