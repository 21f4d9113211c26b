## CsvWideFmtOutput::write_values
extend(new(), list(must_use(format(new(b"\xc5 \x00\x00p\x02\x00\x00", (new_display(elem(elem(p1)[self.metric_set_idx.0].current_values).value)))))))
    elem(p1)[self.metric_set_idx.0].current_values is Some
push(new(), first(elem(p1)[self.metric_set_idx.0].current_values).start)
    Lt(len(new()), 1); elem(p1)[self.metric_set_idx.0].current_values is Some
write_record(p2.writer, new())
    !Lt(len(new()), 2)
## <CsvWideFmtOutput as Recorder>::meta
return self.meta
## <CsvWideFmtOutput as Recorder>::setup
extend(list("attribute"), list(elem(net.metric_sets[self.metric_set_idx.0].metrics).attribute))
    for each(p1.scenario.indices)
extend(list("label"), from_elem(must_use(format(new(b"\xc0\x00", (new_display(join(elem(p1.scenario.indices).labels, "-")))))), len(list(elem(net.metric_sets[self.metric_set_idx.0].metrics).name))))
extend(list("node"), list(elem(net.metric_sets[self.metric_set_idx.0].metrics).name))
    for each(p1.scenario.indices)
extend(list("simulation_id"), from_elem(must_use(format(new(b"\xc0\x00", (new_display(elem(p1.scenario.indices).core.index))))), len(list(elem(net.metric_sets[self.metric_set_idx.0].metrics).name))))
return Internal{writer: from_path(self.filename)}
write_record(from_path(self.filename), list("attribute"))
write_record(from_path(self.filename), list("label"))
write_record(from_path(self.filename), list("node"))
write_record(from_path(self.filename), list("simulation_id"))
## <CsvWideFmtOutput as Recorder>::save
write_values(self, p5, downcast_mut(p6))
## <CsvWideFmtOutput as Recorder>::finalise
return none
write_values(self, p3, downcast(p4).0)
## CsvWideFmtOutputBuilder::new
return CsvWideFmtOutputBuilder{}
return.filename p1
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric_set p2
## <CsvWideFmtOutputBuilder as RecorderBuilder>::name
return self.meta.name
## <CsvWideFmtOutputBuilder as RecorderBuilder>::build
return CsvWideFmtOutput{}
return.filename self.0.filename
return.meta self.0.meta
return.metric_set_idx p1.metric_sets[self.0.metric_set]
## CsvLongFmtOutput::write_values
serialize(p4.writer, CsvLongFmtRecord{attribute: elem(net.metric_sets[elem(self.metric_set_indices).0].metrics).attribute, label: join(elem(p2).labels, "-"), metric_set: net.metric_sets[elem(self.metric_set_indices).0].name, name: elem(net.metric_sets[elem(self.metric_set_indices).0].metrics).name, simulation_id: elem(p2).core.index, time_end: (elem(elem(p3)[elem(self.metric_set_indices).0].current_values).duration.0 +elem(elem(p3)[elem(self.metric_set_indices).0].current_values).start), time_start: elem(elem(p3)[elem(self.metric_set_indices).0].current_values).start, value: elem(elem(p3)[elem(self.metric_set_indices).0].current_values).value})
    elem(p3)[elem(self.metric_set_indices).0].current_values is Some; self.decimal_places is None
serialize(p4.writer, CsvLongFmtRecord{attribute: elem(net.metric_sets[elem(self.metric_set_indices).0].metrics).attribute, label: join(elem(p2).labels, "-"), metric_set: net.metric_sets[elem(self.metric_set_indices).0].name, name: elem(net.metric_sets[elem(self.metric_set_indices).0].metrics).name, simulation_id: elem(p2).core.index, time_end: (elem(elem(p3)[elem(self.metric_set_indices).0].current_values).duration.0 +elem(elem(p3)[elem(self.metric_set_indices).0].current_values).start), time_start: elem(elem(p3)[elem(self.metric_set_indices).0].current_values).start, value: round(elem(elem(p3)[elem(self.metric_set_indices).0].current_values).value*powi(10, self.decimal_places))/powi(10, self.decimal_places)})
    elem(p3)[elem(self.metric_set_indices).0].current_values is Some; self.decimal_places is Some
## <CsvLongFmtOutput as Recorder>::meta
return self.meta
## <CsvLongFmtOutput as Recorder>::setup
return Internal{writer: from_path(self.filename)}
## <CsvLongFmtOutput as Recorder>::save
write_values(self, net, p2, p5, downcast_mut(p6))
## <CsvLongFmtOutput as Recorder>::finalise
return none
write_values(self, net, p2, p3, downcast(p4).0)
## CsvLongFmtOutputBuilder::new
return CsvLongFmtOutputBuilder{}
return.decimal_places p2
return.filename p1
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric_sets new()
## CsvLongFmtOutputBuilder::metric_set
push(self.metric_sets, p1)
return self
## <CsvLongFmtOutputBuilder as RecorderBuilder>::name
return self.meta.name
## <CsvLongFmtOutputBuilder as RecorderBuilder>::build
return CsvLongFmtOutput{}
return.decimal_places self.0.decimal_places
return.filename self.0.filename
return.meta self.0.meta
return.metric_set_indices list
return.metric_set_indices[] p1.metric_sets[elem(self.0.metric_sets)]
## <HDF5Recorder as Recorder>::meta
return self.meta
## <HDF5Recorder as Recorder>::setup
return Internal{}
return.datasets list
return.datasets[] create(shape(new_dataset(require_group(create(self.filename), elem(net.metric_sets[self.metric_set_idx.0].metrics).name)), (len(p1.time.timesteps), len(p1.scenario.indices))), elem(net.metric_sets[self.metric_set_idx.0].metrics).attribute)
return.file create(self.filename)
write_scalar(as_writer(create(shape(new_attr(create(self.filename)), ()), "pywr-version")), from_str("2.0.0-beta4"))
write_scalar(as_writer(create(shape(new_attr(create(shape(new_dataset(require_group(create(self.filename), elem(net.metric_sets[self.metric_set_idx.0].metrics).name)), (len(p1.time.timesteps), len(p1.scenario.indices))), elem(net.metric_sets[self.metric_set_idx.0].metrics).attribute)), ()), "pywr-subtype")), from_str(elem(net.metric_sets[self.metric_set_idx.0].metrics).sub_type))
    elem(net.metric_sets[self.metric_set_idx.0].metrics).sub_type is Some
write_scalar(as_writer(create(shape(new_attr(create(shape(new_dataset(require_group(create(self.filename), elem(net.metric_sets[self.metric_set_idx.0].metrics).name)), (len(p1.time.timesteps), len(p1.scenario.indices))), elem(net.metric_sets[self.metric_set_idx.0].metrics).attribute)), ()), "pywr-type")), from_str(elem(net.metric_sets[self.metric_set_idx.0].metrics).ty))
## <HDF5Recorder as Recorder>::save
write_slice(elem(downcast_mut(p6).datasets), list(get_value(elem(net.metric_sets[self.metric_set_idx.0].metrics).metric, net, elem(p4))), new_unchecked((ts.index, RangeFull), next_in_dim(RangeFull, next_in_dim(ts.index, PhantomData)), next_out_dim(RangeFull, next_out_dim(ts.index, PhantomData))))
## <HDF5Recorder as Recorder>::finalise
close(downcast(p4).0.file)
return none
## hdf::require_group
return create_group(p0, p1)
    group(p0, p1) is Err
return group(p0, p1)
    group(p0, p1) is Ok
## HDF5RecorderBuilder::new
return HDF5RecorderBuilder{}
return.filename p1
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric_set p2
## <HDF5RecorderBuilder as RecorderBuilder>::name
return self.meta.name
## <HDF5RecorderBuilder as RecorderBuilder>::build
return HDF5Recorder{}
return.filename self.0.filename
return.meta self.0.meta
return.metric_set_idx p1.metric_sets[self.0.metric_set]
## Aggregation::new
return Aggregation{}
return.metric p2
return.scenario p0
return.time p1
## Aggregation::apply_scenario_func
return calc_iter_f64(self.scenario, p1)
    !Eq(1, len(p1))
return first(p1)
    Eq(1, len(p1))
## Aggregation::apply_time_func
return calc_period_values(self.time, p1)
    !Eq(1, len(p1))
return first(p1).value
    Eq(1, len(p1))
## <MemoryRecorderResult as RecorderFinalResult>::aggregated_value
return apply_scenario_func(self.aggregation, list(apply_time_func(self.aggregation, list(PeriodValue{duration: elem(elem(self.data)).duration, start: elem(elem(self.data)).start, value: {calc_iter_f64(self.aggregation.metric, elem(elem(self.data)).value) | first(elem(elem(self.data)).value)}}))))
    self.order is MetricTimeScenario
return apply_scenario_func(self.aggregation, list({calc_iter_f64(self.aggregation.metric, list(apply_time_func(self.aggregation, list(PeriodValue{duration: elem(elem(self.data)).duration, start: elem(elem(self.data)).start, value: elem(elem(elem(self.data)).value)})) if for each(first(elem(self.data)).value))) | first(list(apply_time_func(self.aggregation, list(PeriodValue{duration: elem(elem(self.data)).duration, start: elem(elem(self.data)).start, value: elem(elem(elem(self.data)).value)})) if for each(first(elem(self.data)).value)))}))
    self.order is TimeMetricScenario
## <MemoryRecorder as Recorder>::meta
return self.meta
## <MemoryRecorder as Recorder>::setup
return InternalState{data: list(new() if for each(p1.scenario.indices))}
## <MemoryRecorder as Recorder>::save
push(elem(downcast_mut(p6).data), elem(p5)[self.metric_set_idx.0].current_values)
    elem(p5)[self.metric_set_idx.0].current_values is Some
## <MemoryRecorder as Recorder>::finalise
push(elem(downcast(p4).0.data), elem(p3)[self.metric_set_idx.0].current_values)
    elem(p3)[self.metric_set_idx.0].current_values is Some
return MemoryRecorderResult{}
return.aggregation self.aggregation
return.data downcast(p4).0.data
return.meta self.meta
return.metric_attrs list
return.metric_attrs[] elem(net.metric_sets[self.metric_set_idx.0].metrics).attribute
return.metric_names list
return.metric_names[] elem(net.metric_sets[self.metric_set_idx.0].metrics).name
return.order self.order
return.scenario_indices p2
## MemoryRecorderBuilder::new
return MemoryRecorderBuilder{}
return.aggregation p2
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric_set p1
return.order p3
## <MemoryRecorderBuilder as RecorderBuilder>::name
return self.meta.name
## <MemoryRecorderBuilder as RecorderBuilder>::build
return MemoryRecorder{}
return.aggregation self.0.aggregation
return.meta self.0.meta
return.metric_set_idx p1.metric_sets[self.0.metric_set]
return.order self.0.order
## OutputMetric::get_value
return get_value(self.metric, net, state)
## OutputMetric::name
return self.name
## OutputMetric::attribute
return self.attribute
## OutputMetric::ty
return self.ty
## OutputMetric::sub_type
return self.sub_type
## UnresolvedOutputMetric::new
return UnresolvedOutputMetric{}
return.attribute p1
return.metric p4
return.name p0
return.sub_type none
    p3 is None
return.sub_type p3
    p3 is Some
return.ty p2
## UnresolvedOutputMetric::resolve
return OutputMetric{}
return.attribute self.attribute
return.metric resolve(self.metric, p1, After)
return.name self.name
return.sub_type self.sub_type
return.ty self.ty
## MetricSetState::current_values
return self.current_values
## MetricSet::name
return self.name
## MetricSet::iter_metrics
return self.metrics
## MetricSet::setup
return MetricSetState{}
return.aggregation_states list
    self.aggregator is Some
return.aggregation_states none
    self.aggregator is None
return.aggregation_states[] setup(self.aggregator)
    for each(self.metrics); self.aggregator is Some
return.current_values none
## MetricSet::save
append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)})
    self.aggregator is Some
p5.current_values := list
    !Lt(len(list(append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) if append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) is Some)), 1); self.aggregator is Some
    self.aggregator is None
p5.current_values := none
    Lt(len(list(append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) if append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) is Some)), 1); self.aggregator is Some
p5.current_values[] := PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}
    self.aggregator is None
p5.current_values[] := append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)})
    !Lt(len(list(append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) if append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) is Some)), 1); append_value(self.aggregator, elem(p5.aggregation_states), PeriodValue{duration: ts.duration, start: ts.date, value: get_value(elem(self.metrics).metric, net, state)}) is Some; self.aggregator is Some
## MetricSet::finalise
finalise(self.aggregator, elem(p1.aggregation_states))
    self.aggregator is Some
p1.current_values := list
    self.aggregator is Some
p1.current_values := none
    self.aggregator is None
p1.current_values[] := finalise(self.aggregator, elem(p1.aggregation_states))
    self.aggregator is Some
## MetricSetBuilder::new
return MetricSetBuilder{}
return.aggregator none
return.metrics new()
return.name p0
## MetricSetBuilder::name
return self.name
## MetricSetBuilder::aggregator
return self
self.aggregator := p1
## MetricSetBuilder::metric
push(self.metrics, p1)
return self
## MetricSetBuilder::build
return MetricSet{}
return.aggregator self.aggregator
return.metrics list
return.metrics[] OutputMetric{attribute: elem(self.metrics).attribute, metric: resolve(elem(self.metrics).metric, p1, After), name: elem(self.metrics).name, sub_type: elem(self.metrics).sub_type, ty: elem(self.metrics).ty}
return.name self.name
## RecorderFinalResult::aggregated_value

## Recorder::name
return meta(p0).name
## Recorder::setup
return none
## Recorder::before

## Recorder::save

## Recorder::finalise
return none
## <Array2Recorder as Recorder>::meta
return self.meta
## <Array2Recorder as Recorder>::setup
return new(zeros((len(p1.time.timesteps), len(p1.scenario.indices))))
## <Array2Recorder as Recorder>::save
downcast_mut(p6)[(ts.index, elem(p2).core.index)] := get_value(self.metric, net, p4[elem(p2).core.index])
## Array2RecorderBuilder::new
return Array2RecorderBuilder{}
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric p1
## <Array2RecorderBuilder as RecorderBuilder>::name
return self.meta.name
## <Array2RecorderBuilder as RecorderBuilder>::build
return Array2Recorder{}
return.meta self.0.meta
return.metric resolve(self.0.metric, p1, After)
## <AssertionF64Recorder as Recorder>::meta
return self.meta
## <AssertionF64Recorder as Recorder>::save

## AssertionF64RecorderBuilder::new
return AssertionF64RecorderBuilder{}
return.epsilon 1e-06
return.expected_values p2
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric p1
return.ulps 5
## AssertionF64RecorderBuilder::ulps
return self
self.ulps := p1
## AssertionF64RecorderBuilder::epsilon
return self
self.epsilon := p1
## <AssertionF64RecorderBuilder as RecorderBuilder>::name
return self.meta.name
## <AssertionF64RecorderBuilder as RecorderBuilder>::build
return AssertionF64Recorder{}
return.epsilon self.0.epsilon
return.expected_values self.0.expected_values
return.meta self.0.meta
return.metric resolve(self.0.metric, p1, After)
return.ulps self.0.ulps
## <AssertionU64Recorder as Recorder>::meta
return self.meta
## <AssertionU64Recorder as Recorder>::save

## AssertionU64RecorderBuilder::new
return AssertionU64RecorderBuilder{}
return.expected_values p2
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric p1
## <AssertionU64RecorderBuilder as RecorderBuilder>::name
return self.meta.name
## <AssertionU64RecorderBuilder as RecorderBuilder>::build
return AssertionU64Recorder{}
return.expected_values self.0.expected_values
return.meta self.0.meta
return.metric resolve(self.0.metric, p1, After)
## <AssertionFnRecorder<F> as Recorder>::meta
return self.meta
## <AssertionFnRecorder<F> as Recorder>::save

## AssertionFnRecorderBuilder<F>::new
return AssertionFnRecorderBuilder{}
return.epsilon 4.4408920985e-16
return.expected_func p2
return.meta RecorderMeta{}
return.meta.comment ""
return.meta.name p0
return.metric p1
return.ulps 2
## AssertionFnRecorderBuilder<F>::ulps
return self
self.ulps := p1
## AssertionFnRecorderBuilder<F>::epsilon
return self
self.epsilon := p1
## <AssertionFnRecorderBuilder<F> as RecorderBuilder>::name
return self.meta.name
## <AssertionFnRecorderBuilder<F> as RecorderBuilder>::build
return AssertionFnRecorder{}
return.epsilon self.0.epsilon
return.expected_func self.0.expected_func
return.meta self.0.meta
return.metric resolve(self.0.metric, p1, After)
return.ulps self.0.ulps
