## <AggregatedParameter<M> as Parameter>::meta
return self.meta
## <AggregatedParameter<MetricF64> as GeneralParameter>::as_parameter
return self
## <AggregatedParameter<SimpleMetricF64> as SimpleParameter<f64>>::as_parameter
return self
## <AggregatedParameter<ConstantMetricF64> as ConstParameter<f64>>::as_parameter
return self
## AggregatedParameterBuilder::before
return AggregatedParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase Before
## AggregatedParameterBuilder::after
return AggregatedParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase After
## AggregatedParameterBuilder::both
return AggregatedParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase Both
## AggregatedParameterBuilder::metric
push(self.metrics, p1)
return self
## <AggregatedParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <AggregatedParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return Const{0: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase))))))})}
    ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase)))))) is Some; resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Before
return General{0: GeneralParameterEntry{after: Value{0: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}, before: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))}), parameter: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Both
return General{0: GeneralParameterEntry{after: Value{0: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}, before: none, parameter: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is After
return General{0: GeneralParameterEntry{after: none, before: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))}), parameter: new(AggregatedParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase)))))) is None; resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Before
return Retry{}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return.builder self
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return.parameter_not_found err(resolve(elem(self.0.metrics), p1, self.0.phase))~ParameterNotFound.parameter
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
## <AggregatedIndexParameter<M> as Parameter>::meta
return self.meta
## <AggregatedIndexParameter<MetricU64> as GeneralParameter>::as_parameter
return self
## <AggregatedIndexParameter<SimpleMetricU64> as SimpleParameter<u64>>::as_parameter
return self
## <AggregatedIndexParameter<ConstantMetricU64> as ConstParameter<u64>>::as_parameter
return self
## AggregatedIndexParameterBuilder::before
return AggregatedIndexParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase Before
## AggregatedIndexParameterBuilder::after
return AggregatedIndexParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase After
## AggregatedIndexParameterBuilder::both
return AggregatedIndexParameterBuilder{}
return.agg_func p1
return.meta ParameterMeta{name: p0}
return.metrics new()
return.phase Both
## AggregatedIndexParameterBuilder::metric
push(self.metrics, p1)
return self
## <AggregatedIndexParameterBuilder as ParameterBuilder<u64>>::name
return self.meta.name
## <AggregatedIndexParameterBuilder as ParameterBuilder<u64>>::build
leave loop early()
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return Const{0: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase))))))})}
    ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase)))))) is Some; resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Before
return General{0: GeneralParameterEntry{after: Value{0: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}, before: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))}), parameter: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Both
return General{0: GeneralParameterEntry{after: Value{0: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}, before: none, parameter: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is After
return General{0: GeneralParameterEntry{after: none, before: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))}), parameter: new(AggregatedIndexParameter{agg_func: self.0.agg_func, meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, self.0.phase))})}}
    ok(list(try_into(elem(list(resolve(elem(self.0.metrics), p1, self.0.phase)))))) is None; resolve(elem(self.0.metrics), p1, self.0.phase) is Ok; self.0.phase is Before
return Retry{}
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return.builder self
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
return.parameter_not_found err(resolve(elem(self.0.metrics), p1, self.0.phase))~ParameterNotFound.parameter
    resolve(elem(self.0.metrics), p1, self.0.phase) is Err
## Array1Parameter<T>::timestep_index
return min((len_of(self.array, Axis{0: 0}) -1), max((self.timestep_offset +ts.index), 0))
    self.timestep_offset is Some
return ts.index
    self.timestep_offset is None
## <Array1Parameter<T> as Parameter>::meta
return self.meta
## <Array1Parameter<f64> as SimpleParameter<f64>>::as_parameter
return self
## <Array1Parameter<u64> as SimpleParameter<u64>>::as_parameter
return self
## Array1ParameterBuilder<T>::new
return Array1ParameterBuilder{}
return.array p1
return.meta ParameterMeta{name: p0}
return.timestep_offset none
## Array1ParameterBuilder<T>::timestep_offset
return self
self.timestep_offset := p1
## <Array1ParameterBuilder<f64> as ParameterBuilder<f64>>::name
return self.meta.name
## <Array1ParameterBuilder<f64> as ParameterBuilder<f64>>::build
return Simple{0: new(Array1Parameter{array: self.0.array, meta: self.0.meta, timestep_offset: self.0.timestep_offset})}
## <Array1ParameterBuilder<u64> as ParameterBuilder<u64>>::name
return self.meta.name
## <Array1ParameterBuilder<u64> as ParameterBuilder<u64>>::build
return Simple{0: new(Array1Parameter{array: self.0.array, meta: self.0.meta, timestep_offset: self.0.timestep_offset})}
## Array2Parameter<T>::timestep_index
return min((len_of(self.array, Axis{0: 0}) -1), max((self.timestep_offset +ts.index), 0))
    self.timestep_offset is Some
return ts.index
    self.timestep_offset is None
## <Array2Parameter<T> as Parameter>::meta
return self.meta
## <Array2Parameter<f64> as SimpleParameter<f64>>::as_parameter
return self
## <Array2Parameter<u64> as SimpleParameter<u64>>::as_parameter
return self
## Array2ParameterBuilder<T>::new
return Array2ParameterBuilder{}
return.array p1
return.meta ParameterMeta{name: p0}
return.scenario_group p2
return.timestep_offset none
## Array2ParameterBuilder<T>::timestep_offset
return self
self.timestep_offset := p1
## <Array2ParameterBuilder<f64> as ParameterBuilder<f64>>::name
return self.meta.name
## <Array2ParameterBuilder<f64> as ParameterBuilder<f64>>::build
return Simple{0: new(Array2Parameter{array: self.0.array, meta: self.0.meta, scenario_group_index: group_index(p1.domain.scenario, self.0.scenario_group), timestep_offset: self.0.timestep_offset})}
    group_scenario_subset(p1.domain.scenario, self.0.scenario_group) is None
return Simple{0: new(Array2Parameter{array: stack(Axis{0: 1}, list(slice(self.0.array, new_unchecked((RangeFull, elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group))), next_in_dim(elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group)), next_in_dim(RangeFull, PhantomData)), next_out_dim(elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group)), next_out_dim(RangeFull, PhantomData)))))), meta: self.0.meta, scenario_group_index: group_index(p1.domain.scenario, self.0.scenario_group), timestep_offset: self.0.timestep_offset})}
    group_scenario_subset(p1.domain.scenario, self.0.scenario_group) is Some
## <Array2ParameterBuilder<u64> as ParameterBuilder<u64>>::name
return self.meta.name
## <Array2ParameterBuilder<u64> as ParameterBuilder<u64>>::build
return Simple{0: new(Array2Parameter{array: self.0.array, meta: self.0.meta, scenario_group_index: group_index(p1.domain.scenario, self.0.scenario_group), timestep_offset: self.0.timestep_offset})}
    group_scenario_subset(p1.domain.scenario, self.0.scenario_group) is None
return Simple{0: new(Array2Parameter{array: stack(Axis{0: 1}, list(slice(self.0.array, new_unchecked((RangeFull, elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group))), next_in_dim(elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group)), next_in_dim(RangeFull, PhantomData)), next_out_dim(elem(group_scenario_subset(p1.domain.scenario, self.0.scenario_group)), next_out_dim(RangeFull, PhantomData)))))), meta: self.0.meta, scenario_group_index: group_index(p1.domain.scenario, self.0.scenario_group), timestep_offset: self.0.timestep_offset})}
    group_scenario_subset(p1.domain.scenario, self.0.scenario_group) is Some
## <AsymmetricSwitchIndexParameter as Parameter>::meta
return self.meta
## <AsymmetricSwitchIndexParameter as GeneralParameter>::as_parameter
return self
## AsymmetricSwitchIndexParameterBuilder::before
return AsymmetricSwitchIndexParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.off_parameter p2
return.on_parameter p1
return.phase Before
## <AsymmetricSwitchIndexParameterBuilder as ParameterBuilder<u64>>::name
return self.meta.name
## <AsymmetricSwitchIndexParameterBuilder as ParameterBuilder<u64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(AsymmetricSwitchIndexParameter{meta: self.0.meta, off_parameter: resolve(self.0.off_parameter, p1, self.0.phase), on_parameter: resolve(self.0.on_parameter, p1, self.0.phase)}), parameter: new(AsymmetricSwitchIndexParameter{meta: self.0.meta, off_parameter: resolve(self.0.off_parameter, p1, self.0.phase), on_parameter: resolve(self.0.on_parameter, p1, self.0.phase)})}}
    resolve(self.0.off_parameter, p1, self.0.phase) is Ok; resolve(self.0.on_parameter, p1, self.0.phase) is Ok
return Retry{}
    resolve(self.0.off_parameter, p1, self.0.phase) is Err; resolve(self.0.on_parameter, p1, self.0.phase) is Ok
    resolve(self.0.on_parameter, p1, self.0.phase) is Err
return.builder self
    resolve(self.0.off_parameter, p1, self.0.phase) is Err; resolve(self.0.on_parameter, p1, self.0.phase) is Ok
    resolve(self.0.on_parameter, p1, self.0.phase) is Err
return.parameter_not_found err(resolve(self.0.off_parameter, p1, self.0.phase))~ParameterNotFound.parameter
    resolve(self.0.off_parameter, p1, self.0.phase) is Err; resolve(self.0.on_parameter, p1, self.0.phase) is Ok
return.parameter_not_found err(resolve(self.0.on_parameter, p1, self.0.phase))~ParameterNotFound.parameter
    resolve(self.0.on_parameter, p1, self.0.phase) is Err
## <ConstantParameter as Parameter>::meta
return self.meta
## <ConstantParameter as ConstParameter<f64>>::as_parameter
return self
## <ConstantParameter as VariableParameter<f64>>::meta
return self.meta
## <ConstantParameter as VariableParameter<f64>>::size
return 1
## ConstantParameterBuilder::new
return ConstantParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.value p1
## <ConstantParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <ConstantParameterBuilder as ParameterBuilder<f64>>::build
return Const{0: new(ConstantParameter{meta: self.0.meta, value: self.0.value})}
## <ConstantScenarioParameter as Parameter>::meta
return self.meta
## <ConstantScenarioParameter as ConstParameter<f64>>::as_parameter
return self
## ConstantScenarioParameterBuilder::new
return ConstantScenarioParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.scenario_group p2
return.values p1
## <ConstantScenarioParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <ConstantScenarioParameterBuilder as ParameterBuilder<f64>>::build
[accepts]
    Eq(group_size(p1.domain.scenario, self.0.scenario_group), len(self.0.values))
return Built{0: Const{0: new(ConstantScenarioParameter{meta: self.0.meta, scenario_group_index: group_index(p1.domain.scenario, self.0.scenario_group), values: self.0.values})}}
## <ApportionParameter as Parameter>::meta
return self.meta
## <ApportionParameter as GeneralParameter>::as_parameter
return self
## ApportionParameterBuilder::before
return ApportionParameterBuilder{}
return.control_curve p2
return.meta ParameterMeta{name: p0}
return.metric p1
## <ApportionParameterBuilder as ParameterBuilder<MultiValue>>::name
return self.meta.name
## <ApportionParameterBuilder as ParameterBuilder<MultiValue>>::build
return General{0: GeneralParameterEntry{after: none, before: new(ApportionParameter{control_curve: resolve(self.0.control_curve, p1, Before), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)}), parameter: new(ApportionParameter{control_curve: resolve(self.0.control_curve, p1, Before), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)})}}
    resolve(self.0.control_curve, p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.control_curve, p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.control_curve, p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.control_curve, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.control_curve, p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <ControlCurveIndexParameter as Parameter>::meta
return self.meta
## <ControlCurveIndexParameter as GeneralParameter>::as_parameter
return self
## ControlCurveIndexParameterBuilder::before
return ControlCurveIndexParameterBuilder{}
return.control_curves new()
return.meta ParameterMeta{name: p0}
return.metric p1
## ControlCurveIndexParameterBuilder::control_curve
push(self.control_curves, p1)
return self
## <ControlCurveIndexParameterBuilder as ParameterBuilder<u64>>::name
return self.meta.name
## <ControlCurveIndexParameterBuilder as ParameterBuilder<u64>>::build
leave loop early()
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(ControlCurveIndexParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)}), parameter: new(ControlCurveIndexParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)})}}
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.control_curves), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <ControlCurveInterpolatedParameter as Parameter>::meta
return self.meta
## <ControlCurveInterpolatedParameter as GeneralParameter>::as_parameter
return self
## ControlCurveInterpolatedParameterBuilder::before
return ControlCurveInterpolatedParameterBuilder{}
return.control_curves new()
return.meta ParameterMeta{name: p0}
return.metric p1
return.values new()
## ControlCurveInterpolatedParameterBuilder::control_curve
push(self.control_curves, p1)
return self
## ControlCurveInterpolatedParameterBuilder::value
push(self.values, p1)
return self
## <ControlCurveInterpolatedParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <ControlCurveInterpolatedParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(ControlCurveInterpolatedParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), values: list(resolve(elem(self.0.values), p1, Before))}), parameter: new(ControlCurveInterpolatedParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), values: list(resolve(elem(self.0.values), p1, Before))})}}
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.control_curves), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(elem(self.0.values), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <PiecewiseInterpolatedParameter as Parameter>::meta
return self.meta
## <PiecewiseInterpolatedParameter as GeneralParameter>::as_parameter
return self
## PiecewiseInterpolatedParameterBuilder::before
return PiecewiseInterpolatedParameterBuilder{}
return.control_curves new()
return.maximum p2
return.meta ParameterMeta{name: p0}
return.metric p1
return.minimum p3
return.values new()
## PiecewiseInterpolatedParameterBuilder::control_curve
push(self.control_curves, p1)
return self
## PiecewiseInterpolatedParameterBuilder::value
push(self.values, p1)
return self
## <PiecewiseInterpolatedParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <PiecewiseInterpolatedParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(PiecewiseInterpolatedParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), maximum: self.0.maximum, meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), minimum: self.0.minimum, values: self.0.values}), parameter: new(PiecewiseInterpolatedParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), maximum: self.0.maximum, meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), minimum: self.0.minimum, values: self.0.values})}}
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.control_curves), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <ControlCurveParameter as Parameter>::meta
return self.meta
## <ControlCurveParameter as GeneralParameter>::as_parameter
return self
## ControlCurveParameterBuilder::before
return ControlCurveParameterBuilder{}
return.control_curves new()
return.meta ParameterMeta{name: p0}
return.metric p1
return.values new()
## ControlCurveParameterBuilder::control_curve
push(self.control_curves, p1)
return self
## ControlCurveParameterBuilder::value
push(self.values, p1)
return self
## <ControlCurveParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <ControlCurveParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(ControlCurveParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), values: list(resolve(elem(self.0.values), p1, Before))}), parameter: new(ControlCurveParameter{control_curves: list(resolve(elem(self.0.control_curves), p1, Before)), meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), values: list(resolve(elem(self.0.values), p1, Before))})}}
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.control_curves), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(elem(self.0.values), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.control_curves), p1, Before) is Ok; resolve(elem(self.0.values), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <VolumeBetweenControlCurvesParameter<M> as Parameter>::meta
return self.meta
## <VolumeBetweenControlCurvesParameter<SimpleMetricF64> as SimpleParameter<f64>>::as_parameter
return self
## VolumeBetweenControlCurvesParameterBuilder<M>::new
return VolumeBetweenControlCurvesParameterBuilder{}
return.lower none
return.meta ParameterMeta{name: p0}
return.total p1
return.upper none
## VolumeBetweenControlCurvesParameterBuilder<M>::lower
return self
self.lower := p1
## VolumeBetweenControlCurvesParameterBuilder<M>::upper
return self
self.upper := p1
## <VolumeBetweenControlCurvesParameterBuilder<UnresolvedMetricF64> as ParameterBuilder<f64>>::name
return self.meta.name
## <VolumeBetweenControlCurvesParameterBuilder<UnresolvedMetricF64> as ParameterBuilder<f64>>::build
return Retry{}
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Ok; self.0.lower is Some; self.0.upper is Some
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; self.0.lower is Some; self.0.upper is None
    resolve(self.0.total, p1, Before) is Err
    resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Err; self.0.upper is Some
return Simple{0: new(VolumeBetweenControlCurvesParameter{lower: none, meta: self.0.meta, total: try_into(resolve(self.0.total, p1, Before)), upper: none})}
    resolve(self.0.total, p1, Before) is Ok; self.0.lower is None; self.0.upper is None
return Simple{0: new(VolumeBetweenControlCurvesParameter{lower: none, meta: self.0.meta, total: try_into(resolve(self.0.total, p1, Before)), upper: try_into(resolve(self.0.upper, p1, Before))})}
    resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Ok; self.0.lower is None; self.0.upper is Some
return Simple{0: new(VolumeBetweenControlCurvesParameter{lower: try_into(resolve(self.0.lower, p1, Before)), meta: self.0.meta, total: try_into(resolve(self.0.total, p1, Before)), upper: none})}
    resolve(self.0.lower, p1, Before) is Ok; resolve(self.0.total, p1, Before) is Ok; self.0.lower is Some; self.0.upper is None
return Simple{0: new(VolumeBetweenControlCurvesParameter{lower: try_into(resolve(self.0.lower, p1, Before)), meta: self.0.meta, total: try_into(resolve(self.0.total, p1, Before)), upper: try_into(resolve(self.0.upper, p1, Before))})}
    resolve(self.0.lower, p1, Before) is Ok; resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Ok; self.0.lower is Some; self.0.upper is Some
return.builder self
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Ok; self.0.lower is Some; self.0.upper is Some
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; self.0.lower is Some; self.0.upper is None
    resolve(self.0.total, p1, Before) is Err
    resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Err; self.0.upper is Some
return.parameter_not_found err(resolve(self.0.lower, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Ok; self.0.lower is Some; self.0.upper is Some
    resolve(self.0.lower, p1, Before) is Err; resolve(self.0.total, p1, Before) is Ok; self.0.lower is Some; self.0.upper is None
return.parameter_not_found err(resolve(self.0.total, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.total, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.upper, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.total, p1, Before) is Ok; resolve(self.0.upper, p1, Before) is Err; self.0.upper is Some
## <DeficitParameter as Parameter>::meta
return self.meta
## <DeficitParameter as GeneralParameter>::as_parameter
return self
## DeficitParameterBuilder::new
return DeficitParameterBuilder{}
return.flow p1
return.max_flow p2
return.meta ParameterMeta{name: p0}
## <DeficitParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DeficitParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: Value{0: new(DeficitParameter{flow: resolve(self.0.flow, p1, After), max_flow: resolve(self.0.max_flow, p1, After), meta: self.0.meta})}, before: none, parameter: new(DeficitParameter{flow: resolve(self.0.flow, p1, After), max_flow: resolve(self.0.max_flow, p1, After), meta: self.0.meta})}}
    resolve(self.0.flow, p1, After) is Ok; resolve(self.0.max_flow, p1, After) is Ok
return Retry{}
    resolve(self.0.flow, p1, After) is Err
    resolve(self.0.flow, p1, After) is Ok; resolve(self.0.max_flow, p1, After) is Err
return.builder self
    resolve(self.0.flow, p1, After) is Err
    resolve(self.0.flow, p1, After) is Ok; resolve(self.0.max_flow, p1, After) is Err
return.parameter_not_found err(resolve(self.0.flow, p1, After))~ParameterNotFound.parameter
    resolve(self.0.flow, p1, After) is Err
return.parameter_not_found err(resolve(self.0.max_flow, p1, After))~ParameterNotFound.parameter
    resolve(self.0.flow, p1, After) is Ok; resolve(self.0.max_flow, p1, After) is Err
## <&DelayParameter<MetricF64, T> as TryInto<DelayParameter<SimpleMetricF64, T>>>::try_into
return DelayParameter{}
return.delay self.delay
return.initial_value self.initial_value
return.meta self.meta
return.metric try_into(self.metric)
## <&DelayParameter<MetricU64, T> as TryInto<DelayParameter<SimpleMetricU64, T>>>::try_into
return DelayParameter{}
return.delay self.delay
return.initial_value self.initial_value
return.meta self.meta
return.metric try_into(self.metric)
## <DelayParameter<M, T> as Parameter>::meta
return self.meta
## <DelayParameter<MetricF64, f64> as GeneralParameter>::as_parameter
return self
## <DelayParameter<SimpleMetricF64, f64> as SimpleParameter<f64>>::as_parameter
return self
## <DelayParameter<MetricU64, u64> as GeneralParameter>::as_parameter
return self
## <DelayParameter<SimpleMetricU64, u64> as SimpleParameter<u64>>::as_parameter
return self
## DelayParameterBuilder<M, T>::new
return DelayParameterBuilder{}
return.delay p2
return.initial_value p3
return.meta ParameterMeta{name: p0}
return.metric p1
## <DelayParameterBuilder<UnresolvedMetricF64, f64> as ParameterBuilder<f64>>::name
return self.meta.name
## <DelayParameterBuilder<UnresolvedMetricF64, f64> as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: Hook{0: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)})}, before: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)}), parameter: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)})}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Err
return Retry{}
    resolve(self.0.metric, p1, After) is Err
return Simple{0: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: try_into(resolve(self.0.metric, p1, After))})}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Ok
return.builder self
    resolve(self.0.metric, p1, After) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, After))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, After) is Err
## <DelayParameterBuilder<UnresolvedMetricU64, u64> as ParameterBuilder<u64>>::name
return self.meta.name
## <DelayParameterBuilder<UnresolvedMetricU64, u64> as ParameterBuilder<u64>>::build
return General{0: GeneralParameterEntry{after: Hook{0: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)})}, before: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)}), parameter: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After)})}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Err
return Retry{}
    resolve(self.0.metric, p1, After) is Err
return Simple{0: new(DelayParameter{delay: self.0.delay, initial_value: self.0.initial_value, meta: self.0.meta, metric: try_into(resolve(self.0.metric, p1, After))})}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Ok
return.builder self
    resolve(self.0.metric, p1, After) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, After))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, After) is Err
## <DifferenceParameter<M> as Parameter>::meta
return self.meta
## <DifferenceParameter<MetricF64> as GeneralParameter>::as_parameter
return self
## <DifferenceParameter<SimpleMetricF64> as SimpleParameter<f64>>::as_parameter
return self
## difference::difference
return (p0 -p1)
    !Lt(p0, p1 +p2); !Lt(p1 +p3, p0); p2 is Some; p3 is Some
    !Lt(p0, p1 +p2); p2 is Some; p3 is None
    !Lt(p1 +p3, p0); p2 is None; p3 is Some
    p2 is None; p3 is None
return p2
    Lt(p0, p1 +p2); p2 is Some
return p3
    !Lt(p0, p1 +p2); Lt(p1 +p3, p0); p2 is Some; p3 is Some
    Lt(p1 +p3, p0); p2 is None; p3 is Some
## DifferenceParameterBuilder::new
return DifferenceParameterBuilder{}
return.a p1
return.b p2
return.max none
return.meta ParameterMeta{name: p0}
return.min none
## DifferenceParameterBuilder::min
return self
self.min := p1
## DifferenceParameterBuilder::max
return self
self.max := p1
## <DifferenceParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DifferenceParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: none, meta: self.0.meta, min: none}), parameter: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: none, meta: self.0.meta, min: none})}}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; self.0.max is None; self.0.min is None; try_into(resolve(self.0.a, p1, Before)) is Err; try_into(resolve(self.0.b, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; self.0.max is None; self.0.min is None; try_into(resolve(self.0.b, p1, Before)) is Err
return General{0: GeneralParameterEntry{after: none, before: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: none, meta: self.0.meta, min: resolve(self.0.min, p1, Before)}), parameter: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: none, meta: self.0.meta, min: resolve(self.0.min, p1, Before)})}}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is None; self.0.min is Some; try_into(resolve(self.0.a, p1, Before)) is Err; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.min, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is None; self.0.min is Some; try_into(resolve(self.0.b, p1, Before)) is Err; try_into(resolve(self.0.min, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is None; self.0.min is Some; try_into(resolve(self.0.min, p1, Before)) is Err
return General{0: GeneralParameterEntry{after: none, before: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: resolve(self.0.max, p1, Before), meta: self.0.meta, min: none}), parameter: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: resolve(self.0.max, p1, Before), meta: self.0.meta, min: none})}}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; self.0.max is Some; self.0.min is None; try_into(resolve(self.0.a, p1, Before)) is Err; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.max, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; self.0.max is Some; self.0.min is None; try_into(resolve(self.0.b, p1, Before)) is Err; try_into(resolve(self.0.max, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; self.0.max is Some; self.0.min is None; try_into(resolve(self.0.max, p1, Before)) is Err
return General{0: GeneralParameterEntry{after: none, before: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: resolve(self.0.max, p1, Before), meta: self.0.meta, min: resolve(self.0.min, p1, Before)}), parameter: new(DifferenceParameter{a: resolve(self.0.a, p1, Before), b: resolve(self.0.b, p1, Before), max: resolve(self.0.max, p1, Before), meta: self.0.meta, min: resolve(self.0.min, p1, Before)})}}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some; try_into(resolve(self.0.a, p1, Before)) is Err; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.max, p1, Before)) is Ok; try_into(resolve(self.0.min, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some; try_into(resolve(self.0.b, p1, Before)) is Err; try_into(resolve(self.0.max, p1, Before)) is Ok; try_into(resolve(self.0.min, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some; try_into(resolve(self.0.max, p1, Before)) is Err; try_into(resolve(self.0.min, p1, Before)) is Ok
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some; try_into(resolve(self.0.min, p1, Before)) is Err
return Retry{}
    resolve(self.0.a, p1, Before) is Err
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Err
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; self.0.max is Some; self.0.min is None
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Err; self.0.min is Some
return Simple{0: new(DifferenceParameter{a: try_into(resolve(self.0.a, p1, Before)), b: try_into(resolve(self.0.b, p1, Before)), max: none, meta: self.0.meta, min: none})}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; self.0.max is None; self.0.min is None; try_into(resolve(self.0.a, p1, Before)) is Ok; try_into(resolve(self.0.b, p1, Before)) is Ok
return Simple{0: new(DifferenceParameter{a: try_into(resolve(self.0.a, p1, Before)), b: try_into(resolve(self.0.b, p1, Before)), max: none, meta: self.0.meta, min: try_into(resolve(self.0.min, p1, Before))})}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is None; self.0.min is Some; try_into(resolve(self.0.a, p1, Before)) is Ok; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.min, p1, Before)) is Ok
return Simple{0: new(DifferenceParameter{a: try_into(resolve(self.0.a, p1, Before)), b: try_into(resolve(self.0.b, p1, Before)), max: try_into(resolve(self.0.max, p1, Before)), meta: self.0.meta, min: none})}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; self.0.max is Some; self.0.min is None; try_into(resolve(self.0.a, p1, Before)) is Ok; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.max, p1, Before)) is Ok
return Simple{0: new(DifferenceParameter{a: try_into(resolve(self.0.a, p1, Before)), b: try_into(resolve(self.0.b, p1, Before)), max: try_into(resolve(self.0.max, p1, Before)), meta: self.0.meta, min: try_into(resolve(self.0.min, p1, Before))})}
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some; try_into(resolve(self.0.a, p1, Before)) is Ok; try_into(resolve(self.0.b, p1, Before)) is Ok; try_into(resolve(self.0.max, p1, Before)) is Ok; try_into(resolve(self.0.min, p1, Before)) is Ok
return.builder self
    resolve(self.0.a, p1, Before) is Err
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Err
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; self.0.max is Some; self.0.min is None
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Err; self.0.min is Some
return.parameter_not_found err(resolve(self.0.a, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.a, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.b, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.max, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; resolve(self.0.min, p1, Before) is Ok; self.0.max is Some; self.0.min is Some
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.max, p1, Before) is Err; self.0.max is Some; self.0.min is None
return.parameter_not_found err(resolve(self.0.min, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.a, p1, Before) is Ok; resolve(self.0.b, p1, Before) is Ok; resolve(self.0.min, p1, Before) is Err; self.0.min is Some
## <DiscountFactorParameter as Parameter>::meta
return self.meta
## <DiscountFactorParameter as GeneralParameter>::as_parameter
return self
## DiscountFactorParameterBuilder::new
return DiscountFactorParameterBuilder{}
return.base_year p2
return.discount_rate p1
return.meta ParameterMeta{name: p0}
## <DiscountFactorParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DiscountFactorParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(DiscountFactorParameter{base_year: self.0.base_year, discount_rate: resolve(self.0.discount_rate, p1, Before), meta: self.0.meta}), parameter: new(DiscountFactorParameter{base_year: self.0.base_year, discount_rate: resolve(self.0.discount_rate, p1, Before), meta: self.0.meta})}}
    resolve(self.0.discount_rate, p1, Before) is Ok
return Retry{}
    resolve(self.0.discount_rate, p1, Before) is Err
return.builder self
    resolve(self.0.discount_rate, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.discount_rate, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.discount_rate, p1, Before) is Err
## <DivisionParameter as Parameter>::meta
return self.meta
## <DivisionParameter as GeneralParameter>::as_parameter
return self
## DivisionParameterBuilder::before
return DivisionParameterBuilder{}
return.denominator p2
return.meta ParameterMeta{name: p0}
return.numerator p1
return.phase Before
## DivisionParameterBuilder::after
return DivisionParameterBuilder{}
return.denominator p2
return.meta ParameterMeta{name: p0}
return.numerator p1
return.phase After
## DivisionParameterBuilder::both
return DivisionParameterBuilder{}
return.denominator p2
return.meta ParameterMeta{name: p0}
return.numerator p1
return.phase Both
## <DivisionParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DivisionParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: Value{0: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)})}, before: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)}), parameter: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)})}}
    resolve(self.0.denominator, p1, self.0.phase) is Ok; resolve(self.0.numerator, p1, self.0.phase) is Ok; self.0.phase is Both
return General{0: GeneralParameterEntry{after: Value{0: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)})}, before: none, parameter: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)})}}
    resolve(self.0.denominator, p1, self.0.phase) is Ok; resolve(self.0.numerator, p1, self.0.phase) is Ok; self.0.phase is After
return General{0: GeneralParameterEntry{after: none, before: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)}), parameter: new(DivisionParameter{denominator: resolve(self.0.denominator, p1, self.0.phase), meta: self.0.meta, numerator: resolve(self.0.numerator, p1, self.0.phase)})}}
    resolve(self.0.denominator, p1, self.0.phase) is Ok; resolve(self.0.numerator, p1, self.0.phase) is Ok; self.0.phase is Before
return Retry{}
    resolve(self.0.denominator, p1, self.0.phase) is Err; resolve(self.0.numerator, p1, self.0.phase) is Ok
    resolve(self.0.numerator, p1, self.0.phase) is Err
return.builder self
    resolve(self.0.denominator, p1, self.0.phase) is Err; resolve(self.0.numerator, p1, self.0.phase) is Ok
    resolve(self.0.numerator, p1, self.0.phase) is Err
return.parameter_not_found err(resolve(self.0.denominator, p1, self.0.phase))~ParameterNotFound.parameter
    resolve(self.0.denominator, p1, self.0.phase) is Err; resolve(self.0.numerator, p1, self.0.phase) is Ok
return.parameter_not_found err(resolve(self.0.numerator, p1, self.0.phase))~ParameterNotFound.parameter
    resolve(self.0.numerator, p1, self.0.phase) is Err
## HydropowerTargetParameter::head
return max((get_value(self.water_elevation, net, state) -self.turbine_elevation), 0)
    self.water_elevation is Some
return max(0, self.turbine_elevation)
    self.water_elevation is None
## <HydropowerTargetParameter as Parameter>::meta
return self.meta
## <HydropowerTargetParameter as GeneralParameter>::as_parameter
return self
## HydropowerTargetParameterBuilder::new
return HydropowerTargetParameterBuilder{}
return.actual_flow p1.actual_flow
return.energy_unit_conversion 1e-06
    p1.energy_unit_conversion is None
return.energy_unit_conversion p1.energy_unit_conversion
    p1.energy_unit_conversion is Some
return.flow_unit_conversion 1
    p1.flow_unit_conversion is None
return.flow_unit_conversion p1.flow_unit_conversion
    p1.flow_unit_conversion is Some
return.max_flow p1.max_flow
return.meta ParameterMeta{name: p0}
return.min_flow p1.min_flow
return.target p1.target
return.turbine_efficiency 1
    p1.efficiency is None
return.turbine_efficiency p1.efficiency
    p1.efficiency is Some
return.turbine_elevation 0
    p1.elevation is None
return.turbine_elevation p1.elevation
    p1.elevation is Some
return.turbine_min_head 0
    p1.min_head is None
return.turbine_min_head p1.min_head
    p1.min_head is Some
return.water_density 1000
    p1.water_density is None
return.water_density p1.water_density
    p1.water_density is Some
return.water_elevation p1.water_elevation
## <HydropowerTargetParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <HydropowerTargetParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: none, parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    self.0.actual_flow is None; self.0.target is None; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: none, parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.target is None; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: none, parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.actual_flow, p1, After) is Ok; self.0.actual_flow is Some; self.0.target is None; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: none, parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: none, turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.target is None; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: Value{0: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}, before: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: resolve(self.0.actual_flow, p1, After), energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: none, meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: none, target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is None; self.0.target is Some; self.0.water_elevation is Some
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: none})}}
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
return General{0: GeneralParameterEntry{after: none, before: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)}), parameter: new(HydropowerTargetParameter{actual_flow: none, energy_unit_conversion: self.0.energy_unit_conversion, flow_unit_conversion: self.0.flow_unit_conversion, max_flow: resolve(self.0.max_flow, p1, Before), meta: self.0.meta, min_flow: resolve(self.0.min_flow, p1, Before), target: resolve(self.0.target, p1, Before), turbine_efficiency: self.0.turbine_efficiency, turbine_elevation: self.0.turbine_elevation, turbine_min_head: self.0.turbine_min_head, water_density: self.0.water_density, water_elevation: resolve(self.0.water_elevation, p1, Both)})}}
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
return Retry{}
    resolve(self.0.actual_flow, p1, After) is Err; self.0.actual_flow is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is Some; self.0.target is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is None; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is None; self.0.target is Some
    resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is None; self.0.water_elevation is Some
return.builder self
    resolve(self.0.actual_flow, p1, After) is Err; self.0.actual_flow is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is Some; self.0.target is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is None; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is None; self.0.target is Some
    resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is None; self.0.water_elevation is Some
return.parameter_not_found err(resolve(self.0.actual_flow, p1, After))~ParameterNotFound.parameter
    resolve(self.0.actual_flow, p1, After) is Err; self.0.actual_flow is Some
return.parameter_not_found err(resolve(self.0.max_flow, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.target is Some; self.0.water_elevation is None
return.parameter_not_found err(resolve(self.0.min_flow, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is Some; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.max_flow, p1, Before) is Ok; resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is Some; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.min_flow, p1, Before) is Err; resolve(self.0.target, p1, Before) is Ok; self.0.actual_flow is None; self.0.max_flow is None; self.0.min_flow is Some; self.0.target is Some; self.0.water_elevation is None
return.parameter_not_found err(resolve(self.0.target, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is Some; self.0.target is Some
    resolve(self.0.target, p1, Before) is Err; self.0.actual_flow is None; self.0.target is Some
return.parameter_not_found err(resolve(self.0.water_elevation, p1, Both))~ParameterNotFound.parameter
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.actual_flow, p1, After) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is Some; self.0.target is None; self.0.water_elevation is Some
    resolve(self.0.target, p1, Before) is Ok; resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is Some; self.0.water_elevation is Some
    resolve(self.0.water_elevation, p1, Both) is Err; self.0.actual_flow is None; self.0.target is None; self.0.water_elevation is Some
## <IndexedArrayParameter as Parameter>::meta
return self.meta
## <IndexedArrayParameter as GeneralParameter>::as_parameter
return self
## IndexedArrayParameterBuilder::new
return IndexedArrayParameterBuilder{}
return.index_parameter p1
return.meta ParameterMeta{name: p0}
return.metrics new()
## IndexedArrayParameterBuilder::metric
push(self.metrics, p1)
return self
## <IndexedArrayParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <IndexedArrayParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.metrics), p1, Before) is Err; resolve(self.0.index_parameter, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(IndexedArrayParameter{index_parameter: resolve(self.0.index_parameter, p1, Before), meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, Before))}), parameter: new(IndexedArrayParameter{index_parameter: resolve(self.0.index_parameter, p1, Before), meta: self.0.meta, metrics: list(resolve(elem(self.0.metrics), p1, Before))})}}
    resolve(elem(self.0.metrics), p1, Before) is Ok; resolve(self.0.index_parameter, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.metrics), p1, Before) is Err; resolve(self.0.index_parameter, p1, Before) is Ok
    resolve(self.0.index_parameter, p1, Before) is Err
return.builder self
    resolve(elem(self.0.metrics), p1, Before) is Err; resolve(self.0.index_parameter, p1, Before) is Ok
    resolve(self.0.index_parameter, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.metrics), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.metrics), p1, Before) is Err; resolve(self.0.index_parameter, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.index_parameter, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.index_parameter, p1, Before) is Err
## <InterpolatedParameter as Parameter>::meta
return self.meta
## <InterpolatedParameter as GeneralParameter>::as_parameter
return self
## InterpolatedParameterBuilder::new
return InterpolatedParameterBuilder{}
return.error_on_bounds true
return.meta ParameterMeta{name: p0}
return.points p2
return.x p1
## InterpolatedParameterBuilder::error_on_bounds
return self
self.error_on_bounds := p1
## <InterpolatedParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <InterpolatedParameterBuilder as ParameterBuilder<f64>>::build
leave loop early()
    resolve(elem(self.0.points).0, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
    resolve(elem(self.0.points).0, p1, Before) is Ok; resolve(elem(self.0.points).1, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(InterpolatedParameter{error_on_bounds: self.0.error_on_bounds, meta: self.0.meta, points: list((resolve(elem(self.0.points).0, p1, Before), resolve(elem(self.0.points).1, p1, Before))), x: resolve(self.0.x, p1, Before)}), parameter: new(InterpolatedParameter{error_on_bounds: self.0.error_on_bounds, meta: self.0.meta, points: list((resolve(elem(self.0.points).0, p1, Before), resolve(elem(self.0.points).1, p1, Before))), x: resolve(self.0.x, p1, Before)})}}
    resolve(elem(self.0.points).0, p1, Before) is Ok; resolve(elem(self.0.points).1, p1, Before) is Ok; resolve(self.0.x, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.points).0, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
    resolve(elem(self.0.points).0, p1, Before) is Ok; resolve(elem(self.0.points).1, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
    resolve(self.0.x, p1, Before) is Err
return.builder self
    resolve(elem(self.0.points).0, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
    resolve(elem(self.0.points).0, p1, Before) is Ok; resolve(elem(self.0.points).1, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
    resolve(self.0.x, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.points).0, p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.points).0, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
return.parameter_not_found err(resolve(elem(self.0.points).1, p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.points).0, p1, Before) is Ok; resolve(elem(self.0.points).1, p1, Before) is Err; resolve(self.0.x, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.x, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.x, p1, Before) is Err
## <MaxParameter as Parameter>::meta
return self.meta
## <MaxParameter as GeneralParameter>::as_parameter
return self
## MaxParameterBuilder::new
return MaxParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.threshold p2
## <MaxParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <MaxParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(MaxParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold}), parameter: new(MaxParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <MinParameter as Parameter>::meta
return self.meta
## <MinParameter as GeneralParameter>::as_parameter
return self
## MinParameterBuilder::new
return MinParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.threshold p2
## <MinParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <MinParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(MinParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold}), parameter: new(MinParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <MultiThresholdParameter as Parameter>::meta
return self.meta
## <MultiThresholdParameter as GeneralParameter>::as_parameter
return self
## MultiThresholdParameterBuilder::new
return MultiThresholdParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.predicate p2
return.ratchet false
return.thresholds new()
## MultiThresholdParameterBuilder::ratchet
return self
self.ratchet := true
## MultiThresholdParameterBuilder::threshold
push(self.thresholds, p1)
return self
## <MultiThresholdParameterBuilder as ParameterBuilder<u64>>::name
return self.meta.name
## <MultiThresholdParameterBuilder as ParameterBuilder<u64>>::build
leave loop early()
    resolve(elem(self.0.thresholds), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return General{0: GeneralParameterEntry{after: none, before: new(MultiThresholdParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), predicate: self.0.predicate, ratchet: self.0.ratchet, thresholds: list(resolve(elem(self.0.thresholds), p1, Before))}), parameter: new(MultiThresholdParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), predicate: self.0.predicate, ratchet: self.0.ratchet, thresholds: list(resolve(elem(self.0.thresholds), p1, Before))})}}
    resolve(elem(self.0.thresholds), p1, Before) is Ok; resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(elem(self.0.thresholds), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(elem(self.0.thresholds), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(elem(self.0.thresholds), p1, Before))~ParameterNotFound.parameter
    resolve(elem(self.0.thresholds), p1, Before) is Err; resolve(self.0.metric, p1, Before) is Ok
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <MuskingumParameter as Parameter>::meta
return self.meta
## <MuskingumParameter as GeneralParameter>::as_parameter
return self
## MuskingumParameterBuilder::new
return MuskingumParameterBuilder{}
return.inflow p1
return.initial_condition p5
return.meta ParameterMeta{name: p0}
return.outflow p2
return.travel_time p3
return.weight p4
## <MuskingumParameterBuilder as ParameterBuilder<MultiValue>>::name
return self.meta.name
## <MuskingumParameterBuilder as ParameterBuilder<MultiValue>>::build
return General{0: GeneralParameterEntry{after: none, before: new(MuskingumParameter{inflow: resolve(self.0.inflow, p1, Before), initial_condition: self.0.initial_condition, meta: self.0.meta, outflow: resolve(self.0.outflow, p1, Before), travel_time: resolve(self.0.travel_time, p1, Before), weight: resolve(self.0.weight, p1, Before)}), parameter: new(MuskingumParameter{inflow: resolve(self.0.inflow, p1, Before), initial_condition: self.0.initial_condition, meta: self.0.meta, outflow: resolve(self.0.outflow, p1, Before), travel_time: resolve(self.0.travel_time, p1, Before), weight: resolve(self.0.weight, p1, Before)})}}
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Ok; resolve(self.0.weight, p1, Before) is Ok
return Retry{}
    resolve(self.0.inflow, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Ok; resolve(self.0.weight, p1, Before) is Err
return.builder self
    resolve(self.0.inflow, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Err
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Ok; resolve(self.0.weight, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.inflow, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.inflow, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.outflow, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.travel_time, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.weight, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.inflow, p1, Before) is Ok; resolve(self.0.outflow, p1, Before) is Ok; resolve(self.0.travel_time, p1, Before) is Ok; resolve(self.0.weight, p1, Before) is Err
## <NegativeParameter as Parameter>::meta
return self.meta
## <NegativeParameter as GeneralParameter>::as_parameter
return self
## NegativeParameterBuilder::new
return NegativeParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
## <NegativeParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <NegativeParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(NegativeParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)}), parameter: new(NegativeParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before)})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <NegativeMaxParameter as Parameter>::meta
return self.meta
## <NegativeMaxParameter as GeneralParameter>::as_parameter
return self
## NegativeMaxParameterBuilder::new
return NegativeMaxParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.threshold p2
## <NegativeMaxParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <NegativeMaxParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(NegativeMaxParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold}), parameter: new(NegativeMaxParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <NegativeMinParameter as Parameter>::meta
return self.meta
## <NegativeMinParameter as GeneralParameter>::as_parameter
return self
## NegativeMinParameterBuilder::new
return NegativeMinParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.threshold p2
## <NegativeMinParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <NegativeMinParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(NegativeMinParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold}), parameter: new(NegativeMinParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), threshold: self.0.threshold})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <OffsetParameter as Parameter>::meta
return self.meta
## <OffsetParameter as GeneralParameter>::as_parameter
return self
## <OffsetParameter as VariableParameter<f64>>::meta
return self.meta
## <OffsetParameter as VariableParameter<f64>>::size
return 1
## OffsetParameterBuilder::new
return OffsetParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.offset p2
## <OffsetParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <OffsetParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(OffsetParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), offset: self.0.offset}), parameter: new(OffsetParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), offset: self.0.offset})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <Polynomial1DParameter as Parameter>::meta
return self.meta
## <Polynomial1DParameter as GeneralParameter>::as_parameter
return self
## Polynomial1DParameterBuilder::new
return Polynomial1DParameterBuilder{}
return.coefficients p2
return.meta ParameterMeta{name: p0}
return.metric p1
return.offset 0
return.scale 1
## Polynomial1DParameterBuilder::scale
return self
self.scale := p1
## Polynomial1DParameterBuilder::offset
return self
self.offset := p1
## <Polynomial1DParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <Polynomial1DParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(Polynomial1DParameter{coefficients: self.0.coefficients, meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), offset: self.0.offset, scale: self.0.scale}), parameter: new(Polynomial1DParameter{coefficients: self.0.coefficients, meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), offset: self.0.offset, scale: self.0.scale})}}
    resolve(self.0.metric, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
## <DailyProfileParameter as Parameter>::meta
return self.meta
## <DailyProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## DailyProfileParameterBuilder::new
return DailyProfileParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.values p1
## <DailyProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DailyProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(DailyProfileParameter{meta: self.0.meta, values: self.0.values})}
## <DiurnalProfileParameter as Parameter>::meta
return self.meta
## <DiurnalProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## DiurnalProfileParameterBuilder::new
return DiurnalProfileParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.values p1
## <DiurnalProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <DiurnalProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(DiurnalProfileParameter{meta: self.0.meta, values: self.0.values})}
## <MonthlyProfileParameter as Parameter>::meta
return self.meta
## <MonthlyProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## MonthlyProfileParameterBuilder::new
return MonthlyProfileParameterBuilder{}
return.interp_day none
return.meta ParameterMeta{name: p0}
return.values p1
## MonthlyProfileParameterBuilder::interp_day
return self
self.interp_day := p1
## <MonthlyProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <MonthlyProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(MonthlyProfileParameter{interp_day: self.0.interp_day, meta: self.0.meta, values: self.0.values})}
## RbfProfileInternalState::update_profile
self.profile := interpolate_rbf_profile(list((elem(p1).0, elem(self.points_y))), p2)
    self.points_x is None; self.points_y is Some
self.profile := interpolate_rbf_profile(list((elem(self.points_x), elem(p1).1)), p2)
    self.points_x is Some; self.points_y is None
self.profile := interpolate_rbf_profile(list((elem(self.points_x), elem(self.points_y))), p2)
    self.points_x is Some; self.points_y is Some
self.profile := interpolate_rbf_profile(p1, p2)
    self.points_x is None; self.points_y is None
## <RbfProfileParameter as Parameter>::meta
return self.meta
## <RbfProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## <RbfProfileParameter as VariableParameter<f64>>::meta
return self.meta
## <RbfProfileParameter as VariableParameter<f64>>::size
return len(self.points)
## <RbfProfileParameter as VariableParameter<u32>>::meta
return self.meta
## <RbfProfileParameter as VariableParameter<u32>>::size
return 0
    downcast_ref(p1).days_of_year_range is None
return len(self.points)
    downcast_ref(p1).days_of_year_range is Some
## RadialBasisFunction::compute
return exp(-powi(p1*self~Gaussian.epsilon, 2))
    self is Gaussian
return ln(p1)*powi(p1, 2)
    self is ThinPlateSpline
return p1
    self is Linear
return powf((powi(p1*self~InverseMultiQuadric.epsilon, 2) +1), -0.5)
    self is InverseMultiQuadric
return powi(p1, 3)
    self is Cubic
return powi(p1, 5)
    self is Quintic
return sqrt((powi(p1*self~MultiQuadric.epsilon, 2) +1))
    self is MultiQuadric
## rbf::interpolate_rbf_profile
return try_into(concat((split_at(default(), 58).0, (split_at(default(), 58).1[0]), split_at(default(), 58).1)))
## RbfProfileParameterBuilder::new
return RbfProfileParameterBuilder{}
return.function p2
return.meta ParameterMeta{name: p0}
return.points p1
## <RbfProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <RbfProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(RbfProfileParameter{function: self.0.function, meta: self.0.meta, points: self.0.points})}
## uniform_drawdown::is_leap_year
return false
    !Eq(0, Rem(p0, 4))
    !Eq(0, Rem(p0, 400)); Eq(0, Rem(p0, 100)); Eq(0, Rem(p0, 4))
return true
    !Eq(0, Rem(p0, 100)); Eq(0, Rem(p0, 4))
    Eq(0, Rem(p0, 100)); Eq(0, Rem(p0, 4)); Eq(0, Rem(p0, 400))
## <UniformDrawdownProfileParameter as Parameter>::meta
return self.meta
## <UniformDrawdownProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## UniformDrawdownProfileParameterBuilder::new
return UniformDrawdownProfileParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.reset_day p1
return.reset_month p2
return.residual_days 0
## UniformDrawdownProfileParameterBuilder::residual_days
return self
self.residual_days := p1
## <UniformDrawdownProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <UniformDrawdownProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(UniformDrawdownProfileParameter{meta: self.0.meta, reset_doy: day_of_year(new(2016, self.0.reset_month, self.0.reset_day)), residual_days: self.0.residual_days})}
## WeeklyProfileValues::current_week_index
return 0.142857142857*day_of_year_index(ts)
    !p2
return 0.142857142857*fractional_day_of_year(ts)
    p2
## WeeklyProfileValues::current_index
return min(51, current_week_index(self, ts, false))
    self is FiftyTwo
return min(52, current_week_index(self, ts, false))
    self is FiftyThree
## WeeklyProfileValues::current
return self~FiftyThree.0[current_index(self, ts)]
    self is FiftyThree
return self~FiftyTwo.0[current_index(self, ts)]
    self is FiftyTwo
## WeeklyProfileValues::interpolate
return (-current_week_index(self, ts, true)*p2 +current_week_index(self, ts, true)*p3 +floor(current_week_index(self, ts, true))*p2 -floor(current_week_index(self, ts, true))*p3 +p2)
## WeeklyProfileValues::value
return current(self, ts)
    p2 is None
return interpolate(self, ts, current(self, ts), self~FiftyThree.0[(current_index(self, ts) +1)])
    Lt(current_index(self, ts), 52); p2 is Some; p2? is First; self is FiftyThree
return interpolate(self, ts, current(self, ts), self~FiftyThree.0[0])
    !Lt(current_index(self, ts), 52); p2 is Some; p2? is First; self is FiftyThree
return interpolate(self, ts, current(self, ts), self~FiftyTwo.0[(current_index(self, ts) +1)])
    Lt(current_index(self, ts), 51); p2 is Some; p2? is First; self is FiftyTwo
return interpolate(self, ts, current(self, ts), self~FiftyTwo.0[0])
    !Lt(current_index(self, ts), 51); p2 is Some; p2? is First; self is FiftyTwo
return interpolate(self, ts, self~FiftyThree.0[(current_index(self, ts) -1)], current(self, ts))
    !Lt(current_index(self, ts), 1); p2 is Some; p2? is Last; self is FiftyThree
return interpolate(self, ts, self~FiftyThree.0[52], current(self, ts))
    Lt(current_index(self, ts), 1); p2 is Some; p2? is Last; self is FiftyThree
return interpolate(self, ts, self~FiftyTwo.0[(current_index(self, ts) -1)], current(self, ts))
    !Lt(current_index(self, ts), 1); p2 is Some; p2? is Last; self is FiftyTwo
return interpolate(self, ts, self~FiftyTwo.0[51], current(self, ts))
    Lt(current_index(self, ts), 1); p2 is Some; p2? is Last; self is FiftyTwo
## <WeeklyProfileValues as TryFrom<&[f64]>>::try_from
[accepts]
    Eq(52, len(p0))
    Eq(53, len(p0))
[success]
    Eq(52, len(p0))
    Eq(53, len(p0))
return FiftyThree{0: try_into(p0)}
    Eq(53, len(p0))
return FiftyTwo{0: try_into(p0)}
    Eq(52, len(p0))
## <WeeklyProfileParameter as Parameter>::meta
return self.meta
## <WeeklyProfileParameter as SimpleParameter<f64>>::as_parameter
return self
## WeeklyProfileParameterBuilder::new
return WeeklyProfileParameterBuilder{}
return.interp_day none
return.meta ParameterMeta{name: p0}
return.values p1
## WeeklyProfileParameterBuilder::interp_day
return self
self.interp_day := p1
## <WeeklyProfileParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <WeeklyProfileParameterBuilder as ParameterBuilder<f64>>::build
return Simple{0: new(WeeklyProfileParameter{interp_day: self.0.interp_day, meta: self.0.meta, values: self.0.values})}
## <&RollingParameter<MetricF64, f64, AggFuncF64> as TryInto<RollingParameter<SimpleMetricF64, f64, AggFuncF64>>>::try_into
return RollingParameter{}
return.agg_func self.agg_func
return.initial_value self.initial_value
return.meta self.meta
return.metric try_into(self.metric)
return.min_values self.min_values
return.window_size self.window_size
## <&RollingParameter<MetricU64, u64, AggFuncU64> as TryInto<RollingParameter<SimpleMetricU64, u64, AggFuncU64>>>::try_into
return RollingParameter{}
return.agg_func self.agg_func
return.initial_value self.initial_value
return.meta self.meta
return.metric try_into(self.metric)
return.min_values self.min_values
return.window_size self.window_size
## <RollingParameter<M, f64, AF> as Parameter>::meta
return self.meta
## <RollingParameter<M, u64, AF> as Parameter>::meta
return self.meta
## <RollingParameter<MetricF64, f64, AggFuncF64> as GeneralParameter>::as_parameter
return self
## <RollingParameter<SimpleMetricF64, f64, AggFuncF64> as SimpleParameter<f64>>::as_parameter
return self
## <RollingParameter<MetricU64, u64, AggFuncU64> as GeneralParameter>::as_parameter
return self
## <RollingParameter<SimpleMetricU64, u64, AggFuncU64> as SimpleParameter<u64>>::as_parameter
return self
## RollingParameterBuilder<M, T, AF>::new
return RollingParameterBuilder{}
return.agg_func p5
return.initial_value p3
return.meta ParameterMeta{name: p0}
return.metric p1
return.min_values p4
return.window_size p2
## <RollingParameterBuilder<UnresolvedMetricF64, f64, AggFuncF64> as ParameterBuilder<f64>>::name
return self.meta.name
## <RollingParameterBuilder<UnresolvedMetricF64, f64, AggFuncF64> as ParameterBuilder<f64>>::build
return Built{0: General{0: GeneralParameterEntry{after: Hook{0: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size})}, before: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size}), parameter: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size})}}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Err
return Built{0: Simple{0: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: try_into(resolve(self.0.metric, p1, After)), min_values: self.0.min_values, window_size: self.0.window_size})}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Ok
return Retry{}
    resolve(self.0.metric, p1, After) is Err
return.builder self
    resolve(self.0.metric, p1, After) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, After))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, After) is Err
## <RollingParameterBuilder<UnresolvedMetricU64, u64, AggFuncU64> as ParameterBuilder<u64>>::name
return self.meta.name
## <RollingParameterBuilder<UnresolvedMetricU64, u64, AggFuncU64> as ParameterBuilder<u64>>::build
return Built{0: General{0: GeneralParameterEntry{after: Hook{0: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size})}, before: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size}), parameter: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: resolve(self.0.metric, p1, After), min_values: self.0.min_values, window_size: self.0.window_size})}}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Err
return Built{0: Simple{0: new(RollingParameter{agg_func: self.0.agg_func, initial_value: self.0.initial_value, meta: self.0.meta, metric: try_into(resolve(self.0.metric, p1, After)), min_values: self.0.min_values, window_size: self.0.window_size})}}
    resolve(self.0.metric, p1, After) is Ok; try_into(resolve(self.0.metric, p1, After)) is Ok
return Retry{}
    resolve(self.0.metric, p1, After) is Err
return.builder self
    resolve(self.0.metric, p1, After) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, After))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, After) is Err
## Predicate::apply
return false
    !Lt(p1, p2); self is LessThan
    !Lt(p2, p1); self is GreaterThan
    Lt(1e-06, abs(-p1 +p2)); self is EqualTo
    Lt(p1, p2); self is GreaterThanOrEqualTo
    Lt(p2, p1); self is LessThanOrEqualTo
return true
    !Lt(1e-06, abs(-p1 +p2)); self is EqualTo
    !Lt(p1, p2); self is GreaterThanOrEqualTo
    !Lt(p2, p1); self is LessThanOrEqualTo
    Lt(p1, p2); self is LessThan
    Lt(p2, p1); self is GreaterThan
## <ThresholdParameter as Parameter>::meta
return self.meta
## <ThresholdParameter as GeneralParameter>::as_parameter
return self
## ThresholdParameterBuilder::new
return ThresholdParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.metric p1
return.predicate p3
return.ratchet false
return.threshold p2
## ThresholdParameterBuilder::ratchet
return self
self.ratchet := true
## <ThresholdParameterBuilder as ParameterBuilder<u64>>::name
return self.meta.name
## <ThresholdParameterBuilder as ParameterBuilder<u64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(ThresholdParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), predicate: self.0.predicate, ratchet: self.0.ratchet, threshold: resolve(self.0.threshold, p1, Before)}), parameter: new(ThresholdParameter{meta: self.0.meta, metric: resolve(self.0.metric, p1, Before), predicate: self.0.predicate, ratchet: self.0.ratchet, threshold: resolve(self.0.threshold, p1, Before)})}}
    resolve(self.0.metric, p1, Before) is Ok; resolve(self.0.threshold, p1, Before) is Ok
return Retry{}
    resolve(self.0.metric, p1, Before) is Err
    resolve(self.0.metric, p1, Before) is Ok; resolve(self.0.threshold, p1, Before) is Err
return.builder self
    resolve(self.0.metric, p1, Before) is Err
    resolve(self.0.metric, p1, Before) is Ok; resolve(self.0.threshold, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.metric, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Err
return.parameter_not_found err(resolve(self.0.threshold, p1, Before))~ParameterNotFound.parameter
    resolve(self.0.metric, p1, Before) is Ok; resolve(self.0.threshold, p1, Before) is Err
## <VectorParameter as Parameter>::meta
return self.meta
## <VectorParameter as GeneralParameter>::as_parameter
return self
## VectorParameterBuilder::new
return VectorParameterBuilder{}
return.meta ParameterMeta{name: p0}
return.values p1
## <VectorParameterBuilder as ParameterBuilder<f64>>::name
return self.meta.name
## <VectorParameterBuilder as ParameterBuilder<f64>>::build
return General{0: GeneralParameterEntry{after: none, before: new(VectorParameter{meta: self.0.meta, values: self.0.values}), parameter: new(VectorParameter{meta: self.0.meta, values: self.0.values})}}
