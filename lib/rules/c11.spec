## PythonAggFunc::load
initialize()
return PyAggFunc{0: new(PyAggFuncInner{args: attach(|try_load_optional_py_args(xa, self.args)|), function: attach(|unbind(getattr(load_module(self.source, xa, p1), self.object))|), kwargs: attach(|try_load_optional_py_kwargs(xa, self.kwargs)|)})}
## AggFunc::load
return AnyNonZero{tolerance: 1e-06}
    self is AnyNonZero; self~AnyNonZero.0.tolerance is None
return AnyNonZero{tolerance: self~AnyNonZero.0.tolerance}
    self is AnyNonZero; self~AnyNonZero.0.tolerance is Some
return CountNonZero
    self is CountNonZero
return Max
    self is Max
return Mean
    self is Mean
return Min
    self is Min
return Product
    self is Product
return Python{0: load(self~Python.0, p1)}
    self is Python
return Sum
    self is Sum
## IndexAggFunc::load
return All
    self is All
return Any
    self is Any
return Max
    self is Max
return Min
    self is Min
return Product
    self is Product
return Python{0: load(self~Python.0, p1)}
    self is Python
return Sum
    self is Sum
## AggregatedParameter::add_to_network
load(elem(self.metrics), p1, p2, p3)
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: After}))
    self.phase is After
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: Before}))
    self.phase is Before
push(p1.parameters.f64, new(AggregatedParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: Both}))
    self.phase is Both
## AggregatedIndexParameter::node_references
return new()
## AggregatedIndexParameter::add_to_network
load(elem(self.metrics), p1, p2, p3)
push(p1.parameters.u64, new(AggregatedIndexParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: After}))
    self.phase is After
push(p1.parameters.u64, new(AggregatedIndexParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: Before}))
    self.phase is Before
push(p1.parameters.u64, new(AggregatedIndexParameterBuilder{agg_func: load(self.agg_func, p2.data_path), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3)), phase: Both}))
    self.phase is Both
## AsymmetricSwitchIndexParameter::add_to_network
load(self.off_index_parameter, p1, p2, none)
load(self.on_index_parameter, p1, p2, none)
push(p1.parameters.u64, new(AsymmetricSwitchIndexParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, off_parameter: load(self.off_index_parameter, p1, p2, none), on_parameter: load(self.on_index_parameter, p1, p2, none), phase: Before}))
## ControlCurveInterpolatedParameter::add_to_network
load(elem(self.control_curves), p1, p2, none)
load(elem(self.values), p1, p2, none)
load(self.storage_metric, p1, p2, none)
push(p1.parameters.f64, new(ControlCurveInterpolatedParameterBuilder{control_curves: list(load(elem(self.control_curves), p1, p2, none)), meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.storage_metric, p1, p2, none), values: list(load(elem(self.values), p1, p2, none))}))
## ControlCurveIndexParameter::add_to_network
load(elem(self.control_curves), p1, p2, p3)
load(self.storage_metric, p1, p2, p3)
push(p1.parameters.u64, new(ControlCurveIndexParameterBuilder{control_curves: list(load(elem(self.control_curves), p1, p2, p3)), meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.storage_metric, p1, p2, p3)}))
## ControlCurveParameter::add_to_network
load(elem(self.control_curves), p1, p2, p3)
load(elem(self.values), p1, p2, p3)
load(self.storage_metric, p1, p2, none)
push(p1.parameters.f64, new(ControlCurveParameterBuilder{control_curves: list(load(elem(self.control_curves), p1, p2, p3)), meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.storage_metric, p1, p2, none), values: list(load(elem(self.values), p1, p2, p3))}))
## ControlCurvePiecewiseInterpolatedParameter::add_to_network
load(elem(self.control_curves), p1, p2, p3)
load(self.storage_metric, p1, p2, p3)
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{})
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).control_curves = list
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).control_curves[] = load(elem(self.control_curves), p1, p2, p3)
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).maximum = 1
    self.maximum is None
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).maximum = self.maximum
    self.maximum is Some
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).meta = ParameterMeta{name: new(self.meta.name, p3)}
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).metric = load(self.storage_metric, p1, p2, p3)
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).minimum = 0
    self.minimum is None
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).minimum = self.minimum
    self.minimum is Some
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).values = list
push(p1.parameters.f64, PiecewiseInterpolatedParameterBuilder{}).values[] = elem(self.values)
    self.values is Some
## ConstantParameter::add_to_network
push(p1.parameters.f64, new(ConstantParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, value: load(self.value, p2.tables)}))
## ConstantScenarioParameter::add_to_network
push(p1.parameters.f64, new(ConstantScenarioParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, scenario_group: self.scenario_group, values: load(self.values, p2.tables)}))
## MaxParameter::add_to_network
load(self.parameter, p1, p2, none)
push(p1.parameters.f64, new(MaxParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.parameter, p1, p2, none), threshold: 0}))
    self.threshold is None
push(p1.parameters.f64, new(MaxParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.parameter, p1, p2, none), threshold: self.threshold}))
    self.threshold is Some
## DivisionParameter::add_to_network
load(self.denominator, p1, p2, none)
load(self.numerator, p1, p2, none)
push(p1.parameters.f64, new(DivisionParameterBuilder{denominator: load(self.denominator, p1, p2, none), meta: ParameterMeta{name: new(self.meta.name, p3)}, numerator: load(self.numerator, p1, p2, none), phase: After}))
    self.phase is After
push(p1.parameters.f64, new(DivisionParameterBuilder{denominator: load(self.denominator, p1, p2, none), meta: ParameterMeta{name: new(self.meta.name, p3)}, numerator: load(self.numerator, p1, p2, none), phase: Before}))
    self.phase is Before
push(p1.parameters.f64, new(DivisionParameterBuilder{denominator: load(self.denominator, p1, p2, none), meta: ParameterMeta{name: new(self.meta.name, p3)}, numerator: load(self.numerator, p1, p2, none), phase: Both}))
    self.phase is Both
## MinParameter::add_to_network
load(self.parameter, p1, p2, none)
push(p1.parameters.f64, new(MinParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.parameter, p1, p2, none), threshold: 0}))
    self.threshold is None
push(p1.parameters.f64, new(MinParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.parameter, p1, p2, none), threshold: self.threshold}))
    self.threshold is Some
## NegativeParameter::add_to_network
load(self.parameter, p1, p2, none)
push(p1.parameters.f64, new(NegativeParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.parameter, p1, p2, none)}))
## NegativeMaxParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(NegativeMaxParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), threshold: 0}))
    self.threshold is None
push(p1.parameters.f64, new(NegativeMaxParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), threshold: self.threshold}))
    self.threshold is Some
## NegativeMinParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(NegativeMinParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), threshold: 0}))
    self.threshold is None
push(p1.parameters.f64, new(NegativeMinParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), threshold: self.threshold}))
    self.threshold is Some
## DelayParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(DelayParameterBuilder{delay: self.delay, initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none)}))
## DelayIndexParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.u64, new(DelayParameterBuilder{delay: self.delay, initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none)}))
## DiscountFactorParameter::add_to_network
load(self.discount_rate, p1, p2, none)
push(p1.parameters.f64, new(DiscountFactorParameterBuilder{base_year: self.base_year, discount_rate: load(self.discount_rate, p1, p2, none), meta: ParameterMeta{name: new(self.meta.name, p3)}}))
## HydropowerTargetParameter::add_to_network
load(self.actual_flow, p1, p2, none)
    self.actual_flow is Some
load(self.max_flow, p1, p2, none)
    self.max_flow is Some
load(self.min_flow, p1, p2, none)
    self.min_flow is Some
load(self.target, p1, p2, none)
    self.target is Some
load(self.water_elevation, p1, p2, none)
    self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is Some; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is Some; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is Some; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is Some; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is None; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is None; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is None; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is Some; self.min_flow is None; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is Some; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is Some; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is Some; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is Some; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is None; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is None; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is None; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: load(self.actual_flow, p1, p2, none), efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is Some; self.max_flow is None; self.min_flow is None; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is Some; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is Some; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is Some; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is Some; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is None; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is None; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is None; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: load(self.max_flow, p1, p2, none), min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is Some; self.min_flow is None; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is Some; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is Some; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is Some; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: load(self.min_flow, p1, p2, none), min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is Some; self.target is None; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is None; self.target is Some; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: load(self.target, p1, p2, none), water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is None; self.target is Some; self.water_elevation is None
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: load(self.water_elevation, p1, p2, none)})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is None; self.target is None; self.water_elevation is Some
push(p1.parameters.f64, new(new(new(self.meta.name, p3), HydropowerTargetData{actual_flow: none, efficiency: self.efficiency, elevation: self.turbine_elevation, energy_unit_conversion: self.energy_unit_conversion, flow_unit_conversion: self.flow_unit_conversion, max_flow: none, min_flow: none, min_head: self.min_head, target: none, water_density: self.water_density, water_elevation: none})))
    self.actual_flow is None; self.max_flow is None; self.min_flow is None; self.target is None; self.water_elevation is None
## IndexedArrayParameter::add_to_network
load(elem(self.metrics), p1, p2, p3)
load(self.index_parameter, p1, p2, none)
push(p1.parameters.f64, new(IndexedArrayParameterBuilder{index_parameter: load(self.index_parameter, p1, p2, none), meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.metrics), p1, p2, p3))}))
## InterpolatedParameter::add_to_network
InterpolatedParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.error_on_bounds := self.error_on_bounds
    self.error_on_bounds is Some
InterpolatedParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.error_on_bounds := true
    self.error_on_bounds is None
[accepts]
    Eq(len(self.fp), len(self.xp))
load(elem(self.fp), p1, p2, none)
load(elem(self.xp), p1, p2, none)
load(self.x, p1, p2, none)
push(p1.parameters.f64, new(InterpolatedParameterBuilder{error_on_bounds: true, meta: ParameterMeta{name: new(self.meta.name, p3)}, points: list((load(elem(self.xp), p1, p2, none), load(elem(self.fp), p1, p2, none))), x: load(self.x, p1, p2, none)}))
## OffsetParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(OffsetParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), offset: load(self.offset, p2.tables)}))
## PlaceholderParameter::add_to_network

## Polynomial1DParameter::add_to_network
Polynomial1DParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.offset := 0
    self.offset is None
Polynomial1DParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.offset := self.offset
    self.offset is Some
Polynomial1DParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.scale := 1
    self.scale is None
Polynomial1DParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.scale := self.scale
    self.scale is Some
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(Polynomial1DParameterBuilder{coefficients: self.coefficients, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), offset: 0, scale: 1}))
## DailyProfileParameter::add_to_network
[accepts]
    Eq(365, len(load(self.values, p2.tables)))
    Eq(366, len(load(self.values, p2.tables)))
[success]
    Eq(365, len(load(self.values, p2.tables)))
    Eq(366, len(load(self.values, p2.tables)))
insert(load(self.values, p2.tables), 59, load(self.values, p2.tables)[58])
    Eq(365, len(load(self.values, p2.tables)))
push(p1.parameters.f64, new(DailyProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, values: try_into(load(self.values, p2.tables))}))
## MonthlyProfileParameter::add_to_network
MonthlyProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.interp_day := from(self.interp_day)
    self.interp_day is Some
push(p1.parameters.f64, new(MonthlyProfileParameterBuilder{interp_day: none, meta: ParameterMeta{name: new(self.meta.name, p3)}, values: try_into(load(self.values, p2.tables))}))
## UniformDrawdownProfileParameter::add_to_network
UniformDrawdownProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.residual_days := 0
    self.residual_days is None
UniformDrawdownProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.residual_days := load(self.residual_days, p2.tables)
    self.residual_days is Some
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{})
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).meta = ParameterMeta{name: new(self.meta.name, p3)}
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).reset_day = 1
    self.reset_day is None
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).reset_day = load(self.reset_day, p2.tables)
    self.reset_day is Some
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).reset_month = 1
    self.reset_month is None
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).reset_month = load(self.reset_month, p2.tables)
    self.reset_month is Some
push(p1.parameters.f64, UniformDrawdownProfileParameterBuilder{}).residual_days = 0
## RadialBasisFunction::into_core_rbf
return Cubic
    self is Cubic
return Gaussian{epsilon: estimate_epsilon(p1)}
    self is Gaussian; self~Gaussian.epsilon is None
return Gaussian{epsilon: self~Gaussian.epsilon}
    self is Gaussian; self~Gaussian.epsilon is Some
return InverseMultiQuadric{epsilon: estimate_epsilon(p1)}
    self is InverseMultiQuadric; self~InverseMultiQuadric.epsilon is None
return InverseMultiQuadric{epsilon: self~InverseMultiQuadric.epsilon}
    self is InverseMultiQuadric; self~InverseMultiQuadric.epsilon is Some
return Linear
    self is Linear
return MultiQuadric{epsilon: estimate_epsilon(p1)}
    self is MultiQuadric; self~MultiQuadric.epsilon is None
return MultiQuadric{epsilon: self~MultiQuadric.epsilon}
    self is MultiQuadric; self~MultiQuadric.epsilon is Some
return Quintic
    self is Quintic
return ThinPlateSpline
    self is ThinPlateSpline
## profiles::estimate_epsilon
return none
    Lt(len(p0), 1)
return powf((max(map(p0, |xa.0|)) -min(map(p0, |xa.0|))), 1/len(p0))
    !Lt(len(p0), 1); !Lt(max(map(p0, |xa.0|)), min(map(p0, |xa.0|)) +1); Eq(reduce(map(p0, |xa.1|), fn:core::f64::max), reduce(map(p0, |xa.1|), fn:core::f64::min))
return powf((max(map(p0, |xa.0|))*reduce(map(p0, |xa.1|), fn:core::f64::max) -max(map(p0, |xa.0|))*reduce(map(p0, |xa.1|), fn:core::f64::min) -min(map(p0, |xa.0|))*reduce(map(p0, |xa.1|), fn:core::f64::max) +min(map(p0, |xa.0|))*reduce(map(p0, |xa.1|), fn:core::f64::min)), 1/len(p0))
    !Eq(reduce(map(p0, |xa.1|), fn:core::f64::max), reduce(map(p0, |xa.1|), fn:core::f64::min)); !Lt(len(p0), 1); !Lt(max(map(p0, |xa.0|)), min(map(p0, |xa.0|)) +1)
return powf((reduce(map(p0, |xa.1|), fn:core::f64::max) -reduce(map(p0, |xa.1|), fn:core::f64::min)), 1/len(p0))
    !Eq(reduce(map(p0, |xa.1|), fn:core::f64::max), reduce(map(p0, |xa.1|), fn:core::f64::min)); !Lt(len(p0), 1); Lt(max(map(p0, |xa.0|)), min(map(p0, |xa.0|)) +1)
return powf(1, 1/len(p0))
    !Lt(len(p0), 1); Eq(reduce(map(p0, |xa.1|), fn:core::f64::max), reduce(map(p0, |xa.1|), fn:core::f64::min)); Lt(max(map(p0, |xa.0|)), min(map(p0, |xa.0|)) +1)
## RbfProfileParameter::add_to_network
push(p1.parameters.f64, new(RbfProfileParameterBuilder{function: into_core_rbf(self.function, self.points), meta: ParameterMeta{name: new(self.meta.name, p2)}, points: self.points}))
## WeeklyProfileParameter::add_to_network
WeeklyProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.interp_day := from(self.interp_day)
    self.interp_day is Some
push(p1.parameters.f64, new(WeeklyProfileParameterBuilder{interp_day: none, meta: ParameterMeta{name: new(self.meta.name, p3)}, values: try_from(load(self.values, p2.tables))}))
## DirunalProfileParameter::add_to_network
push(p1.parameters.f64, new(DiurnalProfileParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, values: try_into(load(self.values, p2.tables))}))
## RollingParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(RollingParameterBuilder{agg_func: load(self.agg_func, p2.data_path), initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), min_values: self.min_values, window_size: self.window_size}))
    self.min_values is Some
push(p1.parameters.f64, new(RollingParameterBuilder{agg_func: load(self.agg_func, p2.data_path), initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), min_values: self.window_size, window_size: self.window_size}))
    self.min_values is None
## RollingIndexParameter::add_to_network
load(self.metric, p1, p2, none)
push(p1.parameters.u64, new(RollingParameterBuilder{agg_func: load(self.agg_func, p2.data_path), initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), min_values: self.min_values, window_size: self.window_size}))
    self.min_values is Some
push(p1.parameters.u64, new(RollingParameterBuilder{agg_func: load(self.agg_func, p2.data_path), initial_value: self.initial_value, meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), min_values: self.window_size, window_size: self.window_size}))
    self.min_values is None
## TablesArrayParameter::add_to_network
Array1ParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.timestep_offset := self.timestep_offset
    self.scenario is None; self.timestep_offset is Some
Array2ParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.timestep_offset := self.timestep_offset
    self.scenario is Some; self.timestep_offset is Some
check(self.checksum, join(p2.data_path, self.url))
    is_relative(self.url); p2.data_path is Some; self.checksum is Some
check(self.checksum, self.url)
    !is_relative(self.url); p2.data_path is Some; self.checksum is Some
    p2.data_path is None; self.checksum is Some
push(p1.parameters.f64, new(Array1ParameterBuilder{array: slice_move(read_2d(dataset(group(open(join(p2.data_path, self.url)), self.wh), self.node)), new_unchecked((RangeFull, 0), next_in_dim(0, next_in_dim(RangeFull, PhantomData)), next_out_dim(0, next_out_dim(RangeFull, PhantomData)))), meta: ParameterMeta{name: new(self.meta.name, p3)}, timestep_offset: none}))
    is_relative(self.url); p2.data_path is Some; self.scenario is None
push(p1.parameters.f64, new(Array1ParameterBuilder{array: slice_move(read_2d(dataset(group(open(self.url), self.wh), self.node)), new_unchecked((RangeFull, 0), next_in_dim(0, next_in_dim(RangeFull, PhantomData)), next_out_dim(0, next_out_dim(RangeFull, PhantomData)))), meta: ParameterMeta{name: new(self.meta.name, p3)}, timestep_offset: none}))
    !is_relative(self.url); p2.data_path is Some; self.scenario is None
    p2.data_path is None; self.scenario is None
push(p1.parameters.f64, new(Array2ParameterBuilder{array: read_2d(dataset(group(open(join(p2.data_path, self.url)), self.wh), self.node)), meta: ParameterMeta{name: new(self.meta.name, p3)}, scenario_group: self.scenario, timestep_offset: none}))
    is_relative(self.url); p2.data_path is Some; self.scenario is Some
push(p1.parameters.f64, new(Array2ParameterBuilder{array: read_2d(dataset(group(open(self.url), self.wh), self.node)), meta: ParameterMeta{name: new(self.meta.name, p3)}, scenario_group: self.scenario, timestep_offset: none}))
    !is_relative(self.url); p2.data_path is Some; self.scenario is Some
    p2.data_path is None; self.scenario is Some
## ThresholdParameter::add_to_network
ThresholdParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}}.ratchet := true
    self.ratchet; self.returned_metrics is None
ThresholdParameterBuilder{meta: ParameterMeta{name: new_with_subname(self.meta.name, "threshold", self.meta.name)}}.ratchet := true
    self.ratchet; self.returned_metrics is Some
load(elem(self.returned_metrics), p1, p2, none)
    self.returned_metrics is Some
load(self.metric, p1, p2, none)
load(self.threshold, p1, p2, none)
push(p1.parameters.f64, new(IndexedArrayParameterBuilder{index_parameter: ParameterValue{name: new_with_subname(self.meta.name, "threshold", self.meta.name), return_value: Before}, meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.returned_metrics), p1, p2, none))}))
    self.returned_metrics is Some
push(p1.parameters.u64, new(ThresholdParameterBuilder{meta: ParameterMeta{name: new(self.meta.name, p3)}, metric: load(self.metric, p1, p2, none), predicate: from(self.predicate), ratchet: false, threshold: load(self.threshold, p1, p2, none)}))
    self.returned_metrics is None
push(p1.parameters.u64, new(ThresholdParameterBuilder{meta: ParameterMeta{name: new_with_subname(self.meta.name, "threshold", self.meta.name)}, metric: load(self.metric, p1, p2, none), predicate: from(self.predicate), ratchet: false, threshold: load(self.threshold, p1, p2, none)}))
    self.returned_metrics is Some
## MultiThresholdParameter::add_to_network
MultiThresholdParameterBuilder{meta: ParameterMeta{name: ParameterName{name: self.meta.name, parent: none, sub_name: none}}}.ratchet := true
    self.ratchet; self.returned_metrics is None
MultiThresholdParameterBuilder{meta: ParameterMeta{name: new_with_subname(self.meta.name, "threshold", self.meta.name)}}.ratchet := true
    self.ratchet; self.returned_metrics is Some
load(elem(self.returned_metrics), p1, p2, none)
    self.returned_metrics is Some
load(elem(self.thresholds), p1, p2, p3)
load(self.metric, p1, p2, none)
push(p1.parameters.f64, new(IndexedArrayParameterBuilder{index_parameter: ParameterValue{name: new_with_subname(self.meta.name, "threshold", self.meta.name), return_value: Before}, meta: ParameterMeta{name: new(self.meta.name, p3)}, metrics: list(load(elem(self.returned_metrics), p1, p2, none))}))
    self.returned_metrics is Some
push(p1.parameters.u64, new(MultiThresholdParameterBuilder{meta: ParameterMeta{name: ParameterName{name: self.meta.name, parent: none, sub_name: none}}, metric: load(self.metric, p1, p2, none), predicate: from(self.predicate), ratchet: false, thresholds: list(load(elem(self.thresholds), p1, p2, p3))}))
    self.returned_metrics is None
push(p1.parameters.u64, new(MultiThresholdParameterBuilder{meta: ParameterMeta{name: new_with_subname(self.meta.name, "threshold", self.meta.name)}, metric: load(self.metric, p1, p2, none), predicate: from(self.predicate), ratchet: false, thresholds: list(load(elem(self.thresholds), p1, p2, p3))}))
    self.returned_metrics is Some
## Parameter::name @schema
return meta(self).name
## Parameter::meta
return self~Aggregated.0.meta
    self is Aggregated
return self~AggregatedIndex.0.meta
    self is AggregatedIndex
return self~AsymmetricSwitchIndex.0.meta
    self is AsymmetricSwitchIndex
return self~Constant.0.meta
    self is Constant
return self~ConstantScenario.0.meta
    self is ConstantScenario
return self~ControlCurve.0.meta
    self is ControlCurve
return self~ControlCurveIndex.0.meta
    self is ControlCurveIndex
return self~ControlCurveInterpolated.0.meta
    self is ControlCurveInterpolated
return self~ControlCurvePiecewiseInterpolated.0.meta
    self is ControlCurvePiecewiseInterpolated
return self~DailyProfile.0.meta
    self is DailyProfile
return self~Delay.0.meta
    self is Delay
return self~DelayIndex.0.meta
    self is DelayIndex
return self~DiscountFactor.0.meta
    self is DiscountFactor
return self~DiurnalProfile.0.meta
    self is DiurnalProfile
return self~Division.0.meta
    self is Division
return self~HydropowerTarget.0.meta
    self is HydropowerTarget
return self~IndexedArray.0.meta
    self is IndexedArray
return self~Interpolated.0.meta
    self is Interpolated
return self~Max.0.meta
    self is Max
return self~Min.0.meta
    self is Min
return self~MonthlyProfile.0.meta
    self is MonthlyProfile
return self~MultiThreshold.0.meta
    self is MultiThreshold
return self~Negative.0.meta
    self is Negative
return self~NegativeMax.0.meta
    self is NegativeMax
return self~NegativeMin.0.meta
    self is NegativeMin
return self~Offset.0.meta
    self is Offset
return self~Placeholder.0.meta
    self is Placeholder
return self~Polynomial1D.0.meta
    self is Polynomial1D
return self~Python.0.meta
    self is Python
return self~RbfProfile.0.meta
    self is RbfProfile
return self~Rolling.0.meta
    self is Rolling
return self~RollingIndex.0.meta
    self is RollingIndex
return self~TablesArray.0.meta
    self is TablesArray
return self~Threshold.0.meta
    self is Threshold
return self~UniformDrawdownProfile.0.meta
    self is UniformDrawdownProfile
return self~WeeklyProfile.0.meta
    self is WeeklyProfile
## Parameter::meta_mut
return self~Aggregated.0.meta
    self is Aggregated
return self~AggregatedIndex.0.meta
    self is AggregatedIndex
return self~AsymmetricSwitchIndex.0.meta
    self is AsymmetricSwitchIndex
return self~Constant.0.meta
    self is Constant
return self~ConstantScenario.0.meta
    self is ConstantScenario
return self~ControlCurve.0.meta
    self is ControlCurve
return self~ControlCurveIndex.0.meta
    self is ControlCurveIndex
return self~ControlCurveInterpolated.0.meta
    self is ControlCurveInterpolated
return self~ControlCurvePiecewiseInterpolated.0.meta
    self is ControlCurvePiecewiseInterpolated
return self~DailyProfile.0.meta
    self is DailyProfile
return self~Delay.0.meta
    self is Delay
return self~DelayIndex.0.meta
    self is DelayIndex
return self~DiscountFactor.0.meta
    self is DiscountFactor
return self~DiurnalProfile.0.meta
    self is DiurnalProfile
return self~Division.0.meta
    self is Division
return self~HydropowerTarget.0.meta
    self is HydropowerTarget
return self~IndexedArray.0.meta
    self is IndexedArray
return self~Interpolated.0.meta
    self is Interpolated
return self~Max.0.meta
    self is Max
return self~Min.0.meta
    self is Min
return self~MonthlyProfile.0.meta
    self is MonthlyProfile
return self~MultiThreshold.0.meta
    self is MultiThreshold
return self~Negative.0.meta
    self is Negative
return self~NegativeMax.0.meta
    self is NegativeMax
return self~NegativeMin.0.meta
    self is NegativeMin
return self~Offset.0.meta
    self is Offset
return self~Placeholder.0.meta
    self is Placeholder
return self~Polynomial1D.0.meta
    self is Polynomial1D
return self~Python.0.meta
    self is Python
return self~RbfProfile.0.meta
    self is RbfProfile
return self~Rolling.0.meta
    self is Rolling
return self~RollingIndex.0.meta
    self is RollingIndex
return self~TablesArray.0.meta
    self is TablesArray
return self~Threshold.0.meta
    self is Threshold
return self~UniformDrawdownProfile.0.meta
    self is UniformDrawdownProfile
return self~WeeklyProfile.0.meta
    self is WeeklyProfile
## Parameter::parameter_type
return from(self)
## Parameter::phase
return Before
    self is AsymmetricSwitchIndex|Constant|ConstantScenario|ControlCurve|ControlCurveIndex|ControlCurveInterpolated|ControlCurvePiecewiseInterpolated|DailyProfile|Delay|DelayIndex|DiscountFactor|DiurnalProfile|HydropowerTarget|IndexedArray|Interpolated|Max|Min|MonthlyProfile|MultiThreshold|Negative|NegativeMax|NegativeMin|Offset|Placeholder|Polynomial1D|Python|RbfProfile|Rolling|RollingIndex|TablesArray|Threshold|UniformDrawdownProfile|WeeklyProfile
return self~Aggregated.0.phase
    self is Aggregated
return self~AggregatedIndex.0.phase
    self is AggregatedIndex
return self~Division.0.phase
    self is Division
## Parameter::add_to_network
add_to_network(self~Aggregated.0, p1, p2, p3)
    self is Aggregated
add_to_network(self~AggregatedIndex.0, p1, p2, p3)
    self is AggregatedIndex
add_to_network(self~AsymmetricSwitchIndex.0, p1, p2, p3)
    self is AsymmetricSwitchIndex
add_to_network(self~Constant.0, p1, p2, p3)
    self is Constant
add_to_network(self~ConstantScenario.0, p1, p2, p3)
    self is ConstantScenario
add_to_network(self~ControlCurve.0, p1, p2, p3)
    self is ControlCurve
add_to_network(self~ControlCurveIndex.0, p1, p2, p3)
    self is ControlCurveIndex
add_to_network(self~ControlCurveInterpolated.0, p1, p2, p3)
    self is ControlCurveInterpolated
add_to_network(self~ControlCurvePiecewiseInterpolated.0, p1, p2, p3)
    self is ControlCurvePiecewiseInterpolated
add_to_network(self~DailyProfile.0, p1, p2, p3)
    self is DailyProfile
add_to_network(self~Delay.0, p1, p2, p3)
    self is Delay
add_to_network(self~DelayIndex.0, p1, p2, p3)
    self is DelayIndex
add_to_network(self~DiscountFactor.0, p1, p2, p3)
    self is DiscountFactor
add_to_network(self~DiurnalProfile.0, p1, p2, p3)
    self is DiurnalProfile
add_to_network(self~Division.0, p1, p2, p3)
    self is Division
add_to_network(self~HydropowerTarget.0, p1, p2, p3)
    self is HydropowerTarget
add_to_network(self~IndexedArray.0, p1, p2, p3)
    self is IndexedArray
add_to_network(self~Interpolated.0, p1, p2, p3)
    self is Interpolated
add_to_network(self~Max.0, p1, p2, p3)
    self is Max
add_to_network(self~Min.0, p1, p2, p3)
    self is Min
add_to_network(self~MonthlyProfile.0, p1, p2, p3)
    self is MonthlyProfile
add_to_network(self~MultiThreshold.0, p1, p2, p3)
    self is MultiThreshold
add_to_network(self~Negative.0, p1, p2, p3)
    self is Negative
add_to_network(self~NegativeMax.0, p1, p2, p3)
    self is NegativeMax
add_to_network(self~NegativeMin.0, p1, p2, p3)
    self is NegativeMin
add_to_network(self~Offset.0, p1, p2, p3)
    self is Offset
add_to_network(self~Polynomial1D.0, p1, p2, p3)
    self is Polynomial1D
add_to_network(self~Python.0, p1, p2, p3)
    self is Python
add_to_network(self~RbfProfile.0, p1, p3)
    self is RbfProfile
add_to_network(self~Rolling.0, p1, p2, p3)
    self is Rolling
add_to_network(self~RollingIndex.0, p1, p2, p3)
    self is RollingIndex
add_to_network(self~TablesArray.0, p1, p2, p3)
    self is TablesArray
add_to_network(self~Threshold.0, p1, p2, p3)
    self is Threshold
add_to_network(self~UniformDrawdownProfile.0, p1, p2, p3)
    self is UniformDrawdownProfile
add_to_network(self~WeeklyProfile.0, p1, p2, p3)
    self is WeeklyProfile
## <ConstantValue<f64> as Default>::default
return Literal{value: 0}
## <ConstantValue<u64> as Default>::default
return Literal{value: 0}
## ConstantValue<f64>::load
return get_scalar_f64(p1.tables[self~Table.0.table], key(self~Table.0))
    self is Table
return self~Literal.value
    self is Literal
## ConstantValue<u64>::load
return get_scalar_u64(p1.tables[self~Table.0.table], key(self~Table.0))
    self is Table
return self~Literal.value
    self is Literal
## ConstantFloatVec::load
return get_vec_f64(p1, self~Table.0)
    self is Table
return self~Literal.values
    self is Literal
