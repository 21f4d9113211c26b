## AggregatedParameter<MetricF64> GeneralBeforeParameter<f64>::before
leave loop early()
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return (acc(0)/size_hint(list(V(elem(self.metrics)))).0 +V(elem(self.metrics))/size_hint(list(V(elem(self.metrics)))).0)
    !Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return 0
    Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return count(filter(list(V(elem(self.metrics))), |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    self.agg_func is CountFunc
return count(filter(list(V(elem(self.metrics))), |false if Eq(0, xa) / true if !Eq(0, xa)|))
    self.agg_func is CountNonZero
return false
    !Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Max
return min(acc(1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Min
return true
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
## AggregatedParameter<MetricF64> GeneralAfterParameter<f64>::after
leave loop early()
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return (acc(0)/size_hint(list(V(elem(self.metrics)))).0 +V(elem(self.metrics))/size_hint(list(V(elem(self.metrics)))).0)
    !Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return 0
    Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return count(filter(list(V(elem(self.metrics))), |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    self.agg_func is CountFunc
return count(filter(list(V(elem(self.metrics))), |false if Eq(0, xa) / true if !Eq(0, xa)|))
    self.agg_func is CountNonZero
return false
    !Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Max
return min(acc(1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Min
return true
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
## AggregatedParameter<SimpleMetricF64> SimpleParameter<f64>::compute
leave loop early()
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return (acc(0)/size_hint(list(V(elem(self.metrics)))).0 +V(elem(self.metrics))/size_hint(list(V(elem(self.metrics)))).0)
    !Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return 0
    Lt(size_hint(list(V(elem(self.metrics)))).0, 1); self.agg_func is Mean
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return count(filter(list(V(elem(self.metrics))), |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    self.agg_func is CountFunc
return count(filter(list(V(elem(self.metrics))), |false if Eq(0, xa) / true if !Eq(0, xa)|))
    self.agg_func is CountNonZero
return false
    !Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Max
return min(acc(1.79769313486e+308), V(elem(self.metrics)))
    self.agg_func is Min
return true
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-V(elem(self.metrics)))); self.agg_func is AnyNonZero
## AggregatedParameter<ConstantMetricF64> ConstParameter<f64>::compute
leave loop early()
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-get_value(elem(self.metrics), p2))); self.agg_func is AnyNonZero
return (acc(0) +get_value(elem(self.metrics), p2))
    self.agg_func is Sum
return (acc(0)/size_hint(list(get_value(elem(self.metrics), p2))).0 +get_value(elem(self.metrics), p2)/size_hint(list(get_value(elem(self.metrics), p2))).0)
    !Lt(size_hint(list(get_value(elem(self.metrics), p2))).0, 1); self.agg_func is Mean
return 0
    Lt(size_hint(list(get_value(elem(self.metrics), p2))).0, 1); self.agg_func is Mean
return acc(1)*get_value(elem(self.metrics), p2)
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(get_value(elem(self.metrics), p2)))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return count(filter(list(get_value(elem(self.metrics), p2)), |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    self.agg_func is CountFunc
return count(filter(list(get_value(elem(self.metrics), p2)), |false if Eq(0, xa) / true if !Eq(0, xa)|))
    self.agg_func is CountNonZero
return false
    !Lt(self.agg_func~AnyNonZero.tolerance, abs(-get_value(elem(self.metrics), p2))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), get_value(elem(self.metrics), p2))
    self.agg_func is Max
return min(acc(1.79769313486e+308), get_value(elem(self.metrics), p2))
    self.agg_func is Min
return true
    Lt(self.agg_func~AnyNonZero.tolerance, abs(-get_value(elem(self.metrics), p2))); self.agg_func is AnyNonZero
## AggregatedIndexParameter<MetricU64> GeneralBeforeParameter<u64>::before
leave loop early()
    !Lt(V(elem(self.metrics)), 1); self.agg_func is Any
    Lt(V(elem(self.metrics)), 1); self.agg_func is All
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return 0
    max(list(V(elem(self.metrics)))) is None; self.agg_func is Max
return 1.84467440737e+19
    min(list(V(elem(self.metrics)))) is None; self.agg_func is Min
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return false
    Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
return max(list(V(elem(self.metrics))))
    max(list(V(elem(self.metrics)))) is Some; self.agg_func is Max
return min(list(V(elem(self.metrics))))
    min(list(V(elem(self.metrics)))) is Some; self.agg_func is Min
return true
    !Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
## AggregatedIndexParameter<MetricU64> GeneralAfterParameter<u64>::after
leave loop early()
    !Lt(V(elem(self.metrics)), 1); self.agg_func is Any
    Lt(V(elem(self.metrics)), 1); self.agg_func is All
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return 0
    max(list(V(elem(self.metrics)))) is None; self.agg_func is Max
return 1.84467440737e+19
    min(list(V(elem(self.metrics)))) is None; self.agg_func is Min
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return false
    Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
return max(list(V(elem(self.metrics))))
    max(list(V(elem(self.metrics)))) is Some; self.agg_func is Max
return min(list(V(elem(self.metrics))))
    min(list(V(elem(self.metrics)))) is Some; self.agg_func is Min
return true
    !Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
## AggregatedIndexParameter<SimpleMetricU64> SimpleParameter<u64>::compute
leave loop early()
    !Lt(V(elem(self.metrics)), 1); self.agg_func is Any
    Lt(V(elem(self.metrics)), 1); self.agg_func is All
return (acc(0) +V(elem(self.metrics)))
    self.agg_func is Sum
return 0
    max(list(V(elem(self.metrics)))) is None; self.agg_func is Max
return 1.84467440737e+19
    min(list(V(elem(self.metrics)))) is None; self.agg_func is Min
return acc(1)*V(elem(self.metrics))
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(V(elem(self.metrics))))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return false
    Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
return max(list(V(elem(self.metrics))))
    max(list(V(elem(self.metrics)))) is Some; self.agg_func is Max
return min(list(V(elem(self.metrics))))
    min(list(V(elem(self.metrics)))) is Some; self.agg_func is Min
return true
    !Lt(V(elem(self.metrics)), 1); self.agg_func is All|Any
## AggregatedIndexParameter<ConstantMetricU64> ConstParameter<u64>::compute
leave loop early()
    !Lt(get_value(elem(self.metrics), p2), 1); self.agg_func is Any
    Lt(get_value(elem(self.metrics), p2), 1); self.agg_func is All
return (acc(0) +get_value(elem(self.metrics), p2))
    self.agg_func is Sum
return 0
    max(list(get_value(elem(self.metrics), p2))) is None; self.agg_func is Max
return 1.84467440737e+19
    min(list(get_value(elem(self.metrics), p2))) is None; self.agg_func is Min
return acc(1)*get_value(elem(self.metrics), p2)
    self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(get_value(elem(self.metrics), p2)))))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    self.agg_func is Python
return false
    Lt(get_value(elem(self.metrics), p2), 1); self.agg_func is All|Any
return max(list(get_value(elem(self.metrics), p2)))
    max(list(get_value(elem(self.metrics), p2))) is Some; self.agg_func is Max
return min(list(get_value(elem(self.metrics), p2)))
    min(list(get_value(elem(self.metrics), p2))) is Some; self.agg_func is Min
return true
    !Lt(get_value(elem(self.metrics), p2), 1); self.agg_func is All|Any
## Array1Parameter<f64> SimpleParameter<f64>::compute
return self.array[min((len_of(self.array, Axis{0: 0}) -1), max((ts.index +self.timestep_offset), 0))]
    self.timestep_offset is Some
return self.array[ts.index]
    self.timestep_offset is None
## Array1Parameter<u64> SimpleParameter<u64>::compute
return self.array[min((len_of(self.array, Axis{0: 0}) -1), max((ts.index +self.timestep_offset), 0))]
    self.timestep_offset is Some
return self.array[ts.index]
    self.timestep_offset is None
## Array2Parameter<f64> SimpleParameter<f64>::compute
return self.array[(min((len_of(self.array, Axis{0: 0}) -1), max((ts.index +self.timestep_offset), 0)), p1.scenario_index.core.indices[self.scenario_group_index])]
    self.timestep_offset is Some
return self.array[(ts.index, p1.scenario_index.core.indices[self.scenario_group_index])]
    self.timestep_offset is None
## Array2Parameter<u64> SimpleParameter<u64>::compute
return self.array[(min((len_of(self.array, Axis{0: 0}) -1), max((ts.index +self.timestep_offset), 0)), p1.scenario_index.core.indices[self.scenario_group_index])]
    self.timestep_offset is Some
return self.array[(ts.index, p1.scenario_index.core.indices[self.scenario_group_index])]
    self.timestep_offset is None
## AsymmetricSwitchIndexParameter Parameter::setup
return new(0)
## AsymmetricSwitchIndexParameter GeneralBeforeParameter<u64>::before
MEM := 0
    !Lt(MEM, 1); Lt(V(self.off_parameter), 1); Lt(V(self.on_parameter), 1)
MEM := 1
    !Lt(V(self.on_parameter), 1); Lt(MEM, 1)
return 0
    !Lt(MEM, 1); Lt(V(self.off_parameter), 1); Lt(V(self.on_parameter), 1)
return 1
    !Lt(V(self.on_parameter), 1); Lt(MEM, 1)
return MEM
    !Lt(MEM, 1); !Lt(V(self.off_parameter), 1); Lt(V(self.on_parameter), 1)
    !Lt(MEM, 1); !Lt(V(self.on_parameter), 1)
    Lt(MEM, 1); Lt(V(self.on_parameter), 1)
## ConstantParameter Parameter::setup
return new(none)
## ConstantParameter ConstParameter<f64>::compute
return downcast_internal_state_ref(p3)
    downcast_internal_state_ref(p3) is Some
return self.value
    downcast_internal_state_ref(p3) is None
## ConstantScenarioParameter ConstParameter<f64>::compute
return self.values[scen.core.indices[self.scenario_group_index]]
    scen.schema is None
return self.values[scen.schema.indices[self.scenario_group_index]]
    scen.schema is Some
## ApportionParameter GeneralBeforeParameter<MultiValue>::before
return MultiValue{}
return.indices new()
return.values (("upper", (-clamp(V(self.control_curve), 0, 1)*V(self.metric) +V(self.metric))), ("lower", clamp(V(self.control_curve), 0, 1)*V(self.metric)))
## ControlCurveIndexParameter GeneralBeforeParameter<u64>::before
leave loop early()
    !Lt(V(self.metric), V(elem(self.control_curves)))
return idx(self.control_curves)
    !Lt(V(self.metric), V(elem(self.control_curves)))
return len(self.control_curves)
    Lt(V(self.metric), V(elem(self.control_curves)))
## ControlCurveInterpolatedParameter GeneralBeforeParameter<f64>::before
leave loop early()
    !Lt(V(self.metric), V(elem(self.control_curves)))
return (-V(elem(self.control_curves))*V(elem(self.values))/(acc(1) -V(elem(self.control_curves))) +V(elem(self.control_curves))*get_value(self.values[(idx(self.control_curves) +1)], p1.network, p1.state)/(acc(1) -V(elem(self.control_curves))) +V(elem(self.values))*V(self.metric)/(acc(1) -V(elem(self.control_curves))) -V(self.metric)*get_value(self.values[(idx(self.control_curves) +1)], p1.network, p1.state)/(acc(1) -V(elem(self.control_curves))) +get_value(self.values[(idx(self.control_curves) +1)], p1.network, p1.state))
    !Lt(V(self.metric), V(elem(self.control_curves))); !Lt(abs(-acc(1) +V(elem(self.control_curves))), 1e-06); Lt(V(elem(self.control_curves)), V(self.metric)); Lt(V(self.metric), acc(1))
return (-V(self.metric)*get_value(self.values[(len(self.values) -1)], p1.network, p1.state)/V(elem(self.control_curves)) +V(self.metric)*get_value(self.values[(len(self.values) -2)], p1.network, p1.state)/V(elem(self.control_curves)) +get_value(self.values[(len(self.values) -1)], p1.network, p1.state))
    !Lt(abs(-V(elem(self.control_curves))), 1e-06); Lt(0, V(self.metric)); Lt(V(self.metric), V(elem(self.control_curves)))
return V(elem(self.values))
    !Lt(V(self.metric), V(elem(self.control_curves))); !Lt(V(self.metric), acc(1)); Lt(V(elem(self.control_curves)), V(self.metric))
return get_value(self.values[(idx(self.control_curves) +1)], p1.network, p1.state)
    !Lt(V(elem(self.control_curves)), V(self.metric)); !Lt(V(self.metric), V(elem(self.control_curves)))
    !Lt(V(self.metric), V(elem(self.control_curves))); Lt(V(elem(self.control_curves)), V(self.metric)); Lt(V(self.metric), acc(1)); Lt(abs(-acc(1) +V(elem(self.control_curves))), 1e-06)
return get_value(self.values[(len(self.values) -1)], p1.network, p1.state)
    !Lt(0, V(self.metric)); Lt(V(self.metric), V(elem(self.control_curves)))
    Lt(0, V(self.metric)); Lt(V(self.metric), V(elem(self.control_curves))); Lt(abs(-V(elem(self.control_curves))), 1e-06)
## PiecewiseInterpolatedParameter GeneralBeforeParameter<f64>::before
leave loop early()
    !Lt(V(self.metric), V(elem(self.control_curves)))
return (-elem(self.values)[0]*V(elem(self.control_curves))/(acc(self.maximum) -V(elem(self.control_curves))) +elem(self.values)[0]*V(self.metric)/(acc(self.maximum) -V(elem(self.control_curves))) +elem(self.values)[1]*V(elem(self.control_curves))/(acc(self.maximum) -V(elem(self.control_curves))) -elem(self.values)[1]*V(self.metric)/(acc(self.maximum) -V(elem(self.control_curves))) +elem(self.values)[1])
    !Lt(V(self.metric), V(elem(self.control_curves))); !Lt(abs(-acc(self.maximum) +V(elem(self.control_curves))), 1e-06); Lt(V(elem(self.control_curves)), V(self.metric)); Lt(V(self.metric), acc(self.maximum))
return (V(self.metric)*last(self.values)[0]/(V(elem(self.control_curves)) -self.minimum) -V(self.metric)*last(self.values)[1]/(V(elem(self.control_curves)) -self.minimum) -last(self.values)[0]*self.minimum/(V(elem(self.control_curves)) -self.minimum) +last(self.values)[1]*self.minimum/(V(elem(self.control_curves)) -self.minimum) +last(self.values)[1])
    !Lt(abs(-V(elem(self.control_curves)) +self.minimum), 1e-06); Lt(V(self.metric), V(elem(self.control_curves))); Lt(self.minimum, V(self.metric))
return elem(self.values)[0]
    !Lt(V(self.metric), V(elem(self.control_curves))); !Lt(V(self.metric), acc(self.maximum)); Lt(V(elem(self.control_curves)), V(self.metric))
return elem(self.values)[1]
    !Lt(V(elem(self.control_curves)), V(self.metric)); !Lt(V(self.metric), V(elem(self.control_curves)))
    !Lt(V(self.metric), V(elem(self.control_curves))); Lt(V(elem(self.control_curves)), V(self.metric)); Lt(V(self.metric), acc(self.maximum)); Lt(abs(-acc(self.maximum) +V(elem(self.control_curves))), 1e-06)
return last(self.values)[1]
    !Lt(self.minimum, V(self.metric)); Lt(V(self.metric), V(elem(self.control_curves)))
    Lt(V(self.metric), V(elem(self.control_curves))); Lt(abs(-V(elem(self.control_curves)) +self.minimum), 1e-06); Lt(self.minimum, V(self.metric))
## ControlCurveParameter GeneralBeforeParameter<f64>::before
leave loop early()
    !Lt(V(self.metric), V(elem(self.control_curves)))
return V(elem(self.values))
    !Lt(V(self.metric), V(elem(self.control_curves)))
return V(last(self.values))
    Lt(V(self.metric), V(elem(self.control_curves)))
## VolumeBetweenControlCurvesParameter<SimpleMetricF64> SimpleParameter<f64>::compute
return (-V(self.lower)*V(self.total) +V(self.total))
    self.lower is Some; self.upper is None
return (-V(self.lower)*V(self.total) +V(self.total)*V(self.upper))
    self.lower is Some; self.upper is Some
return V(self.total)
    self.lower is None; self.upper is None
return V(self.total)*V(self.upper)
    self.lower is None; self.upper is Some
## DeficitParameter GeneralAfterParameter<f64>::after
return max((-V(self.flow) +V(self.max_flow)), 0)
## DelayParameter Parameter::setup
return new(list(self.initial_value if for each(Range{end: self.delay, start: 0})))
## DelayParameter<MetricF64,f64> GeneralBeforeParameter<f64>::before
pop_front(MEM)
return pop_front(MEM)
## DelayParameter<MetricF64,f64> GeneralAfterParameterHook<f64>::after
push_back(MEM, V(self.metric))
## DelayParameter<SimpleMetricF64,f64> SimpleParameter<f64>::compute
pop_front(MEM)
push_back(MEM, V(self.metric))
return pop_front(MEM)
## DelayParameter<MetricU64,u64> GeneralBeforeParameter<u64>::before
pop_front(MEM)
return pop_front(MEM)
## DelayParameter<MetricU64,u64> GeneralAfterParameterHook<u64>::after
push_back(MEM, V(self.metric))
## DelayParameter<SimpleMetricU64,u64> SimpleParameter<u64>::compute
pop_front(MEM)
push_back(MEM, V(self.metric))
return pop_front(MEM)
## DifferenceParameter<MetricF64> GeneralBeforeParameter<f64>::before
return (V(self.a) -V(self.b))
    !Lt(V(self.a), V(self.b) +V(self.min)); !Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is Some
    !Lt(V(self.a), V(self.b) +V(self.min)); self.max is None; self.min is Some
    !Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is None
    self.max is None; self.min is None
return V(self.max)
    !Lt(V(self.a), V(self.b) +V(self.min)); Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is Some
    Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is None
return V(self.min)
    Lt(V(self.a), V(self.b) +V(self.min)); self.min is Some
## DifferenceParameter<SimpleMetricF64> SimpleParameter<f64>::compute
return (V(self.a) -V(self.b))
    !Lt(V(self.a), V(self.b) +V(self.min)); !Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is Some
    !Lt(V(self.a), V(self.b) +V(self.min)); self.max is None; self.min is Some
    !Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is None
    self.max is None; self.min is None
return V(self.max)
    !Lt(V(self.a), V(self.b) +V(self.min)); Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is Some
    Lt(V(self.b) +V(self.max), V(self.a)); self.max is Some; self.min is None
return V(self.min)
    Lt(V(self.a), V(self.b) +V(self.min)); self.min is Some
## DiscountFactorParameter GeneralBeforeParameter<f64>::before
return 1/powi((V(self.discount_rate) +1), (-self.base_year +year(ts.date)))
## DivisionParameter GeneralBeforeParameter<f64>::before
[accepts]
    !Eq(0, V(self.denominator))
return V(self.numerator)/V(self.denominator)
## DivisionParameter GeneralAfterParameter<f64>::after
[accepts]
    !Eq(0, V(self.denominator))
return V(self.numerator)/V(self.denominator)
## HydropowerTargetParameter GeneralBeforeParameter<f64>::before
[accepts]
    !Lt(inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density), 0); Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is None; self.min_flow is None
    !Lt(inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density), 0); Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is None; self.min_flow is None; self.water_elevation is None
    !Lt(max(V(self.min_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)), 0); Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is None
    !Lt(max(V(self.min_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)), 0); Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is None; self.water_elevation is None
    !Lt(max(V(self.min_flow), min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))), 0); Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0))
    !Lt(max(V(self.min_flow), min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))), 0); Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.water_elevation is None
    !Lt(min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)), 0); Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.min_flow is None
    !Lt(min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)), 0); Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.min_flow is None; self.water_elevation is None
    !Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0))
    !Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.water_elevation is None
return 0
    !Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.water_elevation is Some
    !Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.water_elevation is None
return inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)
    Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is None; self.min_flow is None; self.water_elevation is Some
return inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)
    Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is None; self.min_flow is None; self.water_elevation is None
return max(V(self.min_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))
    Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is None; self.min_flow is Some; self.water_elevation is Some
return max(V(self.min_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))
    Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is None; self.min_flow is Some; self.water_elevation is None
return max(V(self.min_flow), min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)))
    Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is Some; self.min_flow is Some; self.water_elevation is Some
return max(V(self.min_flow), min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)))
    Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is Some; self.min_flow is Some; self.water_elevation is None
return min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))
    Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.max_flow is Some; self.min_flow is None; self.water_elevation is Some
return min(V(self.max_flow), inverse_hydropower_calculation(V(self.target), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density))
    Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.max_flow is Some; self.min_flow is None; self.water_elevation is None
## HydropowerTargetParameter GeneralAfterParameter<f64>::after
return 0
    !Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.water_elevation is Some
    !Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.water_elevation is None
return hydropower_calculation(V(self.actual_flow), max((V(self.water_elevation) -self.turbine_elevation), 0), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)
    Lt(self.turbine_min_head, max((V(self.water_elevation) -self.turbine_elevation), 0)); self.water_elevation is Some
return hydropower_calculation(V(self.actual_flow), max(0, self.turbine_elevation), self.turbine_efficiency, self.flow_unit_conversion, self.energy_unit_conversion, self.water_density)
    Lt(self.turbine_min_head, max(0, self.turbine_elevation)); self.water_elevation is None
## IndexedArrayParameter GeneralBeforeParameter<f64>::before
return get_value(self.metrics[V(self.index_parameter)], p1.network, p1.state)
## InterpolatedParameter GeneralBeforeParameter<f64>::before
[accepts]
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); !Lt(len(list((V(elem(self.points).0), V(elem(self.points).1)))), 2); Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, (V(elem(self.points).0), V(elem(self.points).1))[1].0)
    !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); !Lt(len(list((V(elem(self.points).0), V(elem(self.points).1)))), 2); !self.error_on_bounds; Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, (V(elem(self.points).0), V(elem(self.points).1))[1].0); Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x))
    !Lt(len(list((V(elem(self.points).0), V(elem(self.points).1)))), 2); !self.error_on_bounds; Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0)
leave loop early()
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0)
return ((V(elem(self.points).0), V(elem(self.points).1))[0].0*(V(elem(self.points).0), V(elem(self.points).1))[0].1/(-(V(elem(self.points).0), V(elem(self.points).1))[0].0 +(V(elem(self.points).0), V(elem(self.points).1))[1].0) -(V(elem(self.points).0), V(elem(self.points).1))[0].0*(V(elem(self.points).0), V(elem(self.points).1))[1].1/(-(V(elem(self.points).0), V(elem(self.points).1))[0].0 +(V(elem(self.points).0), V(elem(self.points).1))[1].0) -(V(elem(self.points).0), V(elem(self.points).1))[0].1*V(self.x)/(-(V(elem(self.points).0), V(elem(self.points).1))[0].0 +(V(elem(self.points).0), V(elem(self.points).1))[1].0) +(V(elem(self.points).0), V(elem(self.points).1))[1].1*V(self.x)/(-(V(elem(self.points).0), V(elem(self.points).1))[0].0 +(V(elem(self.points).0), V(elem(self.points).1))[1].0) +(V(elem(self.points).0), V(elem(self.points).1))[0].1)
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); !Lt(abs((V(elem(self.points).0), V(elem(self.points).1))[0].0 -(V(elem(self.points).0), V(elem(self.points).1))[1].0), 1e-06); Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, V(self.x)); Lt(V(self.x), (V(elem(self.points).0), V(elem(self.points).1))[1].0)
return (V(elem(self.points).0), V(elem(self.points).1))[0].1
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, V(self.x)); !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0)
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, V(self.x)); Lt(V(self.x), (V(elem(self.points).0), V(elem(self.points).1))[1].0); Lt(abs((V(elem(self.points).0), V(elem(self.points).1))[0].0 -(V(elem(self.points).0), V(elem(self.points).1))[1].0), 1e-06)
return (V(elem(self.points).0), V(elem(self.points).1))[1].1
    !Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x)); !Lt(V(self.x), (V(elem(self.points).0), V(elem(self.points).1))[1].0); !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); Lt((V(elem(self.points).0), V(elem(self.points).1))[0].0, V(self.x))
return last(list((V(elem(self.points).0), V(elem(self.points).1)))).1
    !Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0); Lt((V(elem(self.points).0), V(elem(self.points).1))[1].0, V(self.x))
return list((V(elem(self.points).0), V(elem(self.points).1)))[0].1
    Lt(V(self.x), list((V(elem(self.points).0), V(elem(self.points).1)))[0].0)
## MaxParameter GeneralBeforeParameter<f64>::before
return max(V(self.metric), self.threshold)
## MinParameter GeneralBeforeParameter<f64>::before
return min(V(self.metric), self.threshold)
## MultiThresholdParameter Parameter::setup
return new(0)
## MultiThresholdParameter GeneralBeforeParameter<u64>::before
MEM := idx(self.thresholds)
    !Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); Lt(MEM, idx(self.thresholds)); self.predicate is EqualTo; self.ratchet
    !Lt(V(elem(self.thresholds)), V(self.metric)); Lt(MEM, idx(self.thresholds)); self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(V(self.metric), V(elem(self.thresholds))); Lt(MEM, idx(self.thresholds)); self.predicate is GreaterThanOrEqualTo; self.ratchet
    Lt(MEM, idx(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    Lt(MEM, idx(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan; self.ratchet
MEM := len(self.thresholds)
    !Lt(V(elem(self.thresholds)), V(self.metric)); Lt(MEM, len(self.thresholds)); self.predicate is GreaterThan; self.ratchet
    !Lt(V(self.metric), V(elem(self.thresholds))); Lt(MEM, len(self.thresholds)); self.predicate is LessThan; self.ratchet
    Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); Lt(MEM, len(self.thresholds)); self.predicate is EqualTo; self.ratchet
    Lt(MEM, len(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo; self.ratchet
    Lt(MEM, len(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo; self.ratchet
leave loop early()
    !Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); self.predicate is EqualTo
    !Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo
    !Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo
    Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan
    Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan
return MEM
    !Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); !Lt(MEM, idx(self.thresholds)); self.predicate is EqualTo; self.ratchet
    !Lt(MEM, idx(self.thresholds)); !Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(MEM, idx(self.thresholds)); !Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo; self.ratchet
    !Lt(MEM, idx(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    !Lt(MEM, idx(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan; self.ratchet
    !Lt(MEM, len(self.thresholds)); !Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    !Lt(MEM, len(self.thresholds)); !Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan; self.ratchet
    !Lt(MEM, len(self.thresholds)); Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); self.predicate is EqualTo; self.ratchet
    !Lt(MEM, len(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(MEM, len(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo; self.ratchet
return idx(self.thresholds)
    !Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); !self.ratchet; self.predicate is EqualTo
    !Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); Lt(MEM, idx(self.thresholds)); self.predicate is EqualTo; self.ratchet
    !Lt(V(elem(self.thresholds)), V(self.metric)); !self.ratchet; self.predicate is LessThanOrEqualTo
    !Lt(V(elem(self.thresholds)), V(self.metric)); Lt(MEM, idx(self.thresholds)); self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(V(self.metric), V(elem(self.thresholds))); !self.ratchet; self.predicate is GreaterThanOrEqualTo
    !Lt(V(self.metric), V(elem(self.thresholds))); Lt(MEM, idx(self.thresholds)); self.predicate is GreaterThanOrEqualTo; self.ratchet
    !self.ratchet; Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan
    !self.ratchet; Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan
    Lt(MEM, idx(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    Lt(MEM, idx(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is LessThan; self.ratchet
return len(self.thresholds)
    !Lt(V(elem(self.thresholds)), V(self.metric)); !self.ratchet; self.predicate is GreaterThan
    !Lt(V(elem(self.thresholds)), V(self.metric)); Lt(MEM, len(self.thresholds)); self.predicate is GreaterThan; self.ratchet
    !Lt(V(self.metric), V(elem(self.thresholds))); !self.ratchet; self.predicate is LessThan
    !Lt(V(self.metric), V(elem(self.thresholds))); Lt(MEM, len(self.thresholds)); self.predicate is LessThan; self.ratchet
    !self.ratchet; Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); self.predicate is EqualTo
    !self.ratchet; Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo
    !self.ratchet; Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo
    Lt(1e-06, abs(-V(elem(self.thresholds)) +V(self.metric))); Lt(MEM, len(self.thresholds)); self.predicate is EqualTo; self.ratchet
    Lt(MEM, len(self.thresholds)); Lt(V(elem(self.thresholds)), V(self.metric)); self.predicate is LessThanOrEqualTo; self.ratchet
    Lt(MEM, len(self.thresholds)); Lt(V(self.metric), V(elem(self.thresholds))); self.predicate is GreaterThanOrEqualTo; self.ratchet
## MuskingumParameter GeneralBeforeParameter<MultiValue>::before
return MultiValue{}
return.indices new()
return.values list
return.values[] ("inflow_factor", (2*V(self.travel_time)*V(self.weight)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) -1/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1))))
    !Lt(ts.index, 1)
    Lt(ts.index, 1); self.initial_condition is Specified
return.values[] ("inflow_factor", -2/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)*(-2*V(self.travel_time)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +2*V(self.travel_time)*V(self.weight)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +1/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +1)))
    Lt(ts.index, 1); self.initial_condition is SteadyState
return.values[] ("rhs", (2*V(self.travel_time)*V(self.weight)*self.initial_condition~Specified.inflow/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) -2*V(self.travel_time)*V(self.weight)*self.initial_condition~Specified.outflow/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +2*V(self.travel_time)*self.initial_condition~Specified.outflow/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +self.initial_condition~Specified.inflow/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) -self.initial_condition~Specified.outflow/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1))))
    Lt(ts.index, 1); self.initial_condition is Specified
return.values[] ("rhs", (V(self.inflow)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +2*V(self.inflow)*V(self.travel_time)*V(self.weight)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) -V(self.outflow)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) +2*V(self.outflow)*V(self.travel_time)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1)) -2*V(self.outflow)*V(self.travel_time)*V(self.weight)/((-2*V(self.travel_time)*V(self.weight) +2*V(self.travel_time) +1))))
    !Lt(ts.index, 1)
return.values[] ("rhs", 0)
    Lt(ts.index, 1); self.initial_condition is SteadyState
## NegativeParameter GeneralBeforeParameter<f64>::before
return -V(self.metric)
## NegativeMaxParameter GeneralBeforeParameter<f64>::before
return max(-V(self.metric), self.threshold)
## NegativeMinParameter GeneralBeforeParameter<f64>::before
return min(-V(self.metric), self.threshold)
## OffsetParameter GeneralBeforeParameter<f64>::before
return (MEM +V(self.metric))
    MEM is Some
return (V(self.metric) +self.offset)
    MEM is None
## Polynomial1DParameter GeneralBeforeParameter<f64>::before
return (acc(0) +elem(self.coefficients)*powi((V(self.metric)*self.scale +self.offset), idx(self.coefficients)))
## DailyProfileParameter SimpleParameter<f64>::compute
return self.values[(day_of_year(ts.date) -1)]
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60)
    in_leap_year(ts.date)
return self.values[day_of_year(ts.date)]
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date)
## DiurnalProfileParameter SimpleParameter<f64>::compute
return self.values[hour(time(ts.date))]
## MonthlyProfileParameter SimpleParameter<f64>::compute
[accepts]
    self.interp_day is First|Last|None
return (-as_secs_f64(duration_since(ts.date, start_of_day(first_of_month(ts.date))))*self.values[(month(ts.date) -1)]/as_secs_f64(duration_since(start_of_day(first_of_month(checked_add(ts.date, months(1)))), start_of_day(first_of_month(ts.date)))) +as_secs_f64(duration_since(ts.date, start_of_day(first_of_month(ts.date))))*self.values[Rem(month(ts.date), 12)]/as_secs_f64(duration_since(start_of_day(first_of_month(checked_add(ts.date, months(1)))), start_of_day(first_of_month(ts.date)))) +self.values[(month(ts.date) -1)])
    self.interp_day is Some; self.interp_day? is First
return (as_secs_f64(duration_since(ts.date, start_of_day(last_of_month(checked_add(ts.date, -months(1))))))*self.values[(month(ts.date) -1)]/as_secs_f64(duration_since(start_of_day(last_of_month(ts.date)), start_of_day(last_of_month(checked_add(ts.date, -months(1)))))) -as_secs_f64(duration_since(ts.date, start_of_day(last_of_month(checked_add(ts.date, -months(1))))))*self.values[(month(ts.date) -2)]/as_secs_f64(duration_since(start_of_day(last_of_month(ts.date)), start_of_day(last_of_month(checked_add(ts.date, -months(1)))))) +self.values[(month(ts.date) -2)])
    !Eq(1, month(ts.date)); self.interp_day is Some; self.interp_day? is Last
return (as_secs_f64(duration_since(ts.date, start_of_day(last_of_month(checked_add(ts.date, -months(1))))))*self.values[(month(ts.date) -1)]/as_secs_f64(duration_since(start_of_day(last_of_month(ts.date)), start_of_day(last_of_month(checked_add(ts.date, -months(1)))))) -as_secs_f64(duration_since(ts.date, start_of_day(last_of_month(checked_add(ts.date, -months(1))))))*self.values[11]/as_secs_f64(duration_since(start_of_day(last_of_month(ts.date)), start_of_day(last_of_month(checked_add(ts.date, -months(1)))))) +self.values[11])
    Eq(1, month(ts.date)); self.interp_day is Some; self.interp_day? is Last
return self.values[(month(ts.date) -1)]
    self.interp_day is None
## UniformDrawdownProfileParameter SimpleParameter<f64>::compute
return (7.46513780644e-06*day_of_year(ts.date)*self.residual_days -0.00273224043716*day_of_year(ts.date) -7.46513780644e-06*self.reset_doy*self.residual_days +0.00273224043716*self.reset_doy +0.00272477529935*self.residual_days +0.00273224043716)
    !Lt(day_of_year(ts.date), 61); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); is_leap_year((year(ts.date) -1))
    !Lt(day_of_year(ts.date), 61); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year((year(ts.date) -1))
return (7.46513780644e-06*day_of_year(ts.date)*self.residual_days -0.00273224043716*day_of_year(ts.date) -7.46513780644e-06*self.reset_doy*self.residual_days +0.00273224043716*self.reset_doy +0.00273224043716*self.residual_days)
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date) +1, self.reset_doy); Lt(self.reset_doy, 61); is_leap_year((year(ts.date) -1))
    !Lt(self.reset_doy, 61); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy); is_leap_year(year(ts.date))
    !Lt(self.reset_doy, 61); Lt(day_of_year(ts.date), self.reset_doy); in_leap_year(ts.date); is_leap_year(year(ts.date))
    !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); is_leap_year((year(ts.date) -1))
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); is_leap_year((year(ts.date) -1)); is_leap_year(year(ts.date))
    !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year((year(ts.date) -1))
    Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year((year(ts.date) -1)); is_leap_year(year(ts.date))
return (7.46513780644e-06*day_of_year(ts.date)*self.residual_days -0.00273224043716*day_of_year(ts.date) -7.46513780644e-06*self.reset_doy*self.residual_days +0.00273224043716*self.reset_doy +0.00273970557496*self.residual_days -0.00273224043716)
    !Lt(day_of_year(ts.date), 60); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); Lt(day_of_year(ts.date) +1, self.reset_doy); is_leap_year(year(ts.date))
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(day_of_year(ts.date) +1, self.reset_doy); Lt(self.reset_doy, 61); is_leap_year((year(ts.date) -1)); is_leap_year(year(ts.date))
return (7.46513780644e-06*day_of_year(ts.date)*self.residual_days -0.00273224043716*day_of_year(ts.date) -7.46513780644e-06*self.reset_doy*self.residual_days +0.00273224043716*self.reset_doy +1)
    !Lt(day_of_year(ts.date), self.reset_doy); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); is_leap_year((year(ts.date) +1))
    !Lt(day_of_year(ts.date), self.reset_doy); !Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year((year(ts.date) +1))
    !Lt(day_of_year(ts.date), self.reset_doy); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(self.reset_doy, 61); is_leap_year(year(ts.date))
    !Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year(year(ts.date))
return (7.46513780644e-06*day_of_year(ts.date)*self.residual_days -0.00273224043716*day_of_year(ts.date) -7.46513780644e-06*self.reset_doy*self.residual_days +0.00273224043716*self.reset_doy +7.46513780644e-06*self.residual_days +0.997267759563)
    !Lt(day_of_year(ts.date) +1, self.reset_doy); !Lt(day_of_year(ts.date), 60); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); is_leap_year((year(ts.date) +1))
    !Lt(day_of_year(ts.date) +1, self.reset_doy); !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(self.reset_doy, 61); is_leap_year(year(ts.date))
return (7.5060987052e-06*day_of_year(ts.date)*self.residual_days -0.0027397260274*day_of_year(ts.date) -7.5060987052e-06*self.reset_doy*self.residual_days +0.0027397260274*self.reset_doy +0.0027397260274*self.residual_days)
    !Lt(day_of_year(ts.date), 61); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy)
    !Lt(day_of_year(ts.date), 61); !Lt(self.reset_doy, 61); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), self.reset_doy); in_leap_year(ts.date)
    !Lt(day_of_year(ts.date), 61); !in_leap_year(ts.date); !is_leap_year((year(ts.date) -1)); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61)
    !Lt(day_of_year(ts.date), 61); !is_leap_year((year(ts.date) -1)); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date)
return (7.5060987052e-06*day_of_year(ts.date)*self.residual_days -0.0027397260274*day_of_year(ts.date) -7.5060987052e-06*self.reset_doy*self.residual_days +0.0027397260274*self.reset_doy +0.0027472321261*self.residual_days -0.0027397260274)
    !Lt(day_of_year(ts.date), 60); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date) +1, self.reset_doy)
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); !is_leap_year((year(ts.date) -1)); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date) +1, self.reset_doy); Lt(self.reset_doy, 61)
    !Lt(self.reset_doy, 61); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy)
    !Lt(self.reset_doy, 61); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy); in_leap_year(ts.date)
    !in_leap_year(ts.date); !is_leap_year((year(ts.date) -1)); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61)
    !in_leap_year(ts.date); !is_leap_year((year(ts.date) -1)); Lt(day_of_year(ts.date), 60); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); is_leap_year(year(ts.date))
    !is_leap_year((year(ts.date) -1)); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 61); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date)
    !is_leap_year((year(ts.date) -1)); Lt(day_of_year(ts.date), self.reset_doy); Lt(self.reset_doy, 61); in_leap_year(ts.date); is_leap_year(year(ts.date))
return (7.5060987052e-06*day_of_year(ts.date)*self.residual_days -0.0027397260274*day_of_year(ts.date) -7.5060987052e-06*self.reset_doy*self.residual_days +0.0027397260274*self.reset_doy +0.00275473822481*self.residual_days -0.00547945205479)
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); !is_leap_year((year(ts.date) -1)); Lt(day_of_year(ts.date) +1, self.reset_doy); Lt(self.reset_doy, 61); is_leap_year(year(ts.date))
return (7.5060987052e-06*day_of_year(ts.date)*self.residual_days -0.0027397260274*day_of_year(ts.date) -7.5060987052e-06*self.reset_doy*self.residual_days +0.0027397260274*self.reset_doy +1)
    !Lt(day_of_year(ts.date), self.reset_doy); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); !is_leap_year((year(ts.date) +1)); Lt(day_of_year(ts.date), 60)
    !Lt(day_of_year(ts.date), self.reset_doy); !Lt(self.reset_doy, 61); !is_leap_year((year(ts.date) +1)); in_leap_year(ts.date)
    !Lt(day_of_year(ts.date), self.reset_doy); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(day_of_year(ts.date), 60); Lt(self.reset_doy, 61)
    !Lt(day_of_year(ts.date), self.reset_doy); !is_leap_year(year(ts.date)); Lt(self.reset_doy, 61); in_leap_year(ts.date)
return (7.5060987052e-06*day_of_year(ts.date)*self.residual_days -0.0027397260274*day_of_year(ts.date) -7.5060987052e-06*self.reset_doy*self.residual_days +0.0027397260274*self.reset_doy +7.5060987052e-06*self.residual_days +0.997260273973)
    !Lt(day_of_year(ts.date) +1, self.reset_doy); !Lt(day_of_year(ts.date), 60); !Lt(self.reset_doy, 61); !in_leap_year(ts.date); !is_leap_year((year(ts.date) +1))
    !Lt(day_of_year(ts.date) +1, self.reset_doy); !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); !is_leap_year(year(ts.date)); Lt(self.reset_doy, 61)
## WeeklyProfileParameter SimpleParameter<f64>::compute
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) -1)] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) -1)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) -1)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +1.14285714286*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) -1)] -0.142857142857*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)])
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 1); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 1); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) -1)] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) -1)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) -1)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) -1)])
    !Lt(day_of_year(ts.date), 60); !Lt(min(0.142857142857*day_of_year(ts.date), 52), 1); !in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[52] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[52] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[52] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +1.14285714286*self.values~FiftyThree.0[52] -0.142857142857*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)])
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 1); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
    Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 1); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[52] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[52] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[52] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +self.values~FiftyThree.0[52])
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(min(0.142857142857*day_of_year(ts.date), 52), 1); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyThree
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) -1)] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) -1)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) -1)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +1.14285714286*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) -1)] -0.142857142857*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)])
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 1); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 1); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) -1)] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) -1)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) -1)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) -1)])
    !Lt(day_of_year(ts.date), 60); !Lt(min(0.142857142857*day_of_year(ts.date), 51), 1); !in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[51] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[51] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[51] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +1.14285714286*self.values~FiftyTwo.0[51] -0.142857142857*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)])
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 1); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
    Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 1); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
return (-1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[51] +1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[51] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[51] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +self.values~FiftyTwo.0[51])
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(min(0.142857142857*day_of_year(ts.date), 51), 1); self.interp_day is Some; self.interp_day? is Last; self.values is FiftyTwo
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) +1)] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) +1)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) +1)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -0.142857142857*self.values~FiftyThree.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52) +1)] +1.14285714286*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)])
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 52); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
    Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 52); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) +1)] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) +1)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[(min(0.142857142857*day_of_year(ts.date), 52) +1)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)])
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(min(0.142857142857*day_of_year(ts.date), 52), 52); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[0] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[0] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[0] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)] -0.142857142857*self.values~FiftyThree.0[0] +1.14285714286*self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)])
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 52); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52), 52); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[0] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[0] -0.142857142857*day_of_year(ts.date)*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[0] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)] +self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)])
    !Lt(day_of_year(ts.date), 60); !Lt(min(0.142857142857*day_of_year(ts.date), 52), 52); !in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyThree
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) +1)] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) +1)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) +1)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -0.142857142857*self.values~FiftyTwo.0[(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51) +1)] +1.14285714286*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)])
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 51); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
    Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 51); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) +1)] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) +1)] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[(min(0.142857142857*day_of_year(ts.date), 51) +1)] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)])
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); Lt(min(0.142857142857*day_of_year(ts.date), 51), 51); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[0] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[0] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[0] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date) -0.142857142857))*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)] -0.142857142857*self.values~FiftyTwo.0[0] +1.14285714286*self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)])
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 51); !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
    !Lt(min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51), 51); in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
return (1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[0] -1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[0] -0.142857142857*day_of_year(ts.date)*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] -floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[0] +floor((1.65343915344e-06*as_secs_f64(duration_since(ts.date, start_of_day(ts.date))) +0.142857142857*day_of_year(ts.date)))*self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)] +self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)])
    !Lt(day_of_year(ts.date), 60); !Lt(min(0.142857142857*day_of_year(ts.date), 51), 51); !in_leap_year(ts.date); self.interp_day is Some; self.interp_day? is First; self.values is FiftyTwo
return self.values~FiftyThree.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 52)]
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is None; self.values is FiftyThree
    in_leap_year(ts.date); self.interp_day is None; self.values is FiftyThree
return self.values~FiftyThree.0[min(0.142857142857*day_of_year(ts.date), 52)]
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); self.interp_day is None; self.values is FiftyThree
return self.values~FiftyTwo.0[min((0.142857142857*day_of_year(ts.date) -0.142857142857), 51)]
    !in_leap_year(ts.date); Lt(day_of_year(ts.date), 60); self.interp_day is None; self.values is FiftyTwo
    in_leap_year(ts.date); self.interp_day is None; self.values is FiftyTwo
return self.values~FiftyTwo.0[min(0.142857142857*day_of_year(ts.date), 51)]
    !Lt(day_of_year(ts.date), 60); !in_leap_year(ts.date); self.interp_day is None; self.values is FiftyTwo
## RollingParameter<f64> Parameter::setup
return new(new())
## RollingParameter<u64> Parameter::setup
return new(new())
## RollingParameter<MetricF64,f64,AggFuncF64> GeneralBeforeParameter<f64>::before
leave loop early()
    !Lt(len(MEM), self.min_values); Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
return (acc(0) +elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Sum
return (acc(0)/size_hint(MEM).0 +elem(MEM)/size_hint(MEM).0)
    !Lt(len(MEM), self.min_values); !Lt(size_hint(MEM).0, 1); self.agg_func is Mean
return 0
    !Lt(len(MEM), self.min_values); Lt(size_hint(MEM).0, 1); self.agg_func is Mean
return acc(1)*elem(MEM)
    !Lt(len(MEM), self.min_values); self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, MEM)))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    !Lt(len(MEM), self.min_values); self.agg_func is Python
return count(filter(MEM, |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    !Lt(len(MEM), self.min_values); self.agg_func is CountFunc
return count(filter(MEM, |false if Eq(0, xa) / true if !Eq(0, xa)|))
    !Lt(len(MEM), self.min_values); self.agg_func is CountNonZero
return false
    !Lt(len(MEM), self.min_values); !Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Max
return min(acc(1.79769313486e+308), elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Min
return self.initial_value
    Lt(len(MEM), self.min_values)
return true
    !Lt(len(MEM), self.min_values); Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
## RollingParameter<MetricF64,f64,AggFuncF64> GeneralAfterParameterHook<f64>::after
pop_front(MEM)
    Lt(self.window_size, len(MEM))
push_back(MEM, V(self.metric))
## RollingParameter<SimpleMetricF64,f64,AggFuncF64> SimpleParameter<f64>::compute
leave loop early()
    !Lt(len(MEM), self.min_values); Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
pop_front(MEM)
    Lt(self.window_size, len(MEM))
push_back(MEM, V(self.metric))
return (acc(0) +elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Sum
return (acc(0)/size_hint(MEM).0 +elem(MEM)/size_hint(MEM).0)
    !Lt(len(MEM), self.min_values); !Lt(size_hint(MEM).0, 1); self.agg_func is Mean
return 0
    !Lt(len(MEM), self.min_values); Lt(size_hint(MEM).0, 1); self.agg_func is Mean
return acc(1)*elem(MEM)
    !Lt(len(MEM), self.min_values); self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, MEM)))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    !Lt(len(MEM), self.min_values); self.agg_func is Python
return count(filter(MEM, |false if !?(self.agg_func~CountFunc.func, xa) / true if ?(self.agg_func~CountFunc.func, xa)|))
    !Lt(len(MEM), self.min_values); self.agg_func is CountFunc
return count(filter(MEM, |false if Eq(0, xa) / true if !Eq(0, xa)|))
    !Lt(len(MEM), self.min_values); self.agg_func is CountNonZero
return false
    !Lt(len(MEM), self.min_values); !Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
return max(acc(-1.79769313486e+308), elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Max
return min(acc(1.79769313486e+308), elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Min
return self.initial_value
    Lt(len(MEM), self.min_values)
return true
    !Lt(len(MEM), self.min_values); Lt(self.agg_func~AnyNonZero.tolerance, abs(-elem(MEM))); self.agg_func is AnyNonZero
## RollingParameter<MetricU64,u64,AggFuncU64> GeneralBeforeParameter<u64>::before
leave loop early()
    !Lt(elem(MEM), 1); !Lt(len(MEM), self.min_values); self.agg_func is Any
    !Lt(len(MEM), self.min_values); Lt(elem(MEM), 1); self.agg_func is All
return (acc(0) +elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Sum
return 0
    !Lt(len(MEM), self.min_values); max(MEM) is None; self.agg_func is Max
return 1.84467440737e+19
    !Lt(len(MEM), self.min_values); min(MEM) is None; self.agg_func is Min
return acc(1)*elem(MEM)
    !Lt(len(MEM), self.min_values); self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, MEM)))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    !Lt(len(MEM), self.min_values); self.agg_func is Python
return false
    !Lt(len(MEM), self.min_values); Lt(elem(MEM), 1); self.agg_func is All|Any
return max(MEM)
    !Lt(len(MEM), self.min_values); max(MEM) is Some; self.agg_func is Max
return min(MEM)
    !Lt(len(MEM), self.min_values); min(MEM) is Some; self.agg_func is Min
return self.initial_value
    Lt(len(MEM), self.min_values)
return true
    !Lt(elem(MEM), 1); !Lt(len(MEM), self.min_values); self.agg_func is All|Any
## RollingParameter<MetricU64,u64,AggFuncU64> GeneralAfterParameterHook<u64>::after
pop_front(MEM)
    Lt(self.window_size, len(MEM))
push_back(MEM, V(self.metric))
## RollingParameter<SimpleMetricU64,u64,AggFuncU64> SimpleParameter<u64>::compute
leave loop early()
    !Lt(elem(MEM), 1); !Lt(len(MEM), self.min_values); self.agg_func is Any
    !Lt(len(MEM), self.min_values); Lt(elem(MEM), 1); self.agg_func is All
pop_front(MEM)
    Lt(self.window_size, len(MEM))
push_back(MEM, V(self.metric))
return (acc(0) +elem(MEM))
    !Lt(len(MEM), self.min_values); self.agg_func is Sum
return 0
    !Lt(len(MEM), self.min_values); max(MEM) is None; self.agg_func is Max
return 1.84467440737e+19
    !Lt(len(MEM), self.min_values); min(MEM) is None; self.agg_func is Min
return acc(1)*elem(MEM)
    !Lt(len(MEM), self.min_values); self.agg_func is Product
return attach(|extract(call(self.agg_func~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, MEM)))), as_sequence(bind(self.agg_func~Python.0.0.args, xa)))), bind(self.agg_func~Python.0.0.kwargs, xa)), xa)|)
    !Lt(len(MEM), self.min_values); self.agg_func is Python
return false
    !Lt(len(MEM), self.min_values); Lt(elem(MEM), 1); self.agg_func is All|Any
return max(MEM)
    !Lt(len(MEM), self.min_values); max(MEM) is Some; self.agg_func is Max
return min(MEM)
    !Lt(len(MEM), self.min_values); min(MEM) is Some; self.agg_func is Min
return self.initial_value
    Lt(len(MEM), self.min_values)
return true
    !Lt(elem(MEM), 1); !Lt(len(MEM), self.min_values); self.agg_func is All|Any
## ThresholdParameter Parameter::setup
return new(false)
## ThresholdParameter GeneralBeforeParameter<u64>::before
MEM := true
    !Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); !MEM; self.predicate is EqualTo; self.ratchet
    !Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); !self.ratchet; self.predicate is EqualTo
    !Lt(V(self.metric), V(self.threshold)); !MEM; self.predicate is GreaterThanOrEqualTo; self.ratchet
    !Lt(V(self.metric), V(self.threshold)); !self.ratchet; self.predicate is GreaterThanOrEqualTo
    !Lt(V(self.threshold), V(self.metric)); !MEM; self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(V(self.threshold), V(self.metric)); !self.ratchet; self.predicate is LessThanOrEqualTo
    !MEM; Lt(V(self.metric), V(self.threshold)); self.predicate is LessThan; self.ratchet
    !MEM; Lt(V(self.threshold), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    !self.ratchet; Lt(V(self.metric), V(self.threshold)); self.predicate is LessThan
    !self.ratchet; Lt(V(self.threshold), V(self.metric)); self.predicate is GreaterThan
return 0
    !Lt(V(self.metric), V(self.threshold)); !MEM; self.predicate is LessThan; self.ratchet
    !Lt(V(self.metric), V(self.threshold)); !self.ratchet; self.predicate is LessThan
    !Lt(V(self.threshold), V(self.metric)); !MEM; self.predicate is GreaterThan; self.ratchet
    !Lt(V(self.threshold), V(self.metric)); !self.ratchet; self.predicate is GreaterThan
    !MEM; Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); self.predicate is EqualTo; self.ratchet
    !MEM; Lt(V(self.metric), V(self.threshold)); self.predicate is GreaterThanOrEqualTo; self.ratchet
    !MEM; Lt(V(self.threshold), V(self.metric)); self.predicate is LessThanOrEqualTo; self.ratchet
    !self.ratchet; Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); self.predicate is EqualTo
    !self.ratchet; Lt(V(self.metric), V(self.threshold)); self.predicate is GreaterThanOrEqualTo
    !self.ratchet; Lt(V(self.threshold), V(self.metric)); self.predicate is LessThanOrEqualTo
return 1
    !Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); !MEM; self.predicate is EqualTo; self.ratchet
    !Lt(1e-06, abs(-V(self.metric) +V(self.threshold))); !self.ratchet; self.predicate is EqualTo
    !Lt(V(self.metric), V(self.threshold)); !MEM; self.predicate is GreaterThanOrEqualTo; self.ratchet
    !Lt(V(self.metric), V(self.threshold)); !self.ratchet; self.predicate is GreaterThanOrEqualTo
    !Lt(V(self.threshold), V(self.metric)); !MEM; self.predicate is LessThanOrEqualTo; self.ratchet
    !Lt(V(self.threshold), V(self.metric)); !self.ratchet; self.predicate is LessThanOrEqualTo
    !MEM; Lt(V(self.metric), V(self.threshold)); self.predicate is LessThan; self.ratchet
    !MEM; Lt(V(self.threshold), V(self.metric)); self.predicate is GreaterThan; self.ratchet
    !self.ratchet; Lt(V(self.metric), V(self.threshold)); self.predicate is LessThan
    !self.ratchet; Lt(V(self.threshold), V(self.metric)); self.predicate is GreaterThan
    MEM; self.ratchet
## VectorParameter GeneralBeforeParameter<f64>::before
return self.values[ts.index]
## ActivationFunction::apply
return (clamp(p1, lower_bound(self), upper_bound(self))*self~Rectifier.max -clamp(p1, lower_bound(self), upper_bound(self))*self~Rectifier.min +self~Rectifier.min)
    Lt(0, clamp(p1, lower_bound(self), upper_bound(self))); self is Rectifier
return clamp(p1, lower_bound(self), upper_bound(self))
    self is Unit
return self~BinaryStep.neg_value
    !Lt(0, clamp(p1, lower_bound(self), upper_bound(self))); self is BinaryStep
return self~BinaryStep.pos_value
    Lt(0, clamp(p1, lower_bound(self), upper_bound(self))); self is BinaryStep
return self~Logistic.max/((exp(-clamp(p1, lower_bound(self), upper_bound(self))*self~Logistic.growth_rate) +1))
    self is Logistic
return self~Rectifier.neg_value
    !Lt(0, clamp(p1, lower_bound(self), upper_bound(self))); self is Rectifier
## ActivationFunction::lower_bound
return -1
    self is BinaryStep|Rectifier
return -6
    self is Logistic
return self~Unit.min
    self is Unit
## ActivationFunction::upper_bound
return 1
    self is BinaryStep|Rectifier
return 6
    self is Logistic
return self~Unit.max
    self is Unit
## interpolate::interpolate
return (-p0*p3/(-p1 +p2) +p0*p4/(-p1 +p2) +p1*p3/(-p1 +p2) -p1*p4/(-p1 +p2) +p3)
    !Lt(abs(-p1 +p2), 1e-06); Lt(p0, p2); Lt(p1, p0)
return p3
    !Lt(p1, p0)
    Lt(abs(-p1 +p2), 1e-06); Lt(p0, p2); Lt(p1, p0)
return p4
    !Lt(p0, p2); Lt(p1, p0)
## interpolate::linear_interpolation
[accepts]
    !Lt(elem(p1)[1].0, p0); !Lt(len(p1), 2); !Lt(p0, p1[0].0); Lt(elem(p1)[0].0, elem(p1)[1].0)
    !Lt(len(p1), 2); !Lt(p0, p1[0].0); !p2; Lt(elem(p1)[0].0, elem(p1)[1].0); Lt(elem(p1)[1].0, p0)
    !Lt(len(p1), 2); !p2; Lt(p0, p1[0].0)
leave loop early()
    !Lt(elem(p1)[1].0, p0); !Lt(p0, p1[0].0)
return interpolate(p0, elem(p1)[0].0, elem(p1)[1].0, elem(p1)[0].1, elem(p1)[1].1)
    !Lt(elem(p1)[1].0, p0); !Lt(p0, p1[0].0)
return last(p1).1
    !Lt(p0, p1[0].0); Lt(elem(p1)[1].0, p0)
return p1[0].1
    Lt(p0, p1[0].0)
## utils::inverse_hydropower_calculation
return 0.101936799185*p0/(p1*p2*p3*p4*p5)
## utils::hydropower_calculation
return 9.81*p0*p1*p2*p3*p4*p5
