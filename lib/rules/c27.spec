## PyAggFunc::new
return PyAggFunc{0: new(PyAggFuncInner{args: p1, function: p0, kwargs: p2})}
## PyAggFunc::call_f64
return attach(|extract(call(self.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, p1)))), as_sequence(bind(self.0.args, xa)))), bind(self.0.kwargs, xa)), xa)|)
## PyAggFunc::call_u64
return attach(|extract(call(self.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, p1)))), as_sequence(bind(self.0.args, xa)))), bind(self.0.kwargs, xa)), xa)|)
## AggFuncF64::calc_period_values
leave loop early()
    Lt(self~AnyNonZero.tolerance, abs(-elem(p1).value)); self is AnyNonZero
return (acc(0) +elem(p1).value)
    self is Sum
return (acc(0)/((acc(0) +1.15740740741e-05*as_secs_f64(elem(p1).duration.0))) +1.15740740741e-05*as_secs_f64(elem(p1).duration.0)*elem(p1).value/((acc(0) +1.15740740741e-05*as_secs_f64(elem(p1).duration.0))))
    !Eq(0, acc(0) +1.15740740741e-05*as_secs_f64(elem(p1).duration.0)); self is Mean
return acc(1)*elem(p1).value
    self is Product
return attach(|extract(call(self~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, list(elem(p1).value))))), as_sequence(bind(self~Python.0.0.args, xa)))), bind(self~Python.0.0.kwargs, xa)), xa)|)
    self is Python
return count(filter(p1, |false if !?(self~CountFunc.func, xa.value) / true if ?(self~CountFunc.func, xa.value)|))
    self is CountFunc
return count(filter(p1, |false if Eq(0, xa.value) / true if !Eq(0, xa.value)|))
    self is CountNonZero
return false
    !Lt(self~AnyNonZero.tolerance, abs(-elem(p1).value)); self is AnyNonZero
return max_by(map(p1, |xa.value|), |partial_cmp(xa, xb)|)
    self is Max
return min_by(map(p1, |xa.value|), |partial_cmp(xa, xb)|)
    self is Min
return none
    Eq(0, acc(0) +1.15740740741e-05*as_secs_f64(elem(p1).duration.0)); self is Mean
return true
    Lt(self~AnyNonZero.tolerance, abs(-elem(p1).value)); self is AnyNonZero
## AggFuncF64::calc_iter_f64
leave loop early()
    Lt(self~AnyNonZero.tolerance, abs(-elem(p1))); self is AnyNonZero
return (acc(0) +elem(p1))
    self is Sum
return (acc(0)/size_hint(p1).0 +elem(p1)/size_hint(p1).0)
    !Lt(size_hint(p1).0, 1); self is Mean
return 0
    Lt(size_hint(p1).0, 1); self is Mean
return acc(1)*elem(p1)
    self is Product
return attach(|extract(call(self~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, p1)))), as_sequence(bind(self~Python.0.0.args, xa)))), bind(self~Python.0.0.kwargs, xa)), xa)|)
    self is Python
return count(filter(p1, |false if !?(self~CountFunc.func, xa) / true if ?(self~CountFunc.func, xa)|))
    self is CountFunc
return count(filter(p1, |false if Eq(0, xa) / true if !Eq(0, xa)|))
    self is CountNonZero
return false
    !Lt(self~AnyNonZero.tolerance, abs(-elem(p1))); self is AnyNonZero
return max(acc(-1.79769313486e+308), elem(p1))
    self is Max
return min(acc(1.79769313486e+308), elem(p1))
    self is Min
return true
    Lt(self~AnyNonZero.tolerance, abs(-elem(p1))); self is AnyNonZero
## AggFuncU64::calc_iter_u64
leave loop early()
    !Lt(elem(p1), 1); self is Any
    Lt(elem(p1), 1); self is All
return (acc(0) +elem(p1))
    self is Sum
return 0
    max(p1) is None; self is Max
return 1.84467440737e+19
    min(p1) is None; self is Min
return acc(1)*elem(p1)
    self is Product
return attach(|extract(call(self~Python.0.0.function, xa, to_tuple(concat(into_sequence(new(xa, (new(xa, p1)))), as_sequence(bind(self~Python.0.0.args, xa)))), bind(self~Python.0.0.kwargs, xa)), xa)|)
    self is Python
return false
    Lt(elem(p1), 1); self is All|Any
return max(p1)
    max(p1) is Some; self is Max
return min(p1)
    min(p1) is Some; self is Min
return true
    !Lt(elem(p1), 1); self is All|Any
