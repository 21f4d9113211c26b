## <ConstParameterIndex<T> as Clone>::clone
return self
## <ConstParameterIndex<T> as PartialEq<ConstParameterIndex<T>>>::eq
return false
    !Eq(p1.idx, self.idx)
return true
    Eq(p1.idx, self.idx)
## <ConstParameterIndex<T> as Deref>::deref
return self.idx
## <SimpleParameterIndex<T> as Clone>::clone
return self
## <SimpleParameterIndex<T> as PartialEq<SimpleParameterIndex<T>>>::eq
return false
    !Eq(p1.idx, self.idx)
return true
    Eq(p1.idx, self.idx)
## <SimpleParameterIndex<T> as Deref>::deref
return self.idx
## <GeneralParameterIndex<T> as Clone>::clone
return self
## <GeneralParameterIndex<T> as PartialEq<GeneralParameterIndex<T>>>::eq
return false
    !Eq(p1.idx, self.idx)
return true
    Eq(p1.idx, self.idx)
## <GeneralParameterIndex<T> as Deref>::deref
return self.idx
## <GeneralParameterIndex<T> as Hash>::hash

## <GeneralBeforeValueIndex<T> as Clone>::clone
return self
## <GeneralBeforeValueIndex<T> as Deref>::deref
return self.idx
## <GeneralBeforeValueIndex<T> as PartialEq<GeneralBeforeValueIndex<T>>>::eq
return false
    !Eq(p1.idx, self.idx)
return true
    Eq(p1.idx, self.idx)
## <GeneralAfterValueIndex<T> as Clone>::clone
return self
## <GeneralAfterValueIndex<T> as Deref>::deref
return self.idx
## <GeneralAfterValueIndex<T> as PartialEq<GeneralAfterValueIndex<T>>>::eq
return false
    !Eq(p1.idx, self.idx)
return true
    Eq(p1.idx, self.idx)
## <GeneralParameterRegistration<T> as Clone>::clone
return self
## <ParameterIndex<T> as PartialEq<ParameterIndex<T>>>::eq
return false
    !Eq(p1~Const.0, self~Const.0); p1 is Const; self is Const
    !Eq(p1~General.0, self~General.0); p1 is General; self is General
    !Eq(p1~Simple.0, self~Simple.0); p1 is Simple; self is Simple
    p1 is Const|General; self is Simple
    p1 is Const|Simple; self is General
    p1 is General|Simple; self is Const
return true
    Eq(p1~Const.0, self~Const.0); p1 is Const; self is Const
    Eq(p1~General.0, self~General.0); p1 is General; self is General
    Eq(p1~Simple.0, self~Simple.0); p1 is Simple; self is Simple
## <ParameterIndex<T> as From<GeneralParameterRegistration<T>>>::from
return General{0: p0}
## <ParameterIndex<T> as From<SimpleParameterIndex<T>>>::from
return Simple{0: p0}
## <ParameterIndex<T> as From<ConstParameterIndex<T>>>::from
return Const{0: p0}
## ParameterName::new
return ParameterName{}
return.name p0
return.parent none
    p1 is None
return.parent p1
    p1 is Some
return.sub_name none
## ParameterName::new_with_subname
return ParameterName{}
return.name p0
return.parent none
    p2 is None
return.parent p2
    p2 is Some
return.sub_name none
    p1 is None
return.sub_name p1
    p1 is Some
## ParameterName::name
return self.name
## ParameterName::parent
return self.parent
## <ParameterName as From<&str>>::from
return ParameterName{}
return.name p0
return.parent none
return.sub_name none
## ParameterMeta::new
return ParameterMeta{name: p0}
## <T as ParameterState>::as_any
return self
## <T as ParameterState>::as_any_mut
return self
## ParameterStates::from_collection
return ParameterStates{}
return.constant ParameterStatesByType{}
return.constant.f64 list
return.constant.f64[] setup(elem(p0.constant_f64).0, p1, scen)
return.constant.multi list
return.constant.multi[] setup(elem(p0.constant_multi).0, p1, scen)
return.constant.u64 list
return.constant.u64[] setup(elem(p0.constant_u64).0, p1, scen)
return.general ParameterStatesByType{}
return.general.f64 list
return.general.f64[] setup(elem(p0.general_f64).parameter, p1, scen)
return.general.multi list
return.general.multi[] setup(elem(p0.general_multi).parameter, p1, scen)
return.general.u64 list
return.general.u64[] setup(elem(p0.general_u64).parameter, p1, scen)
return.simple ParameterStatesByType{}
return.simple.f64 list
return.simple.f64[] setup(elem(p0.simple_f64).0, p1, scen)
return.simple.multi list
return.simple.multi[] setup(elem(p0.simple_multi).0, p1, scen)
return.simple.u64 list
return.simple.u64[] setup(elem(p0.simple_u64).0, p1, scen)
## ParameterStates::get_f64_state
return self.constant.f64[p1~Const.0.idx]
    p1 is Const
return self.general.f64[p1~General.0.parameter.idx]
    p1 is General
return self.simple.f64[p1~Simple.0.idx]
    p1 is Simple
## ParameterStates::get_general_f64_state
return self.general.f64[p1.idx]
## ParameterStates::get_simple_f64_state
return self.simple.f64[p1.idx]
## ParameterStates::get_const_f64_state
return self.constant.f64[p1.idx]
## ParameterStates::get_mut_f64_state
return self.constant.f64[p1~Const.0.idx]
    p1 is Const
return self.general.f64[p1~General.0.parameter.idx]
    p1 is General
return self.simple.f64[p1~Simple.0.idx]
    p1 is Simple
## ParameterStates::get_general_mut_f64_state
return self.general.f64[p1.idx]
## ParameterStates::get_simple_mut_f64_state
return self.simple.f64[p1.idx]
## ParameterStates::get_const_mut_f64_state
return self.constant.f64[p1.idx]
## ParameterStates::get_general_mut_u64_state
return self.general.u64[p1.idx]
## ParameterStates::get_simple_mut_u64_state
return self.simple.u64[p1.idx]
## ParameterStates::get_const_mut_u64_state
return self.constant.u64[p1.idx]
## ParameterStates::get_general_mut_multi_state
return self.general.multi[p1.idx]
## ParameterStates::get_simple_mut_multi_state
return self.simple.multi[p1.idx]
## ParameterStates::get_const_mut_multi_state
return self.constant.multi[p1.idx]
## Parameter::name @core
return meta(p0).name
## Parameter::setup
return none
## GeneralParameterEntry<T>::before
return GeneralParameterEntry{}
return.after none
return.before new(p0)
return.parameter new(p0)
## GeneralParameterEntry<T>::after
return GeneralParameterEntry{}
return.after Value{0: new(p0)}
return.before none
return.parameter new(p0)
## GeneralParameterEntry<T>::both
return GeneralParameterEntry{}
return.after Value{0: new(p0)}
return.before new(p0)
return.parameter new(p0)
## GeneralParameterEntry<T>::before_with_after_hook
return GeneralParameterEntry{}
return.after Hook{0: new(p0)}
return.before new(p0)
return.parameter new(p0)
## GeneralParameterEntry<T>::name
return name(self.parameter)
## <MaybeBuiltParameter<T> as From<BuiltParameter<T>>>::from
return Built{0: p0}
## <GeneralParameterType as From<GeneralParameterIndex<f64>>>::from
return Parameter{0: p0}
## <GeneralParameterType as From<GeneralParameterIndex<u64>>>::from
return Index{0: p0}
## <GeneralParameterType as From<GeneralParameterIndex<MultiValue>>>::from
return Multi{0: p0}
## <SimpleParameterType as From<SimpleParameterIndex<f64>>>::from
return Parameter{0: p0}
## <SimpleParameterType as From<SimpleParameterIndex<u64>>>::from
return Index{0: p0}
## <SimpleParameterType as From<SimpleParameterIndex<MultiValue>>>::from
return Multi{0: p0}
## <ConstParameterType as From<ConstParameterIndex<f64>>>::from
return Parameter{0: p0}
## <ConstParameterType as From<ConstParameterIndex<u64>>>::from
return Index{0: p0}
## <ConstParameterType as From<ConstParameterIndex<MultiValue>>>::from
return Multi{0: p0}
## <ParameterType as From<ParameterIndex<f64>>>::from
return Parameter{0: p0}
## <ParameterType as From<ParameterIndex<u64>>>::from
return Index{0: p0}
## <ParameterType as From<ParameterIndex<MultiValue>>>::from
return Multi{0: p0}
## ParameterTiming::before
return self.before
## ParameterTiming::after
return self.after
## ParameterTiming::total
return (self.after +self.before)
## <ParameterCollection as Default>::default
return ParameterCollection{}
return.constant_f64 new()
return.constant_multi new()
return.constant_resolve_order new()
return.constant_u64 new()
return.general_after_order new()
return.general_before_order new()
return.general_f64 new()
return.general_multi new()
return.general_u64 new()
return.id fetch_add({alloc1615: &core::sync::atomic::Atomic<u64>}, 1, Relaxed)
return.num_general_after_f64 0
return.num_general_after_multi 0
return.num_general_after_u64 0
return.num_general_before_f64 0
return.num_general_before_multi 0
return.num_general_before_u64 0
return.simple_f64 new()
return.simple_multi new()
return.simple_resolve_order new()
return.simple_u64 new()
## ParameterCollection::size
return ParameterCollectionStateSize{}
return.const_f64 len(self.constant_f64)
return.const_multi len(self.constant_multi)
return.const_u64 len(self.constant_u64)
return.general_after_f64 self.num_general_after_f64
return.general_after_multi self.num_general_after_multi
return.general_after_u64 self.num_general_after_u64
return.general_before_f64 self.num_general_before_f64
return.general_before_multi self.num_general_before_multi
return.general_before_u64 self.num_general_before_u64
return.simple_f64 len(self.simple_f64)
return.simple_multi len(self.simple_multi)
return.simple_u64 len(self.simple_u64)
## ParameterCollection::has_name
return false
    get_f64_index_by_name(self, p1) is None; get_multi_index_by_name(self, p1) is None; get_u64_index_by_name(self, p1) is None
return true
    get_f64_index_by_name(self, p1) is None; get_multi_index_by_name(self, p1) is Some; get_u64_index_by_name(self, p1) is None
    get_f64_index_by_name(self, p1) is None; get_u64_index_by_name(self, p1) is Some
    get_f64_index_by_name(self, p1) is Some
## ParameterCollection::push_general_f64
[accepts]
    p1.after is Hook|None|Value
push(self.general_after_order, F64{index: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}, op: Hook{parameter: p1.after~Hook.0}})
    p1.after is Some; p1.after? is Hook
push(self.general_after_order, F64{index: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}, op: Value{output: GeneralAfterValueIndex{idx: self.num_general_after_f64, phantom: PhantomData}, parameter: p1.after~Value.0}})
    p1.after is Some; p1.after? is Value
push(self.general_before_order, F64{index: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}, output: GeneralBeforeValueIndex{idx: self.num_general_before_f64, phantom: PhantomData}, parameter: p1.before})
    p1.before is Some
push(self.general_f64, p1)
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_f64, phantom: PhantomData}, before: GeneralBeforeValueIndex{idx: self.num_general_before_f64, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is Some
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_f64, phantom: PhantomData}, before: none, parameter: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is None
return General{0: GeneralParameterRegistration{after: none, before: GeneralBeforeValueIndex{idx: self.num_general_before_f64, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}}}
    p1.after is None; p1.before is Some
    p1.after is Some; p1.after? is Hook; p1.before is Some
return General{0: GeneralParameterRegistration{after: none, before: none, parameter: GeneralParameterIndex{idx: len(self.general_f64), phantom: PhantomData}}}
    p1.after is None; p1.before is None
    p1.after is Some; p1.after? is Hook; p1.before is None
self.num_general_after_f64 := (self.num_general_after_f64 +1)
    p1.after is Some; p1.after? is Value
self.num_general_before_f64 := (self.num_general_before_f64 +1)
    p1.before is Some
## ParameterCollection::get_f64
return as_parameter(self.constant_f64[p1~Const.0.idx].0)
    p1 is Const; self.constant_f64[p1~Const.0.idx] is Some
return as_parameter(self.general_f64[p1~General.0.parameter.idx].parameter)
    p1 is General; self.general_f64[p1~General.0.parameter.idx] is Some
return as_parameter(self.simple_f64[p1~Simple.0.idx].0)
    p1 is Simple; self.simple_f64[p1~Simple.0.idx] is Some
return none
    p1 is Const; self.constant_f64[p1~Const.0.idx] is None
    p1 is General; self.general_f64[p1~General.0.parameter.idx] is None
    p1 is Simple; self.simple_f64[p1~Simple.0.idx] is None
## ParameterCollection::get_general_f64
return self.general_f64[p1.idx]
## ParameterCollection::get_f64_by_name
leave loop early()
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
    Eq(name(elem(self.general_f64).parameter), p1)
return as_parameter(elem(self.constant_f64).0)
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
return as_parameter(elem(self.general_f64).parameter)
    Eq(name(elem(self.general_f64).parameter), p1)
return as_parameter(elem(self.simple_f64).0)
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
return none
    !Eq(name(elem(self.constant_f64).0), p1); !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1)
## ParameterCollection::get_f64_index_by_name
leave loop early()
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
    Eq(name(elem(self.general_f64).parameter), p1)
return ConstParameterIndex{}
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
return GeneralParameterRegistration{}
    Eq(name(elem(self.general_f64).parameter), p1)
return SimpleParameterIndex{}
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
return none
    !Eq(name(elem(self.constant_f64).0), p1); !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1)
return.after elem(self.general_after_order)~F64.op~Value.output
    Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_after_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Value; elem(self.general_after_order)~F64.op~Value.output is Some
return.after none
    !Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_after_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_after_order) is F64
    Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_after_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Hook
    Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_after_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Value; elem(self.general_after_order)~F64.op~Value.output is None
    Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_after_order) is Multi|U64
return.before elem(self.general_before_order)~F64.output
    Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_before_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_before_order) is F64; elem(self.general_before_order)~F64.output is Some
return.before none
    !Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_before_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_before_order) is F64
    Eq(GeneralParameterIndex{idx: idx(self.general_f64), phantom: PhantomData}, elem(self.general_before_order)~F64.index); Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_before_order) is F64; elem(self.general_before_order)~F64.output is None
    Eq(name(elem(self.general_f64).parameter), p1); elem(self.general_before_order) is Multi|U64
return.idx idx(self.constant_f64)
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
return.idx idx(self.simple_f64)
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
return.parameter GeneralParameterIndex{}
    Eq(name(elem(self.general_f64).parameter), p1)
return.parameter.idx idx(self.general_f64)
    Eq(name(elem(self.general_f64).parameter), p1)
return.parameter.phantom PhantomData
    Eq(name(elem(self.general_f64).parameter), p1)
return.phantom PhantomData
    !Eq(name(elem(self.general_f64).parameter), p1); !Eq(name(elem(self.simple_f64).0), p1); Eq(name(elem(self.constant_f64).0), p1)
    !Eq(name(elem(self.general_f64).parameter), p1); Eq(name(elem(self.simple_f64).0), p1)
## ParameterCollection::push_general_u64
[accepts]
    p1.after is Hook|None|Value
push(self.general_after_order, U64{index: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}, op: Hook{parameter: p1.after~Hook.0}})
    p1.after is Some; p1.after? is Hook
push(self.general_after_order, U64{index: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}, op: Value{output: GeneralAfterValueIndex{idx: self.num_general_after_u64, phantom: PhantomData}, parameter: p1.after~Value.0}})
    p1.after is Some; p1.after? is Value
push(self.general_before_order, U64{index: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}, output: GeneralBeforeValueIndex{idx: self.num_general_before_u64, phantom: PhantomData}, parameter: p1.before})
    p1.before is Some
push(self.general_u64, p1)
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_u64, phantom: PhantomData}, before: GeneralBeforeValueIndex{idx: self.num_general_before_u64, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is Some
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_u64, phantom: PhantomData}, before: none, parameter: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is None
return General{0: GeneralParameterRegistration{after: none, before: GeneralBeforeValueIndex{idx: self.num_general_before_u64, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}}}
    p1.after is None; p1.before is Some
    p1.after is Some; p1.after? is Hook; p1.before is Some
return General{0: GeneralParameterRegistration{after: none, before: none, parameter: GeneralParameterIndex{idx: len(self.general_u64), phantom: PhantomData}}}
    p1.after is None; p1.before is None
    p1.after is Some; p1.after? is Hook; p1.before is None
self.num_general_after_u64 := (self.num_general_after_u64 +1)
    p1.after is Some; p1.after? is Value
self.num_general_before_u64 := (self.num_general_before_u64 +1)
    p1.before is Some
## ParameterCollection::get_u64
return as_parameter(self.constant_u64[p1~Const.0.idx].0)
    p1 is Const; self.constant_u64[p1~Const.0.idx] is Some
return as_parameter(self.general_u64[p1~General.0.parameter.idx].parameter)
    p1 is General; self.general_u64[p1~General.0.parameter.idx] is Some
return as_parameter(self.simple_u64[p1~Simple.0.idx].0)
    p1 is Simple; self.simple_u64[p1~Simple.0.idx] is Some
return none
    p1 is Const; self.constant_u64[p1~Const.0.idx] is None
    p1 is General; self.general_u64[p1~General.0.parameter.idx] is None
    p1 is Simple; self.simple_u64[p1~Simple.0.idx] is None
## ParameterCollection::get_general_u64
return self.general_u64[p1.idx]
## ParameterCollection::get_u64_by_name
leave loop early()
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
    Eq(name(elem(self.general_u64).parameter), p1)
return as_parameter(elem(self.constant_u64).0)
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
return as_parameter(elem(self.general_u64).parameter)
    Eq(name(elem(self.general_u64).parameter), p1)
return as_parameter(elem(self.simple_u64).0)
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
return none
    !Eq(name(elem(self.constant_u64).0), p1); !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1)
## ParameterCollection::get_u64_index_by_name
leave loop early()
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
    Eq(name(elem(self.general_u64).parameter), p1)
return ConstParameterIndex{}
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
return GeneralParameterRegistration{}
    Eq(name(elem(self.general_u64).parameter), p1)
return SimpleParameterIndex{}
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
return none
    !Eq(name(elem(self.constant_u64).0), p1); !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1)
return.after elem(self.general_after_order)~U64.op~Value.output
    Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_after_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Value; elem(self.general_after_order)~U64.op~Value.output is Some
return.after none
    !Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_after_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_after_order) is U64
    Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_after_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Hook
    Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_after_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Value; elem(self.general_after_order)~U64.op~Value.output is None
    Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_after_order) is F64|Multi
return.before elem(self.general_before_order)~U64.output
    Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_before_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_before_order) is U64; elem(self.general_before_order)~U64.output is Some
return.before none
    !Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_before_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_before_order) is U64
    Eq(GeneralParameterIndex{idx: idx(self.general_u64), phantom: PhantomData}, elem(self.general_before_order)~U64.index); Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_before_order) is U64; elem(self.general_before_order)~U64.output is None
    Eq(name(elem(self.general_u64).parameter), p1); elem(self.general_before_order) is F64|Multi
return.idx idx(self.constant_u64)
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
return.idx idx(self.simple_u64)
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
return.parameter GeneralParameterIndex{}
    Eq(name(elem(self.general_u64).parameter), p1)
return.parameter.idx idx(self.general_u64)
    Eq(name(elem(self.general_u64).parameter), p1)
return.parameter.phantom PhantomData
    Eq(name(elem(self.general_u64).parameter), p1)
return.phantom PhantomData
    !Eq(name(elem(self.general_u64).parameter), p1); !Eq(name(elem(self.simple_u64).0), p1); Eq(name(elem(self.constant_u64).0), p1)
    !Eq(name(elem(self.general_u64).parameter), p1); Eq(name(elem(self.simple_u64).0), p1)
## ParameterCollection::push_general_multi
[accepts]
    p1.after is Hook|None|Value
push(self.general_after_order, Multi{index: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}, op: Hook{parameter: p1.after~Hook.0}})
    p1.after is Some; p1.after? is Hook
push(self.general_after_order, Multi{index: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}, op: Value{output: GeneralAfterValueIndex{idx: self.num_general_after_multi, phantom: PhantomData}, parameter: p1.after~Value.0}})
    p1.after is Some; p1.after? is Value
push(self.general_before_order, Multi{index: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}, output: GeneralBeforeValueIndex{idx: self.num_general_before_multi, phantom: PhantomData}, parameter: p1.before})
    p1.before is Some
push(self.general_multi, p1)
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_multi, phantom: PhantomData}, before: GeneralBeforeValueIndex{idx: self.num_general_before_multi, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is Some
return General{0: GeneralParameterRegistration{after: GeneralAfterValueIndex{idx: self.num_general_after_multi, phantom: PhantomData}, before: none, parameter: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}}}
    p1.after is Some; p1.after? is Value; p1.before is None
return General{0: GeneralParameterRegistration{after: none, before: GeneralBeforeValueIndex{idx: self.num_general_before_multi, phantom: PhantomData}, parameter: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}}}
    p1.after is None; p1.before is Some
    p1.after is Some; p1.after? is Hook; p1.before is Some
return General{0: GeneralParameterRegistration{after: none, before: none, parameter: GeneralParameterIndex{idx: len(self.general_multi), phantom: PhantomData}}}
    p1.after is None; p1.before is None
    p1.after is Some; p1.after? is Hook; p1.before is None
self.num_general_after_multi := (self.num_general_after_multi +1)
    p1.after is Some; p1.after? is Value
self.num_general_before_multi := (self.num_general_before_multi +1)
    p1.before is Some
## ParameterCollection::get_multi
return as_parameter(self.constant_multi[p1~Const.0.idx].0)
    p1 is Const; self.constant_multi[p1~Const.0.idx] is Some
return as_parameter(self.general_multi[p1~General.0.parameter.idx].parameter)
    p1 is General; self.general_multi[p1~General.0.parameter.idx] is Some
return as_parameter(self.simple_multi[p1~Simple.0.idx].0)
    p1 is Simple; self.simple_multi[p1~Simple.0.idx] is Some
return none
    p1 is Const; self.constant_multi[p1~Const.0.idx] is None
    p1 is General; self.general_multi[p1~General.0.parameter.idx] is None
    p1 is Simple; self.simple_multi[p1~Simple.0.idx] is None
## ParameterCollection::get_general_multi
return self.general_multi[p1.idx]
## ParameterCollection::get_multi_by_name
leave loop early()
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
    Eq(name(elem(self.general_multi).parameter), p1)
return as_parameter(elem(self.constant_multi).0)
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
return as_parameter(elem(self.general_multi).parameter)
    Eq(name(elem(self.general_multi).parameter), p1)
return as_parameter(elem(self.simple_multi).0)
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
return none
    !Eq(name(elem(self.constant_multi).0), p1); !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1)
## ParameterCollection::get_multi_index_by_name
leave loop early()
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
    Eq(name(elem(self.general_multi).parameter), p1)
return ConstParameterIndex{}
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
return GeneralParameterRegistration{}
    Eq(name(elem(self.general_multi).parameter), p1)
return SimpleParameterIndex{}
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
return none
    !Eq(name(elem(self.constant_multi).0), p1); !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1)
return.after elem(self.general_after_order)~Multi.op~Value.output
    Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_after_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Value; elem(self.general_after_order)~Multi.op~Value.output is Some
return.after none
    !Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_after_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_after_order) is Multi
    Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_after_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Hook
    Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_after_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Value; elem(self.general_after_order)~Multi.op~Value.output is None
    Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_after_order) is F64|U64
return.before elem(self.general_before_order)~Multi.output
    Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_before_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_before_order) is Multi; elem(self.general_before_order)~Multi.output is Some
return.before none
    !Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_before_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_before_order) is Multi
    Eq(GeneralParameterIndex{idx: idx(self.general_multi), phantom: PhantomData}, elem(self.general_before_order)~Multi.index); Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_before_order) is Multi; elem(self.general_before_order)~Multi.output is None
    Eq(name(elem(self.general_multi).parameter), p1); elem(self.general_before_order) is F64|U64
return.idx idx(self.constant_multi)
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
return.idx idx(self.simple_multi)
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
return.parameter GeneralParameterIndex{}
    Eq(name(elem(self.general_multi).parameter), p1)
return.parameter.idx idx(self.general_multi)
    Eq(name(elem(self.general_multi).parameter), p1)
return.parameter.phantom PhantomData
    Eq(name(elem(self.general_multi).parameter), p1)
return.phantom PhantomData
    !Eq(name(elem(self.general_multi).parameter), p1); !Eq(name(elem(self.simple_multi).0), p1); Eq(name(elem(self.constant_multi).0), p1)
    !Eq(name(elem(self.general_multi).parameter), p1); Eq(name(elem(self.simple_multi).0), p1)
## ParameterCollection::before_general
[accepts]
    Eq(p6.id, self.id)
    p6 is None
before(elem(self.general_before_order)~F64.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.f64[elem(self.general_before_order)~F64.index.idx])
    elem(self.general_before_order) is F64
before(elem(self.general_before_order)~Multi.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.multi[elem(self.general_before_order)~Multi.index.idx])
    elem(self.general_before_order) is Multi
before(elem(self.general_before_order)~U64.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.u64[elem(self.general_before_order)~U64.index.idx])
    elem(self.general_before_order) is U64
p6.general_f64[elem(self.general_before_order)~F64.index.idx].before := (elapsed(now()) +p6.general_f64[elem(self.general_before_order)~F64.index.idx].before)
    elem(self.general_before_order) is F64; p6 is Some
p6.general_multi[elem(self.general_before_order)~Multi.index.idx].before := (elapsed(now()) +p6.general_multi[elem(self.general_before_order)~Multi.index.idx].before)
    elem(self.general_before_order) is Multi; p6 is Some
p6.general_u64[elem(self.general_before_order)~U64.index.idx].before := (elapsed(now()) +p6.general_u64[elem(self.general_before_order)~U64.index.idx].before)
    elem(self.general_before_order) is U64; p6 is Some
set_general_parameter_f64_before(state, elem(self.general_before_order)~F64.output, before(elem(self.general_before_order)~F64.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.f64[elem(self.general_before_order)~F64.index.idx]))
    elem(self.general_before_order) is F64
set_general_parameter_multi_before(state, elem(self.general_before_order)~Multi.output, before(elem(self.general_before_order)~Multi.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.multi[elem(self.general_before_order)~Multi.index.idx]))
    elem(self.general_before_order) is Multi
state.parameters_general_before.indices[elem(self.general_before_order)~U64.output.idx] := before(elem(self.general_before_order)~U64.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.u64[elem(self.general_before_order)~U64.index.idx])
    elem(self.general_before_order) is U64
## ParameterCollection::after_general
[accepts]
    Eq(p6.id, self.id)
    p6 is None
after(elem(self.general_after_order)~F64.op~Hook.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.f64[elem(self.general_after_order)~F64.index.idx])
    elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Hook
after(elem(self.general_after_order)~F64.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.f64[elem(self.general_after_order)~F64.index.idx])
    elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Value
after(elem(self.general_after_order)~Multi.op~Hook.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.multi[elem(self.general_after_order)~Multi.index.idx])
    elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Hook
after(elem(self.general_after_order)~Multi.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.multi[elem(self.general_after_order)~Multi.index.idx])
    elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Value
after(elem(self.general_after_order)~U64.op~Hook.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.u64[elem(self.general_after_order)~U64.index.idx])
    elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Hook
after(elem(self.general_after_order)~U64.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.u64[elem(self.general_after_order)~U64.index.idx])
    elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Value
p6.general_f64[elem(self.general_after_order)~F64.index.idx].after := (elapsed(now()) +p6.general_f64[elem(self.general_after_order)~F64.index.idx].after)
    elem(self.general_after_order) is F64; p6 is Some
p6.general_multi[elem(self.general_after_order)~Multi.index.idx].after := (elapsed(now()) +p6.general_multi[elem(self.general_after_order)~Multi.index.idx].after)
    elem(self.general_after_order) is Multi; p6 is Some
p6.general_u64[elem(self.general_after_order)~U64.index.idx].after := (elapsed(now()) +p6.general_u64[elem(self.general_after_order)~U64.index.idx].after)
    elem(self.general_after_order) is U64; p6 is Some
set_general_parameter_f64_after(state, elem(self.general_after_order)~F64.op~Value.output, after(elem(self.general_after_order)~F64.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.f64[elem(self.general_after_order)~F64.index.idx]))
    elem(self.general_after_order) is F64; elem(self.general_after_order)~F64.op is Value
set_general_parameter_multi_after(state, elem(self.general_after_order)~Multi.op~Value.output, after(elem(self.general_after_order)~Multi.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.multi[elem(self.general_after_order)~Multi.index.idx]))
    elem(self.general_after_order) is Multi; elem(self.general_after_order)~Multi.op is Value
state.parameters_general_after.indices[elem(self.general_after_order)~U64.op~Value.output.idx] := after(elem(self.general_after_order)~U64.op~Value.parameter, GeneralParameterContext{network: net, scenario_index: scen, state: state, timestep: ts}, p5.general.u64[elem(self.general_after_order)~U64.index.idx])
    elem(self.general_after_order) is U64; elem(self.general_after_order)~U64.op is Value
## ParameterCollection::compute_simple
compute(self.simple_f64[elem(self.simple_resolve_order)~Parameter.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.f64[elem(self.simple_resolve_order)~Parameter.0.idx])
    elem(self.simple_resolve_order) is Parameter
compute(self.simple_multi[elem(self.simple_resolve_order)~Multi.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.multi[elem(self.simple_resolve_order)~Multi.0.idx])
    elem(self.simple_resolve_order) is Multi
compute(self.simple_u64[elem(self.simple_resolve_order)~Index.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.u64[elem(self.simple_resolve_order)~Index.0.idx])
    elem(self.simple_resolve_order) is Index
set_simple_parameter_f64(state, elem(self.simple_resolve_order)~Parameter.0, compute(self.simple_f64[elem(self.simple_resolve_order)~Parameter.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.f64[elem(self.simple_resolve_order)~Parameter.0.idx]))
    elem(self.simple_resolve_order) is Parameter
set_simple_parameter_multi(state, elem(self.simple_resolve_order)~Multi.0, compute(self.simple_multi[elem(self.simple_resolve_order)~Multi.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.multi[elem(self.simple_resolve_order)~Multi.0.idx]))
    elem(self.simple_resolve_order) is Multi
state.parameters_simple.indices[elem(self.simple_resolve_order)~Index.0.idx] := compute(self.simple_u64[elem(self.simple_resolve_order)~Index.0.idx].0, SimpleParameterContext{scenario_index: scen, timestep: ts, values: get_simple_parameter_values(state)}, p4.simple.u64[elem(self.simple_resolve_order)~Index.0.idx])
    elem(self.simple_resolve_order) is Index
## ParameterCollection::compute_const
compute(self.constant_f64[elem(self.constant_resolve_order)~Parameter.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.f64[elem(self.constant_resolve_order)~Parameter.0.idx])
    elem(self.constant_resolve_order) is Parameter
compute(self.constant_multi[elem(self.constant_resolve_order)~Multi.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.multi[elem(self.constant_resolve_order)~Multi.0.idx])
    elem(self.constant_resolve_order) is Multi
compute(self.constant_u64[elem(self.constant_resolve_order)~Index.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.u64[elem(self.constant_resolve_order)~Index.0.idx])
    elem(self.constant_resolve_order) is Index
set_const_parameter_f64(state, elem(self.constant_resolve_order)~Parameter.0, compute(self.constant_f64[elem(self.constant_resolve_order)~Parameter.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.f64[elem(self.constant_resolve_order)~Parameter.0.idx]))
    elem(self.constant_resolve_order) is Parameter
set_const_parameter_multi(state, elem(self.constant_resolve_order)~Multi.0, compute(self.constant_multi[elem(self.constant_resolve_order)~Multi.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.multi[elem(self.constant_resolve_order)~Multi.0.idx]))
    elem(self.constant_resolve_order) is Multi
state.parameters_constant.indices[elem(self.constant_resolve_order)~Index.0.idx] := compute(self.constant_u64[elem(self.constant_resolve_order)~Index.0.idx].0, scen, ConstParameterValues{constant: ParameterValuesRef{indices: state.parameters_constant.indices, multi_values: state.parameters_constant.multi_values, values: state.parameters_constant.values}}, p3.constant.u64[elem(self.constant_resolve_order)~Index.0.idx])
    elem(self.constant_resolve_order) is Index
## ParameterCollectionBuilder::f64
push(self.f64, p1)
return self
## ParameterCollectionBuilder::u64
push(self.u64, p1)
return self
## ParameterCollectionBuilder::multi
push(self.multi, p1)
return self
## ParameterCollectionBuilder::contains_name
leave loop early()
    !Eq(name(elem(self.f64).0), p1); !Eq(name(elem(self.u64).0), p1); Eq(name(elem(self.multi).0), p1)
    !Eq(name(elem(self.f64).0), p1); Eq(name(elem(self.u64).0), p1)
    Eq(name(elem(self.f64).0), p1)
return false
    !Eq(name(elem(self.f64).0), p1); !Eq(name(elem(self.multi).0), p1); !Eq(name(elem(self.u64).0), p1)
return true
    !Eq(name(elem(self.f64).0), p1); !Eq(name(elem(self.u64).0), p1); Eq(name(elem(self.multi).0), p1)
    !Eq(name(elem(self.f64).0), p1); Eq(name(elem(self.u64).0), p1)
    Eq(name(elem(self.f64).0), p1)
## ParameterCollectionBuilder::build
[accepts]
    !Eq(acc((len(self.f64) +len(self.multi) +len(self.u64))), len(list((build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Retry)) +len(list((build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.multi), p1) is Retry)) +len(list((build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.u64), p1) is Retry))); !Lt(len(self.f64), 1); !has_name(default(), name(elem(self.f64).0)); !has_name(default(), name(elem(self.multi).0)); !has_name(default(), name(elem(self.u64).0)); insert(list({name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if Lt(len(self.f64), 1) & Lt(len(self.multi), 1) & Lt(len(self.u64), 1), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.f64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.u64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.multi), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)})
    !Eq(acc((len(self.f64) +len(self.multi) +len(self.u64))), len(list((build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Retry)) +len(list((build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.multi), p1) is Retry)) +len(list((build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.u64), p1) is Retry))); !Lt(len(self.multi), 1); !has_name(default(), name(elem(self.f64).0)); !has_name(default(), name(elem(self.multi).0)); !has_name(default(), name(elem(self.u64).0)); Lt(len(self.f64), 1); Lt(len(self.u64), 1); insert(list({name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if Lt(len(self.f64), 1) & Lt(len(self.multi), 1) & Lt(len(self.u64), 1), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.f64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.u64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.multi), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)})
    !Eq(acc((len(self.f64) +len(self.multi) +len(self.u64))), len(list((build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Retry, (build(elem(self.f64), p1)~Retry.builder, build(elem(self.f64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Retry)) +len(list((build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.multi), p1) is Retry, (build(elem(self.multi), p1)~Retry.builder, build(elem(self.multi), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.multi), p1) is Retry)) +len(list((build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.u64), 1) & Lt(len(self.f64), 1) & build(elem(self.u64), p1) is Retry, (build(elem(self.u64), p1)~Retry.builder, build(elem(self.u64), p1)~Retry.parameter_not_found) if !Lt(len(self.multi), 1) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.u64), p1) is Retry))); !Lt(len(self.u64), 1); !has_name(default(), name(elem(self.f64).0)); !has_name(default(), name(elem(self.multi).0)); !has_name(default(), name(elem(self.u64).0)); Lt(len(self.f64), 1); insert(list({name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if Lt(len(self.f64), 1) & Lt(len(self.multi), 1) & Lt(len(self.u64), 1), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.f64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.u64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.multi), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)})
    Lt(len(self.f64), 1); Lt(len(self.multi), 1); Lt(len(self.u64), 1); insert(list({name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if Lt(len(self.f64), 1) & Lt(len(self.multi), 1) & Lt(len(self.u64), 1), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.f64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.u64), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok, {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)} if !Eq(3*len(new()), acc((len(self.f64) +len(self.multi) +len(self.u64)))) & !Lt(len(self.multi), 1) & !has_name(default(), name(elem(self.f64).0)) & !has_name(default(), name(elem(self.multi).0)) & !has_name(default(), name(elem(self.u64).0)) & Lt(len(self.f64), 1) & Lt(len(self.u64), 1) & build(elem(self.f64), p1) is Ok & build(elem(self.multi), p1) is Ok & build(elem(self.u64), p1) is Ok), {name(elem(self.f64).0) | name(elem(self.multi).0) | name(elem(self.u64).0)})
insert(p1.parameters_f64, name(elem(self.f64).0), Const{0: ConstParameterIndex{idx: len(default().constant_f64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
insert(p1.parameters_f64, name(elem(self.f64).0), Simple{0: SimpleParameterIndex{idx: len(default().simple_f64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
insert(p1.parameters_f64, name(elem(self.f64).0), push_general_f64(default(), build(elem(self.f64), p1)~Built.0~General.0))
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
insert(p1.parameters_multi, name(elem(self.multi).0), Const{0: ConstParameterIndex{idx: len(default().constant_multi), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
insert(p1.parameters_multi, name(elem(self.multi).0), Simple{0: SimpleParameterIndex{idx: len(default().simple_multi), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
insert(p1.parameters_multi, name(elem(self.multi).0), push_general_multi(default(), build(elem(self.multi), p1)~Built.0~General.0))
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
insert(p1.parameters_u64, name(elem(self.u64).0), Const{0: ConstParameterIndex{idx: len(default().constant_u64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
insert(p1.parameters_u64, name(elem(self.u64).0), Simple{0: SimpleParameterIndex{idx: len(default().simple_u64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
insert(p1.parameters_u64, name(elem(self.u64).0), push_general_u64(default(), build(elem(self.u64), p1)~Built.0~General.0))
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
push(default().constant_f64, build(elem(self.f64), p1)~Built.0~Const.0)
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
push(default().constant_multi, build(elem(self.multi), p1)~Built.0~Const.0)
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
push(default().constant_resolve_order, Index{0: ConstParameterIndex{idx: len(default().constant_u64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
push(default().constant_resolve_order, Multi{0: ConstParameterIndex{idx: len(default().constant_multi), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Const
push(default().constant_resolve_order, Parameter{0: ConstParameterIndex{idx: len(default().constant_f64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Const
push(default().constant_u64, build(elem(self.u64), p1)~Built.0~Const.0)
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Const
push(default().simple_f64, build(elem(self.f64), p1)~Built.0~Simple.0)
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
push(default().simple_multi, build(elem(self.multi), p1)~Built.0~Simple.0)
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
push(default().simple_resolve_order, Index{0: SimpleParameterIndex{idx: len(default().simple_u64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
push(default().simple_resolve_order, Multi{0: SimpleParameterIndex{idx: len(default().simple_multi), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is Simple
push(default().simple_resolve_order, Parameter{0: SimpleParameterIndex{idx: len(default().simple_f64), phantom: PhantomData}})
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is Simple
push(default().simple_u64, build(elem(self.u64), p1)~Built.0~Simple.0)
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is Simple
push_general_f64(default(), build(elem(self.f64), p1)~Built.0~General.0)
    !Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.f64), p1) is Built; build(elem(self.f64), p1)~Built.0 is General
push_general_multi(default(), build(elem(self.multi), p1)~Built.0~General.0)
    !Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.multi), p1) is Built; build(elem(self.multi), p1)~Built.0 is General
push_general_u64(default(), build(elem(self.u64), p1)~Built.0~General.0)
    !Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
    !Lt(len(self.multi), 1); Lt(len(self.f64), 1); Lt(len(self.u64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
    !Lt(len(self.u64), 1); Lt(len(self.f64), 1); build(elem(self.u64), p1) is Built; build(elem(self.u64), p1)~Built.0 is General
return default()
