## Network::set_f64_parameter_variable_values
set_variables(as_f64_variable(get_f64(self.parameters, p1)), p2, p3, get_mut_f64_state(elem(netstate.parameter_internal_states), p1))
## Network::set_f64_parameter_variable_values_for_scenario
set_variables(as_f64_variable(get_f64(self.parameters, p1)), p3, p4, get_mut_f64_state(netstate.parameter_internal_states[scen.core.index], p1))
## Network::get_f64_parameter_variable_values_for_scenario
return get_variables(as_f64_variable(get_f64(self.parameters, p1)), get_f64_state(netstate.parameter_internal_states[scen.core.index], p1))
## Network::get_f64_parameter_variable_values
return list
return[] get_variables(as_f64_variable(get_f64(self.parameters, p1)), get_f64_state(elem(netstate.parameter_internal_states), p1))
## Network::set_u32_parameter_variable_values
set_variables(as_u32_variable(get_f64(self.parameters, p1)), p2, p3, get_mut_f64_state(elem(netstate.parameter_internal_states), p1))
## Network::set_u32_parameter_variable_values_for_scenario
set_variables(as_u32_variable(get_f64(self.parameters, p1)), p3, p4, get_mut_f64_state(netstate.parameter_internal_states[scen.core.index], p1))
## Network::get_u32_parameter_variable_values_for_scenario
return get_variables(as_u32_variable(get_f64(self.parameters, p1)), get_f64_state(netstate.parameter_internal_states[scen.core.index], p1))
## <ConstantParameter as Parameter>::as_f64_variable
return self
## <ConstantParameter as Parameter>::as_f64_variable_mut
return self
## <ConstantParameter as VariableParameter<f64>>::set_variables
[accepts]
    Eq(1, len(p1))
downcast_mut(p3) := apply(downcast_ref(p2), p1[0])
## <ConstantParameter as VariableParameter<f64>>::get_variables
return list
    downcast_ref(p1) is Some
return none
    downcast_ref(p1) is None
return[] downcast_ref(p1)
    downcast_ref(p1) is Some
## <ConstantParameter as VariableParameter<f64>>::get_lower_bounds
return list
return[] lower_bound(downcast_ref(p1))
## <ConstantParameter as VariableParameter<f64>>::get_upper_bounds
return list
return[] upper_bound(downcast_ref(p1))
## <OffsetParameter as Parameter>::as_f64_variable
return self
## <OffsetParameter as Parameter>::as_f64_variable_mut
return self
## <OffsetParameter as VariableParameter<f64>>::set_variables
[accepts]
    Eq(1, len(p1))
downcast_mut(p3) := apply(downcast_ref(p2), p1[0])
## <OffsetParameter as VariableParameter<f64>>::get_variables
return list
    downcast_ref(p1) is Some
return none
    downcast_ref(p1) is None
return[] downcast_ref(p1)
    downcast_ref(p1) is Some
## <OffsetParameter as VariableParameter<f64>>::get_lower_bounds
return list
return[] lower_bound(downcast_ref(p1))
## <OffsetParameter as VariableParameter<f64>>::get_upper_bounds
return list
return[] upper_bound(downcast_ref(p1))
## RbfProfileVariableConfig::new
return RbfProfileVariableConfig{}
return.days_of_year_range p0
return.value_lower_bounds p2
return.value_upper_bounds p1
## RbfProfileVariableConfig::days_of_year_range
return self.days_of_year_range
## RbfProfileVariableConfig::value_lower_bounds
return self.value_lower_bounds
## RbfProfileVariableConfig::value_upper_bounds
return self.value_upper_bounds
## <RbfProfileParameter as Parameter>::as_f64_variable
return self
## <RbfProfileParameter as Parameter>::as_f64_variable_mut
return self
## <RbfProfileParameter as Parameter>::as_u32_variable
return self
## <RbfProfileParameter as Parameter>::as_u32_variable_mut
return self
## <RbfProfileParameter as VariableParameter<f64>>::set_variables
[accepts]
    Eq(len(p1), len(self.points))
downcast_mut(p3).points_y := p1
update_profile(downcast_mut(p3), self.points, self.function)
## <RbfProfileParameter as VariableParameter<f64>>::get_variables
return downcast_ref(p1).points_y
## <RbfProfileParameter as VariableParameter<f64>>::get_lower_bounds
return list
return[] downcast_ref(p1).value_lower_bounds
    for each(self.points)
## <RbfProfileParameter as VariableParameter<f64>>::get_upper_bounds
return list
return[] downcast_ref(p1).value_upper_bounds
    for each(self.points)
## <RbfProfileParameter as VariableParameter<u32>>::set_variables
[accepts]
    Eq(len(p1), len(self.points))
downcast_mut(p3).points_x := p1
update_profile(downcast_mut(p3), self.points, self.function)
## <RbfProfileParameter as VariableParameter<u32>>::get_variables
return downcast_ref(p1).points_x
## <RbfProfileParameter as VariableParameter<u32>>::get_lower_bounds
return list
    downcast_ref(p1).days_of_year_range is Some
return none
    downcast_ref(p1).days_of_year_range is None
return[] max(1, 1)
    checked_sub(elem(self.points).0, downcast_ref(p1).days_of_year_range) is None; downcast_ref(p1).days_of_year_range is Some; for each(self.points)
return[] max(1, checked_sub(elem(self.points).0, downcast_ref(p1).days_of_year_range))
    checked_sub(elem(self.points).0, downcast_ref(p1).days_of_year_range) is Some; downcast_ref(p1).days_of_year_range is Some
## <RbfProfileParameter as VariableParameter<u32>>::get_upper_bounds
return list
    downcast_ref(p1).days_of_year_range is Some
return none
    downcast_ref(p1).days_of_year_range is None
return[] min(365, 365)
    checked_add(elem(self.points).0, downcast_ref(p1).days_of_year_range) is None; downcast_ref(p1).days_of_year_range is Some; for each(self.points)
return[] min(365, checked_add(elem(self.points).0, downcast_ref(p1).days_of_year_range))
    checked_add(elem(self.points).0, downcast_ref(p1).days_of_year_range) is Some; downcast_ref(p1).days_of_year_range is Some
## <T as VariableConfig>::as_any
return self
## <T as VariableConfig>::as_any_mut
return self
## parameters::downcast_variable_config_ref
return downcast_ref(p0)
## Parameter::as_f64_variable
return none
## Parameter::as_f64_variable_mut
return none
## Parameter::can_be_f64_variable
return false
    as_f64_variable(p0) is None
return true
    as_f64_variable(p0) is Some
## Parameter::as_u32_variable
return none
## Parameter::as_u32_variable_mut
return none
## Parameter::can_be_u32_variable
return false
    as_u32_variable(p0) is None
return true
    as_u32_variable(p0) is Some
## VariableParameter::name
return meta(p0).name
