## VirtualStorageNodeBuilder::new
return VirtualStorageNodeBuilder{}
return.active_period Always
return.cost none
return.factors none
return.initial_volume Absolute{volume: 0}
return.max_volume none
return.min_volume none
return.name new(p0, none)
return.nodes p1
return.reset Never
return.reset_volume Initial
return.rolling_window none
## VirtualStorageNodeBuilder::name
return self.name
## VirtualStorageNodeBuilder::nodes
return self.nodes
## VirtualStorageNodeBuilder::sub_name
return self
set_sub_name(self.name, p1)
## VirtualStorageNodeBuilder::factors
return self
self.factors := p1
## VirtualStorageNodeBuilder::initial_volume
return self
self.initial_volume := p1
## VirtualStorageNodeBuilder::cost
return self
self.cost := p1
## VirtualStorageNodeBuilder::max_volume
return self
self.max_volume := p1
## VirtualStorageNodeBuilder::min_volume
return self
self.min_volume := p1
## VirtualStorageNodeBuilder::reset
return self
self.reset := p1
## VirtualStorageNodeBuilder::reset_volume
return self
self.reset_volume := p1
## VirtualStorageNodeBuilder::rolling_window
return self
self.rolling_window := p1
## VirtualStorageNodeBuilder::active_period
return self
self.active_period := p1
## VirtualStorageNodeBuilder::build_storage_initial_volume
return Absolute{volume: self.initial_volume~Absolute.volume}
    self.initial_volume is Absolute
return DistributedAbsolute{}
    self.initial_volume is DistributedAbsolute
return DistributedProportional{}
    self.initial_volume is DistributedProportional
return Proportional{proportion: self.initial_volume~Proportional.proportion}
    self.initial_volume is Proportional
return.absolute self.initial_volume~DistributedAbsolute.absolute
    self.initial_volume is DistributedAbsolute
return.prior_max_volume try_into(resolve(self.initial_volume~DistributedAbsolute.prior_max_volume, p1, Before))
    self.initial_volume is DistributedAbsolute
return.prior_max_volume try_into(resolve(self.initial_volume~DistributedProportional.prior_max_volume, p1, Before))
    self.initial_volume is DistributedProportional
return.proportion self.initial_volume~DistributedProportional.proportion
    self.initial_volume is DistributedProportional
return.total_volume try_into(resolve(self.initial_volume~DistributedProportional.total_volume, p1, Before))
    self.initial_volume is DistributedProportional
## VirtualStorageNodeBuilder::build
return VirtualStorageNode{}
return.active_period self.active_period
return.cost none
    self.cost is None
return.cost resolve(self.cost, p1, Before)
    self.cost is Some
return.factors from_elem(1, len(self.nodes))
    self.factors is None
return.factors self.factors
    self.factors is Some
return.initial_volume build_storage_initial_volume(self, p1)
return.meta NodeMeta{}
return.meta.index p1.virtual_storage_node[self.name]
return.meta.name self.name.name
return.meta.sub_name self.name.sub_name
return.nodes list
return.nodes[] p1.nodes[elem(self.nodes)]
return.reset self.reset
return.reset_volume self.reset_volume
return.rolling_window self.rolling_window
return.storage_constraints StorageConstraints{}
return.storage_constraints.max_volume none
    self.max_volume is None
return.storage_constraints.max_volume try_into(resolve(self.max_volume, p1, Before))
    self.max_volume is Some
return.storage_constraints.min_volume none
    self.min_volume is None
return.storage_constraints.min_volume try_into(resolve(self.min_volume, p1, Before))
    self.min_volume is Some
## VirtualStorageActivePeriod::is_active
return false
    !Eq(month(p1), self~Period.end_month); !Eq(month(p1), self~Period.start_month); !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Eq(month(p1), self~Period.end_month); !Eq(month(p1), self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Eq(month(p1), self~Period.end_month); !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(day(p1), self~Period.start_day); self is Period
    !Eq(month(p1), self~Period.end_month); !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); self is Period
    !Eq(month(p1), self~Period.end_month); !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); Eq(month(p1), self~Period.start_month); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Eq(month(p1), self~Period.end_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.start_month, month(p1)); self is Period
    !Eq(month(p1), self~Period.end_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Eq(month(p1), self~Period.end_month); !Lt(month(p1), self~Period.end_month); Lt(self~Period.start_month, month(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Eq(month(p1), self~Period.start_month); !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Lt(self~Period.end_day, day(p1)); self is Period
    !Eq(month(p1), self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, day(p1)); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Eq(month(p1), self~Period.start_month); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); self is Period
    !Eq(month(p1), self~Period.start_month); !Lt(self~Period.start_month, month(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(self~Period.end_day, day(p1)); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, day(p1)); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(self~Period.end_day, day(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, day(p1)); Lt(self~Period.start_month, month(p1)); self is Period
    !Lt(month(p1), self~Period.end_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(self~Period.end_day, day(p1)); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Lt(month(p1), self~Period.end_month); Eq(month(p1), self~Period.end_month); Lt(self~Period.end_day, day(p1)); Lt(self~Period.start_month, month(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(day(p1), self~Period.start_day); self is Period
    !Lt(self~Period.start_month, month(p1)); Eq(month(p1), self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(self~Period.start_month, self~Period.end_month); self is Period
return true
    !Eq(month(p1), self~Period.start_month); !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); self is Period
    !Eq(month(p1), self~Period.start_month); !Eq(self~Period.end_month, self~Period.start_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Lt(month(p1), self~Period.end_month); self is Period
    !Eq(month(p1), self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Eq(month(p1), self~Period.start_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(month(p1), self~Period.end_month); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Eq(self~Period.end_month, self~Period.start_month); !Lt(day(p1), self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); self is Period
    !Eq(self~Period.end_month, self~Period.start_month); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(day(p1), self~Period.start_day); self is Period
    !Eq(self~Period.end_month, self~Period.start_month); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(month(p1), self~Period.end_month); self is Period
    !Eq(self~Period.end_month, self~Period.start_month); !Lt(self~Period.start_month, self~Period.end_month); Lt(self~Period.start_month, month(p1)); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.start_month, month(p1)); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(month(p1), self~Period.end_month); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Lt(day(p1), self~Period.start_day); !Lt(self~Period.start_month, month(p1)); Eq(month(p1), self~Period.start_month); Lt(month(p1), self~Period.end_month); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.start_month, month(p1)); self is Period
    !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Lt(month(p1), self~Period.end_month); !Lt(self~Period.end_day, day(p1)); Eq(month(p1), self~Period.end_month); Lt(self~Period.start_month, month(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    !Lt(self~Period.end_day, self~Period.start_day); !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(month(p1), self~Period.end_month); Lt(self~Period.start_month, month(p1)); self is Period
    !Lt(self~Period.start_month, month(p1)); !Lt(self~Period.start_month, self~Period.end_month); Eq(month(p1), self~Period.start_month); Eq(self~Period.end_month, self~Period.start_month); Lt(day(p1), self~Period.start_day); Lt(month(p1), self~Period.end_month); Lt(self~Period.end_day, self~Period.start_day); self is Period
    !Lt(self~Period.start_month, self~Period.end_month); Eq(self~Period.end_month, self~Period.start_month); Lt(self~Period.end_day, self~Period.start_day); Lt(self~Period.start_month, month(p1)); self is Period
    Lt(month(p1), self~Period.end_month); Lt(self~Period.start_month, month(p1)); Lt(self~Period.start_month, self~Period.end_month); self is Period
    self is Always
## VirtualStorageNode::name
return self.meta.name
## VirtualStorageNode::sub_name
return self.meta.sub_name
## VirtualStorageNode::full_name
return.0 self.meta.name
return.1 self.meta.sub_name
## VirtualStorageNode::index
return self.meta.index
## VirtualStorageNode::default_state
return new(0, 0, self.rolling_window)
## VirtualStorageNode::get_cost
return 0
    self.cost is None
return get_value(self.cost, net, state)
    self.cost is Some
## VirtualStorageNode::before
recover_virtual_storage_last_historical_flow(state, self.meta.index, ts)
    self.rolling_window is Some
reset_virtual_storage_history(state, self.meta.index, (-get_absolute_initial_volume(self.initial_volume, get_max_volume(self, state), state)/self.rolling_window +get_max_volume(self, state)/self.rolling_window))
    !Lt(month(ts.date) +12*year(ts.date), month(state.network.virtual_storage_states[self.meta.index.0].last_reset.date) +self.reset~NumberOfMonths.months +12*year(state.network.virtual_storage_states[self.meta.index.0].last_reset.date)); !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.rolling_window is Some; state.network.virtual_storage_states[self.meta.index.0].last_reset is Some
    !is_active(self.active_period, date(ts.date)); !is_first(ts); self.rolling_window is Some
    !is_first(ts); Eq(day(ts.date), self.reset~DayOfYear.day); Eq(month(ts.date), self.reset~DayOfYear.month); is_active(self.active_period, date(ts.date)); self.reset is DayOfYear; self.rolling_window is Some
    !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.rolling_window is Some; state.network.virtual_storage_states[self.meta.index.0].last_reset is None
    is_first(ts); self.rolling_window is Some
state.network.virtual_storage_states[self.meta.index.0].last_reset := ts
    !Lt(month(ts.date) +12*year(ts.date), month(state.network.virtual_storage_states[self.meta.index.0].last_reset.date) +self.reset~NumberOfMonths.months +12*year(state.network.virtual_storage_states[self.meta.index.0].last_reset.date)); !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; state.network.virtual_storage_states[self.meta.index.0].last_reset is Some
    !is_active(self.active_period, date(ts.date)); !is_first(ts)
    !is_first(ts); Eq(day(ts.date), self.reset~DayOfYear.day); Eq(month(ts.date), self.reset~DayOfYear.month); is_active(self.active_period, date(ts.date)); self.reset is DayOfYear
    !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; state.network.virtual_storage_states[self.meta.index.0].last_reset is None
    is_first(ts)
state.network.virtual_storage_states[self.meta.index.0].storage.max_volume := get_max_volume(self, state)
    !Lt(month(ts.date) +12*year(ts.date), month(state.network.virtual_storage_states[self.meta.index.0].last_reset.date) +self.reset~NumberOfMonths.months +12*year(state.network.virtual_storage_states[self.meta.index.0].last_reset.date)); !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; state.network.virtual_storage_states[self.meta.index.0].last_reset is Some
    !is_active(self.active_period, date(ts.date)); !is_first(ts)
    !is_first(ts); Eq(day(ts.date), self.reset~DayOfYear.day); Eq(month(ts.date), self.reset~DayOfYear.month); is_active(self.active_period, date(ts.date)); self.reset is DayOfYear
    !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; state.network.virtual_storage_states[self.meta.index.0].last_reset is None
    is_first(ts)
state.network.virtual_storage_states[self.meta.index.0].storage.volume := get_absolute_initial_volume(self.initial_volume, get_max_volume(self, state), state)
    !Lt(month(ts.date) +12*year(ts.date), month(state.network.virtual_storage_states[self.meta.index.0].last_reset.date) +self.reset~NumberOfMonths.months +12*year(state.network.virtual_storage_states[self.meta.index.0].last_reset.date)); !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.reset_volume is Initial; state.network.virtual_storage_states[self.meta.index.0].last_reset is Some
    !is_active(self.active_period, date(ts.date)); !is_first(ts); self.reset_volume is Initial
    !is_first(ts); Eq(day(ts.date), self.reset~DayOfYear.day); Eq(month(ts.date), self.reset~DayOfYear.month); is_active(self.active_period, date(ts.date)); self.reset is DayOfYear; self.reset_volume is Initial
    !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.reset_volume is Initial; state.network.virtual_storage_states[self.meta.index.0].last_reset is None
    is_first(ts); self.reset_volume is Initial
state.network.virtual_storage_states[self.meta.index.0].storage.volume := get_max_volume(self, state)
    !Lt(month(ts.date) +12*year(ts.date), month(state.network.virtual_storage_states[self.meta.index.0].last_reset.date) +self.reset~NumberOfMonths.months +12*year(state.network.virtual_storage_states[self.meta.index.0].last_reset.date)); !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.reset_volume is Max; state.network.virtual_storage_states[self.meta.index.0].last_reset is Some
    !is_active(self.active_period, date(ts.date)); !is_first(ts); self.reset_volume is Max
    !is_first(ts); Eq(day(ts.date), self.reset~DayOfYear.day); Eq(month(ts.date), self.reset~DayOfYear.month); is_active(self.active_period, date(ts.date)); self.reset is DayOfYear; self.reset_volume is Max
    !is_first(ts); is_active(self.active_period, date(ts.date)); self.reset is NumberOfMonths; self.reset_volume is Max; state.network.virtual_storage_states[self.meta.index.0].last_reset is None
    is_first(ts); self.reset_volume is Max
## VirtualStorageNode::nodes
return self.nodes
## VirtualStorageNode::iter_nodes_with_factors
return map(zip(self.nodes, self.factors), |return.0 xa.0 / return.1 xa.1|)
## VirtualStorageNode::get_min_volume
return get_min_volume(self.storage_constraints, get_simple_parameter_values(state))
## VirtualStorageNode::get_max_volume
return get_max_volume(self.storage_constraints, get_simple_parameter_values(state))
## VirtualStorageNode::get_available_volume_bounds
return.0 max((-get_min_volume(self, state) +state.network.virtual_storage_states[self.meta.index.0].storage.volume), 0)
return.1 max((get_max_volume(self, state) -state.network.virtual_storage_states[self.meta.index.0].storage.volume), 0)
## VirtualStorageNode::is_active
return false
    !is_active(self.active_period, date(ts.date))
return true
    is_active(self.active_period, date(ts.date))
