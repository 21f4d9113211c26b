## AggregationFrequency::split_value_into_periods
return list
return[] PeriodValue{duration: PywrDuration{0: duration_since((p1.duration.0 +p1.start), acc(p1.start))}, start: acc(p1.start), value: p1.value}
    Lt(acc(p1.start), p1.duration.0 +p1.start); Lt(p1.duration.0 +p1.start, checked_add(acc(p1.start), days(self~Days.0))); self is Days
    Lt(acc(p1.start), p1.duration.0 +p1.start); Lt(p1.duration.0 +p1.start, start_of_day(first_of_month(checked_add(acc(p1.start), months(1))))); self is Monthly
    Lt(acc(p1.start), p1.duration.0 +p1.start); Lt(p1.duration.0 +p1.start, start_of_day(first_of_year(checked_add(acc(p1.start), years(1))))); self is Annual
return[] PeriodValue{duration: PywrDuration{0: duration_since(checked_add(acc(p1.start), days(self~Days.0)), acc(p1.start))}, start: acc(p1.start), value: p1.value}
    !Lt(p1.duration.0 +p1.start, checked_add(acc(p1.start), days(self~Days.0))); Lt(acc(p1.start), p1.duration.0 +p1.start); self is Days
return[] PeriodValue{duration: PywrDuration{0: duration_since(start_of_day(first_of_month(checked_add(acc(p1.start), months(1)))), acc(p1.start))}, start: acc(p1.start), value: p1.value}
    !Lt(p1.duration.0 +p1.start, start_of_day(first_of_month(checked_add(acc(p1.start), months(1))))); Lt(acc(p1.start), p1.duration.0 +p1.start); self is Monthly
return[] PeriodValue{duration: PywrDuration{0: duration_since(start_of_day(first_of_year(checked_add(acc(p1.start), years(1)))), acc(p1.start))}, start: acc(p1.start), value: p1.value}
    !Lt(p1.duration.0 +p1.start, start_of_day(first_of_year(checked_add(acc(p1.start), years(1))))); Lt(acc(p1.start), p1.duration.0 +p1.start); self is Annual
## PeriodicAggregatorState::process_value
clear(self.current_values)
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); p2 is Days; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); p2 is Days; self.current_values is Some
push(self.current_values, p1)
    self.current_values is Some
return PeriodValue{}
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
return none
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is None; p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is None; p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is None; p2 is Days; self.current_values is Some
    !Lt(p1.start, first(self.current_values).start); Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); p2 is Days; self.current_values is Some
    Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); p2 is Monthly; self.current_values is Some
    Eq(year(first(self.current_values).start), year(p1.start)); p2 is Annual; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is None; p2 is Days; self.current_values is Some
    self.current_values is None
return.duration PywrDuration{0: duration_since(p1.start, first(self.current_values).start)}
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
return.start first(self.current_values).start
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
return.value calc_period_values(p3, self.current_values)
    !Eq(month(first(self.current_values).start), month(p1.start)); Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Monthly; self.current_values is Some
    !Eq(year(first(self.current_values).start), year(p1.start)); calc_period_values(p3, self.current_values) is Some; p2 is Annual|Monthly; self.current_values is Some
    !Lt(p1.start, checked_add(first(self.current_values).start, days(p2~Days.0))); !Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
    Lt(p1.start, first(self.current_values).start); calc_period_values(p3, self.current_values) is Some; p2 is Days; self.current_values is Some
self.current_values := list
    self.current_values is None
self.current_values[] := p1
    self.current_values is None
## PeriodicAggregatorState::calc_aggregation
return PeriodValue{}
    calc_period_values(p1, self.current_values) is Some; self.current_values is Some
return none
    calc_period_values(p1, self.current_values) is None; self.current_values is Some
    self.current_values is None
return.duration PywrDuration{0: duration_since(last(self.current_values).start, first(self.current_values).start)}
    calc_period_values(p1, self.current_values) is Some; self.current_values is Some
return.start first(self.current_values).start
    calc_period_values(p1, self.current_values) is Some; self.current_values is Some
return.value calc_period_values(p1, self.current_values)
    calc_period_values(p1, self.current_values) is Some; self.current_values is Some
## PeriodValue<T>::new
return PeriodValue{}
return.duration p1
return.start p0
return.value p2
## PeriodValue<T>::end
return (self.duration.0 +self.start)
## PeriodValue<Vec<T>>::index
return PeriodValue{}
return.duration self.duration
return.start self.start
return.value self.value[p1]
## PeriodValue<Vec<T>>::len
return len(self.value)
## PeriodValue<Vec<T>>::is_empty
return false
    !Lt(len(self.value), 1)
return true
    Lt(len(self.value), 1)
## <PeriodValue<Vec<T>> as From<&[PeriodValue<T>]>>::from
return PeriodValue{}
return.duration last(p0).duration
return.start first(p0).start
return.value list
return.value[] elem(p0).value
## PeriodicAggregator::process_value
p1.current_values := list
    p1.current_values is None; self.frequency is None
p1.current_values[] := p2
    p1.current_values is None; self.frequency is None
process_value(p1, elem(split_value_into_periods(self.frequency, p2)), self.frequency, self.function)
    self.frequency is Some
push(p1.current_values, p2)
    p1.current_values is Some; self.frequency is None
return acc(none)
    process_value(p1, elem(split_value_into_periods(self.frequency, p2)), self.frequency, self.function) is None; self.frequency is Some
return none
    self.frequency is None
return process_value(p1, elem(split_value_into_periods(self.frequency, p2)), self.frequency, self.function)
    process_value(p1, elem(split_value_into_periods(self.frequency, p2)), self.frequency, self.function) is Some; self.frequency is Some
## Aggregator::new
return Aggregator{}
return.agg PeriodicAggregator{}
return.agg.frequency p0
return.agg.function p1
return.child new(p2)
    p2 is Some
return.child none
    p2 is None
## Aggregator::setup
return AggregatorState{}
return.child new(setup(self.child.0))
    self.child is Some
return.child none
    self.child is None
return.state default()
## Aggregator::append_value
append_value(self.child.0, p1.child.0, p2)
    self.child is Some
process_value(self.agg, p1.state, append_value(self.child.0, p1.child.0, p2))
    append_value(self.child.0, p1.child.0, p2) is Some; self.child is Some
process_value(self.agg, p1.state, p2)
    self.child is None
return none
    append_value(self.child.0, p1.child.0, p2) is None; self.child is Some
return process_value(self.agg, p1.state, append_value(self.child.0, p1.child.0, p2))
    append_value(self.child.0, p1.child.0, p2) is Some; self.child is Some
return process_value(self.agg, p1.state, p2)
    self.child is None
## Aggregator::finalise
finalise(self.child.0, p1.child.0)
    self.child is Some
process_value(self.agg, p1.state, finalise(self.child.0, p1.child.0))
    finalise(self.child.0, p1.child.0) is Some; self.child is Some
return calc_aggregation(p1.state, self.agg.function)
## Aggregator::default_state
return AggregatorState{}
return.child new(default_state(self.child.0))
    self.child is Some
return.child none
    self.child is None
return.state default()
