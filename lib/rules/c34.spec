## PywrDuration::from_days
return PywrDuration{0: from_hours(24*p0)}
## PywrDuration::from_hours
return PywrDuration{0: from_hours(p0)}
## PywrDuration::from_minutes
return PywrDuration{0: from_mins(p0)}
## PywrDuration::from_seconds
return PywrDuration{0: from_secs(p0)}
## PywrDuration::whole_days
return 1.15740740741e-05*as_secs_f64(self.0)
    Eq(0, fract(1.15740740741e-05*as_secs_f64(self.0)))
return none
    !Eq(0, fract(1.15740740741e-05*as_secs_f64(self.0)))
## PywrDuration::fractional_days
return 1.15740740741e-05*as_secs_f64(self.0)
## PywrDuration::milliseconds
return as_millis(self.0)
## PywrDuration::duration_string
push_str(new(), must_use(format(new(b"\xc0\x01d\x00", (new_display(1.15740740741e-08*as_millis(self.0)))))))
    !Lt(1.15740740741e-08*as_millis(self.0), 1)
push_str(new(), must_use(format(new(b"\xc0\x01h\x00", (new_display(2.77777777778e-07*Rem(as_millis(self.0), 86400000)))))))
    !Lt(2.77777777778e-07*Rem(as_millis(self.0), 86400000), 1)
push_str(new(), must_use(format(new(b"\xc0\x01m\x00", (new_display(1.66666666667e-05*Rem(as_millis(self.0), 3600000)))))))
    !Lt(1.66666666667e-05*Rem(as_millis(self.0), 3600000), 1)
push_str(new(), must_use(format(new(b"\xc0\x01s\x00", (new_display(0.001*Rem(as_millis(self.0), 60000)))))))
    !Lt(0.001*Rem(as_millis(self.0), 60000), 1)
push_str(new(), must_use(format(new(b"\xc0\x02ms\x00", (new_display(Rem(as_millis(self.0), 1000)))))))
    !Lt(Rem(as_millis(self.0), 1000), 1)
return new()
## Timestep::get_is_first
return false
    !Lt(self.index, 1)
return true
    Lt(self.index, 1)
## Timestep::get_days
return 1.15740740741e-05*as_secs_f64(self.duration.0)
## Timestep::get_day_of_year
return day_of_year(self.date)
## Timestep::new
return Timestep{}
return.date p0
return.duration p2
return.index p1
## Timestep::is_first
return false
    !Lt(self.index, 1)
return true
    Lt(self.index, 1)
## Timestep::days
return 1.15740740741e-05*as_secs_f64(self.duration.0)
## Timestep::is_leap_year
return false
    !in_leap_year(self.date)
return true
    in_leap_year(self.date)
## Timestep::day_of_year
return day_of_year(self.date)
## Timestep::day_of_year_index
return (day_of_year(self.date) -1)
    !in_leap_year(self.date); Lt(day_of_year(self.date), 60)
    in_leap_year(self.date)
return day_of_year(self.date)
    !Lt(day_of_year(self.date), 60); !in_leap_year(self.date)
## Timestep::fractional_day_of_year
return (1.15740740741e-05*as_secs_f64(duration_since(self.date, start_of_day(self.date))) +day_of_year_index(self))
## <Timestep as Add<PywrDuration>>::add
return Timestep{}
return.date (p1.0 +self.date)
return.duration p1
return.index (self.index +1)
## TimeDomainBuilder::new
return TimeDomainBuilder{}
return.end p1
return.start p0
return.timestep p2
## TimeDomainBuilder::timesteps
return generate_timesteps_from_fixed_duration(self, PywrDuration{0: from_hours(24*self.timestep~Days.0)})
    self.timestep is Days
return generate_timesteps_from_fixed_duration(self, PywrDuration{0: from_hours(self.timestep~Hours.0)})
    self.timestep is Hours
return generate_timesteps_from_frequency(self, self.timestep~Frequency.0)
    self.timestep is Frequency
## TimeDomainBuilder::generate_timesteps_from_fixed_duration
return list
return[] acc(Timestep{date: self.start, duration: p1, index: 0})
    !Lt(self.end, acc(Timestep{date: self.start, duration: p1, index: 0}).date)
## TimeDomainBuilder::generate_timesteps_from_frequency
[accepts]
    !Eq(0, parse(p1)); !negative(parse(p1))
return list
return[] Timestep{date: acc(self.start), duration: PywrDuration{0: duration_since((days(days(parse(p1)))*len(itself()) +days(days(parse(p1))) +self.start), acc(self.start))}, index: len(itself())}
    !Lt(self.end, acc(self.start)); days_only(parse(p1))
return[] Timestep{date: acc(self.start), duration: PywrDuration{0: duration_since((len(itself())*months(months(parse(p1))) +months(months(parse(p1))) +self.start), acc(self.start))}, index: len(itself())}
    !Lt(self.end, acc(self.start)); !days_only(parse(p1)); !weeks_only(parse(p1)); months_only(parse(p1))
return[] Timestep{date: acc(self.start), duration: PywrDuration{0: duration_since((len(itself())*nanoseconds(days(weeks(months(new(), months(parse(p1))), weeks(parse(p1))), days(parse(p1))), nanoseconds(parse(p1))) +nanoseconds(days(weeks(months(new(), months(parse(p1))), weeks(parse(p1))), days(parse(p1))), nanoseconds(parse(p1))) +self.start), acc(self.start))}, index: len(itself())}
    !Lt(self.end, acc(self.start)); !days_only(parse(p1)); !months_only(parse(p1)); !weeks_only(parse(p1))
return[] Timestep{date: acc(self.start), duration: PywrDuration{0: duration_since((len(itself())*weeks(weeks(parse(p1))) +self.start +weeks(weeks(parse(p1)))), acc(self.start))}, index: len(itself())}
    !Lt(self.end, acc(self.start)); !days_only(parse(p1)); weeks_only(parse(p1))
## TimeDomainBuilder::build
[accepts]
    !Lt(len(timesteps(self)), 1)
return TimeDomain{timesteps: timesteps(self)}
## TimeDomain::fixed_step_duration
leave loop early()
    !Eq(elem(self.timesteps).duration, first(self.timesteps).duration); first(self.timesteps) is Some
return first(self.timesteps).duration
    Eq(elem(self.timesteps).duration, first(self.timesteps).duration); first(self.timesteps) is Some
return none
    !Eq(elem(self.timesteps).duration, first(self.timesteps).duration); first(self.timesteps) is Some
    first(self.timesteps) is None
## TimeDomain::timesteps
return self.timesteps
## TimeDomain::len
return len(self.timesteps)
## TimeDomain::first_timestep
return first(self.timesteps)
## TimeDomain::last_timestep
return last(self.timesteps)
## TimeDomain::is_empty
return false
    !Lt(len(self.timesteps), 1)
return true
    Lt(len(self.timesteps), 1)
