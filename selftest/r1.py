A="pywr-core/src/recorders/aggregator/mod.rs"
M=[
("r1-agg-andthen","-C35",A,"""        if let Some(agg_value) = agg_value {
            self.agg.process_value(&mut state.state, agg_value)
        } else {
            None
        }
""","""        agg_value.and_then(|v| self.agg.process_value(&mut state.state, v))
"""),
("r1-agg-question","-C35",A,"""        if let Some(agg_value) = agg_value {
            self.agg.process_value(&mut state.state, agg_value)
        } else {
            None
        }
""","""        let v = agg_value?;
        self.agg.process_value(&mut state.state, v)
"""),
("r1-agg-split-helper","-C35",[(A,"""            let current_duration = if start_of_next_period <= end_date {
                start_of_next_period.duration_since(current_date)
            } else {
                end_date.duration_since(current_date)
            };

            sub_values.push(PeriodValue {
                start: current_date,
                duration: current_duration.into(),
                value: value.value,
            });
""","""            let stop = Self::earlier(start_of_next_period, end_date);
            let current_duration = stop.duration_since(current_date);
            sub_values.push(PeriodValue::new(current_date, current_duration.into(), value.value));
"""),(A,"""    fn start_of_next_period(&self""","""    fn earlier(a: DateTime, b: DateTime) -> DateTime {
        if a <= b { a } else { b }
    }

    fn start_of_next_period(&self""")]),
("r1-agg-calc","-C35",A,"""        if let Some(current_values) = &self.current_values {
            if let Some(agg_value) = agg_func.calc_period_values(current_values) {
                // SAFETY""","""        if let Some(current_values) = self.current_values.as_ref() {
            let x = agg_func.calc_period_values(current_values);
            if let Some(agg_value) = x {
                // SAFETY"""),
("r1-agg-calc2","-C35",A,"""        if let Some(current_values) = &self.current_values {
            if let Some(agg_value) = agg_func.calc_period_values(current_values) {
                // SAFETY: The current_values vector is guaranteed to contain at least one value.
                let current_period_start = current_values
                    .first()
                    .expect("Aggregation state contains no values when at least one is expected.")
                    .start;

                let current_period_end = current_values
                    .last()
                    .expect("Aggregation state contains no values when at least one is expected.")
                    .start;
                let current_period_duration = current_period_end.duration_since(current_period_start);
                Some(PeriodValue::new(
                    current_period_start,
                    current_period_duration.into(),
                    agg_value,
                ))
            } else {
                None
            }
        } else {
            None
        }
""","""        let values = self.current_values.as_ref()?;
        let agg_value = agg_func.calc_period_values(values)?;
        let first = values.first().expect("no values");
        let last = values.last().expect("no values");
        let span = last.start.duration_since(first.start);
        Some(PeriodValue::new(first.start, span.into(), agg_value))
"""),
("r1-agg-proc-match","-C35",A,"""                let agg_period = if let Some(agg_value) = agg_func.calc_period_values(current_values) {
                    let agg_duration = value.start.duration_since(current_period_start);
                    Some(PeriodValue::new(current_period_start, agg_duration.into(), agg_value))
                } else {
                    None
                };
""","""                let agg_period = agg_func.calc_period_values(current_values).map(|agg_value| {
                    PeriodValue::new(
                        current_period_start,
                        value.start.duration_since(current_period_start).into(),
                        agg_value,
                    )
                });
"""),
("r1-agg-noperiod","-C35",A,"""        if let Some(current_values) = self.current_values.as_mut() {
            current_values.push(value);
        } else {
            self.current_values = Some(vec![value]);
        }
    }""","""        match &mut self.current_values {
            Some(vs) => vs.push(value),
            None => self.current_values = Some(vec![value]),
        }
    }"""),
("r1-agg-noperiod2","-C35",A,"""        if let Some(current_values) = self.current_values.as_mut() {
            current_values.push(value);
        } else {
            self.current_values = Some(vec![value]);
        }
    }""","""        self.current_values.get_or_insert_with(Vec::new).push(value);
    }"""),
("r1-agg-from","-C35",A,"""        let start = values.first().expect("Empty vector of period values.").start;
        let duration = values.last().expect("Empty vector of period values.").duration;

        let value = values.iter().map(|v| v.value).collect();
        Self { start, duration, value }""","""        let mut value = Vec::with_capacity(values.len());
        for v in values {
            value.push(v.value);
        }
        let first = values.first().expect("Empty vector of period values.");
        let last = values.last().expect("Empty vector of period values.");
        Self { duration: last.duration, start: first.start, value }"""),
("r1-agg-indate","-C35",A,"""            Self::Monthly => (period_start.year() == date.year()) && (period_start.month() == date.month()),""","""            Self::Monthly => {
                if date.month() != period_start.month() {
                    return false;
                }
                date.year() == period_start.year()
            }"""),
("r1-agg-setup","-C35",A,"""            child: self.child.as_ref().map(|c| Box::new(c.setup())),
        }""","""            child: match &self.child {
                Some(c) => Some(Box::new(c.setup())),
                None => None,
            },
        }"""),
("r1-agg-fin","-C35",A,"""        if let Some(final_child_value) = final_child_value {
            let _ = self.agg.process_value(&mut state.state, final_child_value);
        }

        // Finally, compute the aggregation of the current state
        self.agg.calc_aggregation(&state.state)
    }
""","""        self.absorb(final_child_value, state);
        state.state.calc_aggregation(&self.agg.function)
    }

    fn absorb(&self, v: Option<PeriodValue<f64>>, state: &mut AggregatorState) {
        match v {
            None => {}
            Some(v) => {
                self.agg.process_value(&mut state.state, v);
            }
        }
    }
"""),
]
# the inverted form needs its else branch removed
M=[m for m in M if m[0]!="r1-agg-invert"]+[("r1-agg-invert","-C35",[(A,"""        if let Some(period) = &self.frequency {
            for v in""","""        let Some(period) = self.frequency.as_ref() else {
            current_state.process_value_no_period(value);
            return None;
        };
        {
            for v in"""),(A,"""        } else {
            current_state.process_value_no_period(value);
        }
        agg_value
""","""        }
        agg_value
""")])]
