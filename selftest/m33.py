D="pywr-core/src/parameters/"
M=[
("c33-div","C33",D+"division.rs","numerator / denominator","denominator / numerator"),
("c33-thr-ratchet","C33",D+"threshold.rs","            *previously_activated = true;\n","            *previously_activated = self.ratchet && !*previously_activated;\n"),
("c33-asym","C33",D+"asymmetric.rs","} else if on_value > 0 {","} else if on_value > 1 {"),
("c33-cci","C33",D+"control_curves/index.rs","if x >= cc_value {","if x > cc_value {"),
("c33-ccprev","C33",D+"control_curves/piecewise.rs","            cc_previous_value = cc_value;\n","            cc_previous_value = cc_value.max(x);\n"),
("c33-multi","C33",D+"multi_threshold.rs","if position > *previous_max {","if position >= *previous_max {"),
("c33-roll","C33",D+"rolling.rs","> self.window_size","> self.window_size + 1"),
("c33-rollmin","C33",D+"rolling.rs","len() < self.min_values","len() <= self.min_values"),
("c33-delay","C33",D+"delay.rs","(0..self.delay)","(1..self.delay)"),
("c33-monthly","C33",D+"profiles/monthly.rs","if current_month == 1 { 12 }","if current_month == 1 { 11 }"),
("c33-weekly","C33",D+"profiles/weekly.rs",".min(52)",".min(51)"),
("c33-deficit","C33",D+"deficit.rs",".max(0.0)",".abs()"),
("c33-offset","C33",D+"offset.rs","+ offset","- offset"),
("c33-r-position","-C33",D+"control_curves/index.rs","""        for (idx, control_curve) in self.control_curves.iter().enumerate() {
            let cc_value = control_curve.get_value(ctx.network, ctx.state)?;
            if x >= cc_value {
                return Ok(idx as u64);
            }
        }
        Ok(self.control_curves.len() as u64)""","""        let mut i = 0;
        while i < self.control_curves.len() {
            let v = self.control_curves[i].get_value(ctx.network, ctx.state)?;
            if !(x < v) {
                return Ok(i as u64);
            }
            i += 1;
        }
        Ok(i as u64)"""),
("c33-r-thr","-C33",D+"threshold.rs","""        if active {
            // Update the internal state to remember we've been triggered!
            *previously_activated = true;
            Ok(1)
        } else {
            Ok(0)
        }""","""        if !active {
            return Ok(0);
        }
        *previously_activated = true;
        Ok(u64::from(active))"""),
("c33-r-multi2","-C33",[(D+"multi_threshold.rs","""        let mut position: u64 = 0;
        for threshold in &self.thresholds {
            let t = threshold.get_value(ctx.network, ctx.state)?;
            let active = self.predicate.apply(value, t);

            if active {
                break;
            }
            position += 1;
        }
""","""        let position = self.first_active(value, &ctx)?;
"""),(D+"multi_threshold.rs","""impl GeneralBeforeParameter<u64> for MultiThresholdParameter {""","""impl MultiThresholdParameter {
    fn first_active(&self, value: f64, ctx: &GeneralParameterContext<'_>) -> Result<u64, GeneralCalculationError> {
        let mut position: u64 = 0;
        for threshold in &self.thresholds {
            if self.predicate.apply(value, threshold.get_value(ctx.network, ctx.state)?) {
                break;
            }
            position += 1;
        }
        Ok(position)
    }
}

impl GeneralBeforeParameter<u64> for MultiThresholdParameter {""")],None,None),
("c33-r-diff","-C33",D+"difference.rs","""self.a""","""self.a"""),
("c33-r-prev","-C33",D+"control_curves/piecewise.rs","""        let mut cc_previous_value = self.maximum;
        for (idx, control_curve) in self.control_curves.iter().enumerate() {
            let cc_value = control_curve.get_value(ctx.network, ctx.state)?;
            if x >= cc_value {""","""        let mut cc_previous_value = self.maximum;
        let mut idx = 0;
        for control_curve in self.control_curves.iter() {
            let cc_value = control_curve.get_value(ctx.network, ctx.state)?;
            if x < cc_value {
                cc_previous_value = cc_value;
                idx += 1;
                continue;
            }
            {"""),
]
