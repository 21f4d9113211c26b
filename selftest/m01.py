N="pywr-core/src/network.rs"; S="pywr-core/src/models/simple.rs"; MU="pywr-core/src/models/multi.rs"
M=[
("c01-vs-before-nodes","C01",N,"""        for vs in &self.virtual_storage_nodes {
            vs.before(timestep, state)""","""        for vs in self.virtual_storage_nodes.iter().skip(1) {
            vs.before(timestep, state)"""),
("c01-after-skip-first","C01",N,"""        // Finally, save new data to the metric set
        for (metric_set, ms_state) in self.metric_sets""","""        if timestep.is_first() { return Ok(()); }
        for (metric_set, ms_state) in self.metric_sets"""),
("c01-save-before-after","C01",S,"""        // Finally increment the time-step index
        state.current_time_step_idx += 1;""","""        state.current_time_step_idx += if state.current_time_step_idx == 3 {2} else {1};"""),
("c01-run-break","C01",S,"""                Err(ModelStepError::EndOfTimesteps) => break,""","""                Err(ModelStepError::EndOfTimesteps | ModelStepError::RecorderSaveError{..}) => break,"""),
("c01-rev","C01",N,"""            .iter()
            .zip(state.states.iter_mut())
            .zip(state.parameter_internal_states.iter_mut())
            .zip(state.metric_set""","""            .iter()
            .zip(state.states.iter_mut())
            .zip(state.parameter_internal_states.iter_mut().rev())
            .zip(state.metric_set"""),
("c01-break-rec","C01",N,"""        for (recorder, internal_state) in self.recorders.iter().zip(recorder_internal_states) {""","""        for (recorder, internal_state) in self.recorders.iter().zip(recorder_internal_states) {
            if recorder.name().is_empty() { continue; }"""),
("c01-order","C01",MU,"""            // Perform inter-model state updates
            self.compute_inter_network_transfers(idx, timestep, scenario_indices, &mut state.states)?;

            let sub_model_solvers = state.solvers.get_mut(idx).unwrap();""","""            if idx > 0 { self.compute_inter_network_transfers(idx, timestep, scenario_indices, &mut state.states)?; }

            let sub_model_solvers = state.solvers.get_mut(idx).unwrap();"""),
("c01-refactor-loop","-C01",N,"""        for (metric_set, ms_state) in self.metric_sets.iter().zip(metric_set_states.iter_mut()) {
            metric_set
                .save(timestep, scenario_index, self, state, ms_state)
                .map_err(|source| NetworkStepError::MetricSetSaveError {
                    name: metric_set.name().to_string(),
                    source,
                })?;
        }""","""        for i in 0..self.metric_sets.len() {
            let metric_set = &self.metric_sets[i];
            let ms_state = &mut metric_set_states[i];
            let r = metric_set.save(timestep, scenario_index, self, state, ms_state);
            if let Err(source) = r {
                return Err(NetworkStepError::MetricSetSaveError { name: metric_set.name().to_string(), source });
            }
        }"""),
("c01-refactor-helper","-C01",N,"""                    let solve_timings = solver.solve(self, timestep, current_state)?;
                    // State now contains updated parameter values AND updated network state
                    timings.solve += solve_timings;""","""                    fn doit<S: Solver>(s: &mut S, n: &Network, t: &Timestep, st: &mut State, tm: &mut NetworkTimings) -> Result<(), NetworkStepError> { let x = s.solve(n, t, st)?; tm.solve += x; Ok(()) }
                    doit(solver.as_mut(), self, timestep, current_state, timings)?;"""),
]
