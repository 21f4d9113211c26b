S="pywr-core/src/scenario.rs"; V="pywr-core/src/virtual_storage.rs"; T="pywr-core/src/timestep.rs"
M=[
("r2-label-let","-C09",S,"""        match &self.labels {
            Some(labels) => {
                labels
                    .iter()
                    .position(|l| l == label)
                    .ok_or_else(|| ScenarioDomainBuilderError::LabelNotFound {
                        group: self.name.clone(),
                        label: label.to_string(),
                    })
            }
            None => Err(ScenarioDomainBuilderError::NoLabels {
                group: self.name.clone(),
            }),
        }
""","""        let Some(labels) = self.labels.as_ref() else {
            return Err(ScenarioDomainBuilderError::NoLabels { group: self.name.clone() });
        };
        for (i, l) in labels.iter().enumerate() {
            if l == label {
                return Ok(i);
            }
        }
        Err(ScenarioDomainBuilderError::LabelNotFound {
            group: self.name.clone(),
            label: label.to_string(),
        })
"""),
("r2-group-any","-C09",S,"""        for g in &self.groups {
            if g.name == group.name {
                return Err(ScenarioDomainBuilderError::DuplicateGroupName(group.name.clone()));
            }
        }
""","""        if self.groups.iter().any(|g| g.name == group.name) {
            return Err(ScenarioDomainBuilderError::DuplicateGroupName(group.name));
        }
"""),
("r2-comb-loop","-C09",S,"""        self.combinations = Some(
            combinations
                .into_iter()
                .map(|inner| inner.into_iter().map(Into::into).collect())
                .collect(),
        );
        self""","""        let mut all = Vec::with_capacity(combinations.len());
        for inner in combinations {
            let row: Vec<ScenarioLabelOrIndex> = inner.into_iter().map(Into::into).collect();
            all.push(row);
        }
        self.combinations = Some(all);
        self"""),
("r2-subset-collect","-C09",S,"""                        let mut indices: Vec<usize> = Vec::with_capacity(end - start);
                        for i in *start..*end {
                            indices.push(i);
                        }
                        scenario_map[group_index] = Some(indices);""","""                        scenario_map[group_index] = Some((*start..*end).collect());"""),
("r2-subset-rewrite","-C09",S,"""        let mut scenario_map: Vec<Option<Vec<usize>>> = vec![None; self.groups.len()];

        for (group_index, group) in self.groups.iter().enumerate() {
            if let Some(subset) = &group.subset {
                match subset {
                    ScenarioGroupSubset::Slice { start, end } => {
                        let mut indices: Vec<usize> = Vec::with_capacity(end - start);
                        for i in *start..*end {
                            indices.push(i);
                        }
                        scenario_map[group_index] = Some(indices);
                    }
                    ScenarioGroupSubset::Indices(indices) => {
                        scenario_map[group_index] = Some(indices.clone());
                    }
                }
            }
        }

        scenario_map""","""        self.groups
            .iter()
            .map(|group| match &group.subset {
                Some(ScenarioGroupSubset::Slice { start, end }) => Some((*start..*end).collect()),
                Some(ScenarioGroupSubset::Indices(indices)) => Some(indices.clone()),
                None => None,
            })
            .collect()"""),
("r2-combmap","-C09",S,"""        let scenario_map: Vec<Option<Vec<usize>>> = scenario_map
            .iter()
            .map(|set| {
                if set.is_empty() {
                    None
                } else {
                    Some(set.iter().copied().collect())
                }
            })
            .collect();

        scenario_map""","""        let mut out = Vec::new();
        for set in &scenario_map {
            out.push(if set.is_empty() {
                None
            } else {
                Some(set.iter().copied().collect::<Vec<usize>>())
            });
        }
        out"""),
("r2-schemaid","-C09",S,"""        let mut id = 0;
        let mut multiplier = 1;
        for (group_index, group) in self.groups.iter().enumerate() {
            id += combination[group_index] * multiplier;
            multiplier *= group.size;
        }
        id""","""        let mut multiplier = 1;
        let mut id = 0;
        for (position, group) in combination.iter().zip(&self.groups) {
            id += position * multiplier;
            multiplier *= group.size;
        }
        id"""),
("r2-schemaid2","-C09",S,"""        for (group_index, group) in self.groups.iter().enumerate() {
            id += combination[group_index] * multiplier;
            multiplier *= group.size;
        }
        id""","""        for group_index in 0..self.groups.len() {
            let step = combination[group_index] * multiplier;
            id = id + step;
            multiplier = multiplier * self.groups[group_index].size;
        }
        id"""),
("r2-build-guard","-C09",S,"""            if self.groups.iter().any(|grp| grp.subset.is_some()) && self.combinations.is_some() {
                return Err(ScenarioDomainBuilderError::CombinationsAndSlices);
            }
""","""            self.check_exclusive()?;
""",),
("r2-combloop","-C09",S,"""                for combination in combinations {
                    let simulation_indices = scenario_map_from_combinations
                        .iter()
                        .zip(combination.iter())
                        .map(|(s, c)| match s {
                            Some(set) => set.iter().position(|i| i == c).unwrap(),
                            None => *c,
                        })
                        .collect();

                    let labels: Vec<_> = self
                        .groups
                        .iter()
                        .zip(combination.iter())
                        .map(|(group, idx)| match group.labels.as_ref() {
                            Some(labels) => labels[*idx].clone(),
                            None => idx.to_string(),
                        })
                        .collect();
""","""                for combination in combinations {
                    let labels: Vec<_> = self
                        .groups
                        .iter()
                        .zip(combination.iter())
                        .map(|(group, idx)| {
                            if let Some(labels) = &group.labels {
                                labels[*idx].clone()
                            } else {
                                idx.to_string()
                            }
                        })
                        .collect();

                    let mut simulation_indices = Vec::with_capacity(combination.len());
                    for (s, c) in scenario_map_from_combinations.iter().zip(combination.iter()) {
                        let i = match s {
                            Some(set) => set.iter().position(|i| i == c).unwrap(),
                            None => *c,
                        };
                        simulation_indices.push(i);
                    }
"""),
("r2-vs-helper","-C30",[(V,"""        let min_volume = self
            .min_volume
            .as_ref()
            .map(|min_volume| {
                min_volume
                    .resolve(resolution_maps, MetricConsumerPhase::Before)
                    .map_err(|source| VirtualStorageNodeBuilderError::ResolveMetricF64Error {
                        attr: "min_volume".to_string(),
                        source,
                    })?
                    .try_into()
                    .map_err(|source| VirtualStorageNodeBuilderError::CouldNotSimplifyMetricF64 {
                        attr: "max_volume".to_string(),
                        source,
                    })
            })
            .transpose()?;

        let max_volume = self
            .max_volume
            .as_ref()
            .map(|max_volume| {
                max_volume
                    .resolve(resolution_maps, MetricConsumerPhase::Before)
                    .map_err(|source| VirtualStorageNodeBuilderError::ResolveMetricF64Error {
                        attr: "max_volume".to_string(),
                        source,
                    })?
                    .try_into()
                    .map_err(|source| VirtualStorageNodeBuilderError::CouldNotSimplifyMetricF64 {
                        attr: "max_volume".to_string(),
                        source,
                    })
            })
            .transpose()?;

        let storage_constraints = StorageConstraints::new(min_volume, max_volume);

        Ok(storage_constraints)
    }
""","""        let min_volume = match &self.min_volume {
            Some(m) => Some(Self::simple(m, resolution_maps, "min_volume")?),
            None => None,
        };
        let max_volume = match &self.max_volume {
            Some(m) => Some(Self::simple(m, resolution_maps, "max_volume")?),
            None => None,
        };
        Ok(StorageConstraints::new(min_volume, max_volume))
    }

    fn simple(
        m: &UnresolvedMetricF64,
        resolution_maps: &ResolutionMaps,
        attr: &str,
    ) -> Result<crate::metric::SimpleMetricF64, VirtualStorageNodeBuilderError> {
        let r = m
            .resolve(resolution_maps, MetricConsumerPhase::Before)
            .map_err(|source| VirtualStorageNodeBuilderError::ResolveMetricF64Error {
                attr: attr.to_string(),
                source,
            })?;
        r.try_into()
            .map_err(|source| VirtualStorageNodeBuilderError::CouldNotSimplifyMetricF64 {
                attr: attr.to_string(),
                source,
            })
    }
""")]),
("r2-vs-nodes","-C30",V,"""        let nodes = self
            .nodes
            .iter()
            .map(|unresolved| {
                resolution_maps.nodes.get(unresolved).copied().ok_or_else(|| {
                    VirtualStorageNodeBuilderError::NodeIndexNotFound {
                        node: unresolved.clone(),
                    }
                })
            })
            .collect::<Result<Vec<_>, _>>()?;
""","""        let mut nodes = Vec::with_capacity(self.nodes.len());
        for unresolved in &self.nodes {
            match resolution_maps.nodes.get(unresolved) {
                Some(idx) => nodes.push(*idx),
                None => {
                    return Err(VirtualStorageNodeBuilderError::NodeIndexNotFound {
                        node: unresolved.clone(),
                    });
                }
            }
        }
"""),
("r2-vs-factors","-C30",V,"""        let factors = self.factors.clone().unwrap_or_else(|| vec![1.0; self.nodes.len()]);""","""        let factors = match &self.factors {
            None => vec![1.0; self.nodes.len()],
            Some(f) => f.clone(),
        };"""),
("r2-ts-dayidx","-C34",T,"""        let mut i = self.date.day_of_year() as usize - 1;
        if !self.date.in_leap_year() && i > 58 {
            i += 1;
        }
        i""","""        let i = self.day_of_year() - 1;
        if self.is_leap_year() || i <= 58 { i } else { i + 1 }"""),
("r2-ts-fixed","-C34",T,"""        let mut timesteps: Vec<Timestep> = Vec::new();
        let mut current = Timestep::new(self.start, 0, duration);

        while current.date <= self.end {
            let next = current + duration;
            timesteps.push(current);
            current = next;
        }
        timesteps""","""        let mut current = Timestep::new(self.start, 0, duration);
        let mut timesteps = Vec::new();
        loop {
            if current.date > self.end {
                break;
            }
            timesteps.push(current);
            current = current + duration;
        }
        timesteps"""),
("r2-ts-fixdur","-C34",T,"""        let first_duration = self.timesteps.first().map(|ts| ts.duration);

        first_duration.filter(|&first_duration| self.timesteps.iter().all(|ts| ts.duration == first_duration))""","""        let first_duration = self.timesteps.first()?.duration;
        if self.timesteps.iter().all(|ts| ts.duration == first_duration) {
            Some(first_duration)
        } else {
            None
        }"""),
("r2-ts-fixdur2","-C34",T,"""        let first_duration = self.timesteps.first().map(|ts| ts.duration);

        first_duration.filter(|&first_duration| self.timesteps.iter().all(|ts| ts.duration == first_duration))""","""        let first = self.timesteps.first()?;
        for ts in &self.timesteps {
            if ts.duration != first.duration {
                return None;
            }
        }
        Some(first.duration)"""),
("r2-ts-freq","-C34",T,"""        let span = if duration.days_only() {
            duration.days().days()
        } else if duration.weeks_only() {
            duration.weeks().weeks()
        } else if duration.months_only() {
            duration.months().months()
        } else {
            Span::new()
                .months(duration.months())
                .weeks(duration.weeks())
                .days(duration.days())
                .nanoseconds(duration.nanoseconds())
        };
""","""        let span = Self::span_of(&duration);
"""),
("r2-ts-build","-C34",T,"""        let timesteps = self.timesteps()?;

        // Final check we have at least one timestep.
        if timesteps.is_empty() {
            return Err(TimeDomainBuilderError::NoTimesteps);
        }

        Ok(TimeDomain { timesteps })""","""        match self.timesteps()? {
            timesteps if timesteps.len() == 0 => Err(TimeDomainBuilderError::NoTimesteps),
            timesteps => Ok(TimeDomain { timesteps }),
        }"""),
]
def fix(m):
    if m[0]=="r2-build-guard":
        return (m[0],m[1],[(S,m[3],m[4]),(S,"""    fn schema_id(&self""","""    fn check_exclusive(&self) -> Result<(), ScenarioDomainBuilderError> {
        let sliced = self.groups.iter().any(|grp| grp.subset.is_some());
        if sliced && self.combinations.is_some() {
            Err(ScenarioDomainBuilderError::CombinationsAndSlices)
        } else {
            Ok(())
        }
    }

    fn schema_id(&self""")])
    if m[0]=="r2-ts-freq":
        return (m[0],m[1],[(T,m[3],m[4]),(T,"""    pub fn build(&self) -> Result<TimeDomain,""","""    fn span_of(duration: &polars::time::Duration) -> Span {
        if duration.days_only() {
            return duration.days().days();
        }
        if duration.weeks_only() {
            return duration.weeks().weeks();
        }
        if duration.months_only() {
            return duration.months().months();
        }
        Span::new()
            .months(duration.months())
            .weeks(duration.weeks())
            .days(duration.days())
            .nanoseconds(duration.nanoseconds())
    }

    pub fn build(&self) -> Result<TimeDomain,""")])
    return m
M=[fix(m) for m in M]
