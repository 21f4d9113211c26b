## ModelDomain::time
return self.time
## ModelDomain::scenarios
return self.scenario
## ModelDomain::shape
return.0 len(self.time.timesteps)
return.1 len(self.scenario.indices)
## ModelDomainBuilder::new
return ModelDomainBuilder{}
return.scenario none
return.time p0
## ModelDomainBuilder::scenario
return self
self.scenario := p1
## ModelDomainBuilder::build
return ModelDomain{}
return.scenario build(default())
    self.scenario is None
return.scenario build(self.scenario)
    self.scenario is Some
return.time build(self.time)
## <ScenarioGroup as Default>::default
return ScenarioGroup{}
return.labels none
return.name "Default"
return.size 1
return.subset none
## ScenarioGroup::name
return self.name
## ScenarioGroup::size
return self.size
## ScenarioGroupBuilder::new
return ScenarioGroupBuilder{}
return.labels none
return.name p0
return.size p1
return.subset none
## ScenarioGroupBuilder::with_subset_slice
return ScenarioGroupBuilder{}
return.labels self.labels
return.name self.name
return.size self.size
return.subset Slice{}
return.subset.end p2
return.subset.start p1
## ScenarioGroupBuilder::with_subset_indices
return ScenarioGroupBuilder{}
return.labels self.labels
return.name self.name
return.size self.size
return.subset Indices{0: p1}
## ScenarioGroupBuilder::with_subset_labels
return ScenarioGroupBuilder{}
return.labels self.labels
return.name self.name
return.size self.size
return.subset Labels{0: p1}
## ScenarioGroupBuilder::with_labels
return ScenarioGroupBuilder{}
return.labels p1
return.name self.name
return.size self.size
return.subset self.subset
## ScenarioGroupBuilder::build
[accepts]
    !Lt(self.size, self.subset~Slice.end); Eq(len(self.labels), self.size); Lt(self.subset~Slice.start, self.subset~Slice.end); self.subset is Slice
    !Lt(self.size, self.subset~Slice.end); Lt(self.subset~Slice.start, self.subset~Slice.end); self.labels is None; self.subset is Slice
    Eq(len(self.labels), self.size); self.subset is Indices|Labels|None
    self.labels is None; self.subset is Indices|None
leave loop early()
    Eq(elem(self.labels), elem(self.subset~Labels.0)); self.subset is Some; self.subset? is Labels
return ScenarioGroup{}
return.labels self.labels
return.name self.name
return.size self.size
return.subset Indices{0: list(idx(self.labels) if Eq(elem(self.labels), elem(self.subset~Labels.0)) & for each(self.subset~Labels.0))}
    self.subset is Some; self.subset? is Labels
return.subset Indices{0: self.subset~Indices.0}
    self.subset is Some; self.subset? is Indices
return.subset Slice{}
    self.subset is Some; self.subset? is Slice
return.subset none
    self.subset is None
return.subset.end self.subset~Slice.end
    self.subset is Some; self.subset? is Slice
return.subset.start self.subset~Slice.start
    self.subset is Some; self.subset? is Slice
## <ScenarioLabelOrIndex as From<String>>::from
return Label{0: p0}
## <ScenarioLabelOrIndex as From<&str>>::from
return Label{0: p0}
## <ScenarioLabelOrIndex as From<usize>>::from
return Index{0: p0}
## ScenarioDomainBuilder::group_map
return list
return[] (elem(self.groups).name, idx(self.groups))
## ScenarioDomainBuilder::with_group
[accepts]
    !Eq(elem(self.groups).name, p1.name)
push(self.groups, p1)
return self
## ScenarioDomainBuilder::with_combinations
return ScenarioDomainBuilder{}
return.combinations p1
return.groups self.groups
## ScenarioDomainBuilder::build_scenario_map_from_subsets
[accepts]
    elem(self.groups).subset is Indices|None|Slice
elem(from_elem(none, len(self.groups))) := Range{}
    elem(self.groups).subset is Some; elem(self.groups).subset? is Slice
elem(from_elem(none, len(self.groups))) := elem(self.groups).subset~Indices.0
    elem(self.groups).subset is Some; elem(self.groups).subset? is Indices
elem(from_elem(none, len(self.groups))).end := elem(self.groups).subset~Slice.end
    elem(self.groups).subset is Some; elem(self.groups).subset? is Slice
elem(from_elem(none, len(self.groups))).start := elem(self.groups).subset~Slice.start
    elem(self.groups).subset is Some; elem(self.groups).subset? is Slice
return from_elem(none, len(self.groups))
## ScenarioDomainBuilder::build_scenario_map_from_combinations
insert(elem(from_elem(new(), len(self.groups))), elem(elem(p1)))
    for each(self.groups)
return list
return[] elem(from_elem(new(), len(self.groups)))
    !Lt(len(elem(from_elem(new(), len(self.groups)))), 1)
return[] none
    Lt(len(elem(from_elem(new(), len(self.groups)))), 1); for each(from_elem(new(), len(self.groups)))
## ScenarioDomainBuilder::build
[accepts]
    !Lt(len(self.groups), 1); elem(self.groups).subset is Indices|None|Slice; self.combinations is None
    !Lt(len(self.groups), 1); elem(self.groups).subset is None
    Lt(len(self.groups), 1)
leave loop early()
    !Lt(len(self.groups), 1); Eq(elem(elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))))), {elem(elem(self.combinations))~Index.0 | idx(elem(self.groups).labels)}); elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)))) is Some; self.combinations is Some
    !Lt(len(self.groups), 1); Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)); elem(elem(self.combinations)) is Label; self.combinations is Some
    !Lt(len(self.groups), 1); elem(build_scenario_map_from_subsets(self)) is Some; elem(self.groups).subset is None; self.combinations is None
    !Lt(len(self.groups), 1); elem(self.groups).subset is Some
return ScenarioDomain{}
return.groups list
    Lt(len(self.groups), 1)
return.groups self.groups
    !Lt(len(self.groups), 1)
return.groups[] ScenarioGroup{labels: none, name: "Default", size: 1, subset: none}
    Lt(len(self.groups), 1)
return.indices list
return.indices[] ScenarioIndex{core: ScenarioIndices{index: 0, indices: list(0)}, labels: list("0"), schema: none}
    Lt(len(self.groups), 1)
return.indices[] ScenarioIndex{core: ScenarioIndices{index: len(itself()), indices: list(elem(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size))) if elem(self.groups).subset is None & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}) & for each(self.groups), (elem(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size))) -elem(self.groups).subset~Slice.start) if !Lt(elem(new()), elem(self.groups).subset~Slice.start) & Lt(elem(new()), elem(self.groups).subset~Slice.end) & elem(self.groups).subset is Some & elem(self.groups).subset? is Slice & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}), none if !Eq(elem(elem(self.groups).subset~Indices.0), elem(new())) & contains(elem(self.groups).subset~Indices.0, elem(new())) & elem(self.groups).subset is Some & elem(self.groups).subset? is Indices & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}) & for each(self.groups), idx(elem(self.groups).subset~Indices.0) if Eq(elem(elem(self.groups).subset~Indices.0), elem(new())) & contains(elem(self.groups).subset~Indices.0, elem(new())) & elem(self.groups).subset is Some & elem(self.groups).subset? is Indices & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}))}, labels: list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size) if elem(self.groups).labels is None, elem(self.groups).labels[Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size)] if elem(self.groups).labels is Some), schema: ScenarioIndices{index: elem(Range{end: acc(1)*elem(self.groups).size, start: 0}), indices: list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size))}}
    !Lt(elem(new()), elem(self.groups).subset~Slice.start); !Lt(len(self.groups), 1); Lt(elem(new()), elem(self.groups).subset~Slice.end); elem(build_scenario_map_from_subsets(self)) is Some; elem(self.groups).subset is Some; elem(self.groups).subset? is Slice; self.combinations is None
    !Lt(len(self.groups), 1); contains(elem(self.groups).subset~Indices.0, elem(new())); elem(build_scenario_map_from_subsets(self)) is Some; elem(self.groups).subset is Some; elem(self.groups).subset? is Indices; self.combinations is None
    !Lt(len(self.groups), 1); elem(build_scenario_map_from_subsets(self)) is Some; elem(self.groups).subset is None; self.combinations is None
return.indices[] ScenarioIndex{core: ScenarioIndices{index: len(itself()), indices: list(elem(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size))) if elem(self.groups).subset is None & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}) & for each(self.groups), (elem(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size))) -elem(self.groups).subset~Slice.start) if !Lt(elem(new()), elem(self.groups).subset~Slice.start) & Lt(elem(new()), elem(self.groups).subset~Slice.end) & elem(self.groups).subset is Some & elem(self.groups).subset? is Slice & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}), none if !Eq(elem(elem(self.groups).subset~Indices.0), elem(new())) & contains(elem(self.groups).subset~Indices.0, elem(new())) & elem(self.groups).subset is Some & elem(self.groups).subset? is Indices & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}) & for each(self.groups), idx(elem(self.groups).subset~Indices.0) if Eq(elem(elem(self.groups).subset~Indices.0), elem(new())) & contains(elem(self.groups).subset~Indices.0, elem(new())) & elem(self.groups).subset is Some & elem(self.groups).subset? is Indices & for each(Range{end: acc(1)*elem(self.groups).size, start: 0}))}, labels: list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size) if elem(self.groups).labels is None, elem(self.groups).labels[Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size)] if elem(self.groups).labels is Some), schema: none}
    !Lt(elem(new()), elem(self.groups).subset~Slice.start); !Lt(len(self.groups), 1); Lt(elem(new()), elem(self.groups).subset~Slice.end); elem(build_scenario_map_from_subsets(self)) is None; elem(self.groups).subset is Some; elem(self.groups).subset? is Slice; for each(Range{end: acc(1)*elem(self.groups).size, start: 0}); self.combinations is None
    !Lt(len(self.groups), 1); contains(elem(self.groups).subset~Indices.0, elem(new())); elem(build_scenario_map_from_subsets(self)) is None; elem(self.groups).subset is Some; elem(self.groups).subset? is Indices; for each(Range{end: acc(1)*elem(self.groups).size, start: 0}); self.combinations is None
    !Lt(len(self.groups), 1); elem(build_scenario_map_from_subsets(self)) is None; elem(self.groups).subset is None; for each(Range{end: acc(1)*elem(self.groups).size, start: 0}); self.combinations is None
return.indices[] ScenarioIndex{core: ScenarioIndices{index: len(itself()), indices: list(none if !Eq(elem(elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))))), {elem(elem(self.combinations))~Index.0 | idx(elem(self.groups).labels)}) & elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)))) is Some & for each(zip(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))), list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))), idx(elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))))) if Eq(elem(elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))))), {elem(elem(self.combinations))~Index.0 | idx(elem(self.groups).labels)}) & elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)))) is Some, {elem(elem(self.combinations))~Index.0 | idx(elem(self.groups).labels)} if elem(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)))) is None & for each(zip(build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))), list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))))}, labels: list(elem(elem(self.combinations))~Index.0, elem(self.groups).labels[{elem(elem(self.combinations))~Index.0 | idx(elem(self.groups).labels)}], idx(elem(self.groups).labels)), schema: ScenarioIndices{index: (acc(0) +acc(1)*elem(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label))), indices: list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)}}
    !Lt(len(self.groups), 1); self.combinations is Some
return.scenario_map build_scenario_map_from_combinations(self, list(list(elem(elem(self.combinations))~Index.0 if elem(elem(self.combinations)) is Index, idx(elem(self.groups).labels) if Eq(elem(elem(self.combinations))~Label.0, elem(elem(self.groups).labels)) & elem(elem(self.combinations)) is Label)))
    !Lt(len(self.groups), 1); self.combinations is Some
return.scenario_map build_scenario_map_from_subsets(self)
    !Lt(len(self.groups), 1); self.combinations is None
return.scenario_map list
    Lt(len(self.groups), 1)
return.scenario_map[] none
    Lt(len(self.groups), 1)
reverse(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size) if elem(self.groups).labels is None, elem(self.groups).labels[Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size)] if elem(self.groups).labels is Some))
    !Lt(len(self.groups), 1); for each(Range{end: acc(1)*elem(self.groups).size, start: 0}); self.combinations is None
reverse(list(Rem(acc(elem(Range{end: acc(1)*elem(self.groups).size, start: 0})), elem(self.groups).size)))
    !Lt(len(self.groups), 1); for each(Range{end: acc(1)*elem(self.groups).size, start: 0}); self.combinations is None
## ScenarioIndices::new
return ScenarioIndices{}
return.index p0
return.indices p1
## <ScenarioIndices as Default>::default
return ScenarioIndices{}
return.index 0
return.indices list
return.indices[] 0
## ScenarioIndexBuilder::new
return ScenarioIndexBuilder{}
return.core ScenarioIndices{}
return.core.index p0
return.core.indices p1
return.labels p2
return.schema none
## ScenarioIndexBuilder::with_schema
return ScenarioIndexBuilder{}
return.core self.core
return.labels self.labels
return.schema ScenarioIndices{}
return.schema.index p1
return.schema.indices p2
## ScenarioIndexBuilder::build
return ScenarioIndex{}
return.core self.core
return.labels self.labels
return.schema self.schema
## <ScenarioIndex as Default>::default
return ScenarioIndex{}
return.core ScenarioIndices{}
return.core.index 0
return.core.indices list
return.core.indices[] 0
return.labels list
return.labels[] "0"
return.schema none
## ScenarioIndex::get_simulation_id
return self.core.index
## ScenarioIndex::get_simulation_indices
return self.core.indices
## ScenarioIndex::simulation_id
return self.core.index
## ScenarioIndex::simulation_indices
return self.core.indices
## ScenarioIndex::simulation_index_for_group
return self.core.indices[p1]
## ScenarioIndex::labels
return self.labels
## ScenarioIndex::schema_index_for_group
return self.core.indices[p1]
    self.schema is None
return self.schema.indices[p1]
    self.schema is Some
## ScenarioIndex::label
return join(self.labels, "-")
## ScenarioDomain::len
return len(self.indices)
## ScenarioDomain::is_empty
return false
    !Lt(len(self.indices), 1)
return true
    Lt(len(self.indices), 1)
## ScenarioDomain::indices
return self.indices
## ScenarioDomain::group_index
[accepts]
    Eq(elem(self.groups).name, p1)
[success]
    Eq(elem(self.groups).name, p1)
leave loop early()
return idx(self.groups)
## ScenarioDomain::groups
return self.groups
## ScenarioDomain::group_scenario_subset
return self.scenario_map[group_index(self, p1)]
## ScenarioDomain::group_size
return self.groups[group_index(self, p1)].size
