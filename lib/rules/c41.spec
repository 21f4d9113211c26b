## <ComponentConversionError as FromPyObject>::extract
return extract(p0)
## <ConversionError as FromPyObject>::extract
return extract(p0)
## <Metadata as Default>::default
return Metadata{}
return.description none
return.minimum_version none
return.title "Untitled model"
## <Metadata as From<Metadata>>::from
return Metadata{}
return.description p0.description
return.minimum_version p0.minimum_version
return.title "Model converted from Pywr v1.x with no title."
    p0.title is None
return.title p0.title
    p0.title is Some
## <Timestep as From<Timestep>>::from
return Days{days: new(ts~Days.0)}
    ts is 0
return Frequency{freq: ts~Frequency.0}
    ts is 1
## <Timestep as Default>::default
return Days{days: new(1)}
## <TimeDomain as Default>::default
return TimeDomain{}
return.end at(date(2000, 12, 31), 0, 0, 0, 0)
return.start at(date(2000, 1, 1), 0, 0, 0, 0)
return.timestep Days{days: new(1)}
## <TimeDomain as From<Timestepper>>::from
return TimeDomain{}
return.end p0.end
return.start p0.start
return.timestep from(p0.timestep)
## <TimeDomainBuilder as From<TimeDomain>>::from
return TimeDomainBuilder{}
return.end p0.end
return.start p0.start
return.timestep Days{0: p0.timestep~Days.days}
    p0.timestep is Days
return.timestep Frequency{0: p0.timestep~Frequency.freq}
    p0.timestep is Frequency
return.timestep Hours{0: p0.timestep~Hours.hours}
    p0.timestep is Hours
## <ScenarioGroup as TryInto<ScenarioGroup>>::try_into
[accepts]
    self.subset is Indices|Labels|None|Slice
return build(ScenarioGroupBuilder{labels: none, name: self.name, size: self.size, subset: Indices{0: self.subset~Indices.0.indices}})
    self.labels is None; self.subset is Some; self.subset? is Indices
return build(ScenarioGroupBuilder{labels: none, name: self.name, size: self.size, subset: Labels{0: self.subset~Labels.0.labels}})
    self.labels is None; self.subset is Some; self.subset? is Labels
return build(ScenarioGroupBuilder{labels: none, name: self.name, size: self.size, subset: Slice{end: self.subset~Slice.0.end, start: self.subset~Slice.0.start}})
    self.labels is None; self.subset is Some; self.subset? is Slice
return build(ScenarioGroupBuilder{labels: none, name: self.name, size: self.size, subset: none})
    self.labels is None; self.subset is None
return build(ScenarioGroupBuilder{labels: self.labels, name: self.name, size: self.size, subset: Indices{0: self.subset~Indices.0.indices}})
    self.labels is Some; self.subset is Some; self.subset? is Indices
return build(ScenarioGroupBuilder{labels: self.labels, name: self.name, size: self.size, subset: Labels{0: self.subset~Labels.0.labels}})
    self.labels is Some; self.subset is Some; self.subset? is Labels
return build(ScenarioGroupBuilder{labels: self.labels, name: self.name, size: self.size, subset: Slice{end: self.subset~Slice.0.end, start: self.subset~Slice.0.start}})
    self.labels is Some; self.subset is Some; self.subset? is Slice
return build(ScenarioGroupBuilder{labels: self.labels, name: self.name, size: self.size, subset: none})
    self.labels is Some; self.subset is None
## <ScenarioGroup as TryFrom<Scenario>>::try_from
[accepts]
    len(p0.slice) is 1|2|3
    p0.slice is None
[success]
    len(p0.slice) is 1|2|3; p0.slice is Some
    p0.slice is None
return ScenarioGroup{}
return.labels p0.ensemble_names
return.name p0.name
return.size p0.size
return.subset Indices{0: ScenarioGroupIndices{indices: list(elem(Range{end: p0.size, start: default()}) if for each(step_by(Range{end: p0.size, start: default()}, p0.slice[2])) & step_by(p0.slice[2]))}}
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is None; p0.slice[2] is Some
return.subset Indices{0: ScenarioGroupIndices{indices: list(elem(Range{end: p0.size, start: p0.slice[0]}) if for each(step_by(Range{end: p0.size, start: p0.slice[0]}, p0.slice[2])) & step_by(p0.slice[2]))}}
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is None; p0.slice[2] is Some
return.subset Indices{0: ScenarioGroupIndices{indices: list(elem(Range{end: p0.slice[1], start: default()}) if for each(step_by(Range{end: p0.slice[1], start: default()}, p0.slice[2])) & step_by(p0.slice[2]))}}
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is Some; p0.slice[2] is Some
return.subset Indices{0: ScenarioGroupIndices{indices: list(elem(Range{end: p0.slice[1], start: p0.slice[0]}) if for each(step_by(Range{end: p0.slice[1], start: p0.slice[0]}, p0.slice[2])) & step_by(p0.slice[2]))}}
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is Some; p0.slice[2] is Some
return.subset Slice{0: ScenarioGroupSlice{end: p0.size, start: 0}}
    len(p0.slice) is 1; p0.slice is Some
return.subset Slice{0: ScenarioGroupSlice{end: p0.size, start: default()}}
    len(p0.slice) is 2; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is None
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is None; p0.slice[2] is None
return.subset Slice{0: ScenarioGroupSlice{end: p0.size, start: p0.slice[0]}}
    len(p0.slice) is 2; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is None
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is None; p0.slice[2] is None
return.subset Slice{0: ScenarioGroupSlice{end: p0.slice[1], start: default()}}
    len(p0.slice) is 2; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is Some
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is None; p0.slice[1] is Some; p0.slice[2] is None
return.subset Slice{0: ScenarioGroupSlice{end: p0.slice[1], start: p0.slice[0]}}
    len(p0.slice) is 2; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is Some
    len(p0.slice) is 3; p0.slice is Some; p0.slice[0] is Some; p0.slice[1] is Some; p0.slice[2] is None
return.subset none
    p0.slice is None
## <ScenarioLabelOrIndex as From<ScenarioLabelOrIndex>>::from
return Index{0: p0~Index.0}
    p0 is Index
return Label{0: p0~Label.0}
    p0 is Label
## <ScenarioDomain as TryFrom<Vec<Scenario>>>::try_from
return ScenarioDomain{}
return.combinations none
return.groups list
return.groups[] try_into(elem(p0))
## <ScenarioDomain as TryInto<ScenarioDomainBuilder>>::try_into
return ScenarioDomainBuilder{}
    self.combinations is Some
return with_group(acc(default()), try_into(elem(self.groups)))
    self.combinations is None
return.combinations self.combinations
    self.combinations is Some
return.groups with_group(acc(default()), try_into(elem(self.groups))).groups
    self.combinations is Some
## <ModelSchema as FromStr>::from_str
return from_str(p0)
## <ModelSchema as VisitPaths>::visit_paths
visit_paths(self.network, p1)
## <ModelSchema as VisitPaths>::visit_paths_mut
visit_paths_mut(self.network, p1)
## <ModelSchema as VisitMetrics>::visit_metrics
visit_metrics(self.network, p1)
## <ModelSchema as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self.network, p1)
## <ModelSchema as VisitNodeReferences>::visit_node_references
visit_node_references(self.network, p1)
## <ModelSchema as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self.network, p1)
## ModelSchema::new
return ModelSchema{}
return.metadata Metadata{}
return.metadata.description none
return.metadata.minimum_version none
return.metadata.title p0
return.network default()
return.scenarios none
return.time TimeDomain{}
return.time.end p2
return.time.start p1
return.time.timestep Days{days: new(1)}
## ModelSchema::from_path
return from_str(read_to_string(p0))
## ModelSchema::validate
validate(self.network)
## ModelSchema::create_model_builder
ModelDomainBuilder{scenario: none, time: from(self.time)}.scenario := default()
    self.scenarios is None
ModelDomainBuilder{scenario: none, time: from(self.time)}.scenario := try_into(self.scenarios)
    self.scenarios is Some
add_to_network(self.network, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, ())
return ModelBuilder{}
return.domain build(ModelDomainBuilder{scenario: none, time: from(self.time)})
return.network default()
## ModelSchema::from_v1
extend(new(), from_v1(p0.network).1)
push(new(), Scenarios{error: ScenarioCombinationsWithoutGroups})
    p0.scenario_combinations is Some; p0.scenarios is None
    p0.scenario_combinations is Some; p0.scenarios is Some; try_into(p0.scenarios) is Err
push(new(), Scenarios{error: err(try_into(p0.scenarios))})
    p0.scenarios is Some; try_into(p0.scenarios) is Err
return.0 ModelSchema{}
return.0.metadata from(p0.metadata)
return.0.network from_v1(p0.network).0
return.0.scenarios none
    p0.scenarios is None
    p0.scenarios is Some; try_into(p0.scenarios) is Err
return.0.scenarios try_into(p0.scenarios)
    p0.scenarios is Some; try_into(p0.scenarios) is Ok
return.0.time TimeDomain{}
return.0.time.end p0.timestepper.end
return.0.time.start p0.timestepper.start
return.0.time.timestep from(p0.timestepper.timestep)
return.1 new()
## ModelSchema::from_v1_str
return from_v1(from_str(p0))
## <MultiNetworkModelSchema as FromStr>::from_str
return from_str(p0)
## MultiNetworkModelSchema::new
return MultiNetworkModelSchema{}
return.metadata Metadata{}
return.metadata.description none
return.metadata.minimum_version none
return.metadata.title p0
return.networks new()
return.scenarios none
return.time TimeDomain{}
return.time.end p2
return.time.start p1
return.time.timestep Days{days: new(1)}
## MultiNetworkModelSchema::from_path
return from_str(read_to_string(p0))
## MultiNetworkModelSchema::validate
validate(elem(self.networks).network~Inline.0)
    elem(self.networks).network is Inline
## MultiNetworkModelSchema::create_model_builder
ModelDomainBuilder{scenario: none, time: from(self.time)}.scenario := default()
    self.scenarios is None
ModelDomainBuilder{scenario: none, time: from(self.time)}.scenario := try_into(self.scenarios)
    self.scenarios is Some
MultiNetworkTransferBuilder{name: elem(elem(self.networks).transfers).name}.initial_value := elem(elem(self.networks).transfers).initial_value
    elem(elem(self.networks).transfers).initial_value is Some
add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers)
    elem(self.networks).network is Inline
add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers)
    !is_relative(elem(self.networks).network~Path.0); elem(self.networks).network is Path; p1 is Some
    elem(self.networks).network is Path; p1 is None
add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers)
    elem(self.networks).network is Path; is_relative(elem(self.networks).network~Path.0); p1 is Some
load(elem(elem(self.networks).transfers).metric, list(default() if for each(self.networks))[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]], LoadArgs{data_path: p1, domain: build(ModelDomainBuilder{scenario: none, time: from(self.time)}), inter_network_transfers: (), schema: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].0, tables: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].1, timeseries: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].2}, none)
return MultiNetworkModelBuilder{}
return.domain build(ModelDomainBuilder{scenario: none, time: from(self.time)})
return.networks list
return.networks[] MultiNetworkEntryBuilder{name: elem(self.networks).name, network: elem(list(default() if for each(self.networks))), transfers: elem(list(list(MultiNetworkTransferBuilder{from_metric: load(elem(elem(self.networks).transfers).metric, list(default() if for each(self.networks))[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]], LoadArgs{data_path: p1, domain: build(ModelDomainBuilder{scenario: none, time: from(self.time)}), inter_network_transfers: (), schema: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].0, tables: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].1, timeseries: list((elem(self.networks).network~Inline.0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(elem(self.networks).network~Inline.0, default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Inline, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & p1 is None, (from_str(read_to_string(elem(self.networks).network~Path.0)), add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(elem(self.networks).network~Path.0)), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if !is_relative(elem(self.networks).network~Path.0) & elem(self.networks).network is Path & p1 is Some, (from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).0, add_to_network(from_str(read_to_string(join(p1, elem(self.networks).network~Path.0))), default(), build(ModelDomainBuilder{scenario: none, time: from(self.time)}), p1, p2, elem(self.networks).transfers).1) if elem(self.networks).network is Path & is_relative(elem(self.networks).network~Path.0) & p1 is Some)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(self.networks).transfers).from_network]].2}, none), from_model: elem(elem(self.networks).transfers).from_network, initial_value: none, name: elem(elem(self.networks).transfers).name}) if for each(self.networks)))}
## <NetworkSchema as FromStr>::from_str
return from_str(p0)
## <NetworkSchema as VisitPaths>::visit_paths
visit_paths(elem(flatten(self.outputs))~CSV.0.decimal_places, p1)
    elem(flatten(self.outputs)) is CSV
visit_paths(elem(flatten(self.outputs))~CSV.0.filename, p1)
    elem(flatten(self.outputs)) is CSV
visit_paths(elem(flatten(self.outputs))~CSV.0.metric_set~Multiple.0, p1)
    elem(flatten(self.outputs)) is CSV; elem(flatten(self.outputs))~CSV.0.metric_set is Multiple
visit_paths(elem(flatten(self.outputs))~HDF5.0.filename, p1)
    elem(flatten(self.outputs)) is HDF5
visit_paths(elem(flatten(self.outputs))~Memory.0.0.aggregation, p1)
    elem(flatten(self.outputs)) is Memory
visit_paths(elem(flatten(self.outputs))~Memory.0.0.order, p1)
    elem(flatten(self.outputs)) is Memory
visit_paths(elem(flatten(self.parameters)), p1)
visit_paths(elem(flatten(self.timeseries)), p1)
visit_paths(elem(self.nodes), p1)
## <NetworkSchema as VisitPaths>::visit_paths_mut
visit_paths_mut(elem(flatten(self.outputs))~CSV.0.decimal_places, p1)
    elem(flatten(self.outputs)) is CSV
visit_paths_mut(elem(flatten(self.outputs))~CSV.0.filename, p1)
    elem(flatten(self.outputs)) is CSV
visit_paths_mut(elem(flatten(self.outputs))~CSV.0.metric_set~Multiple.0, p1)
    elem(flatten(self.outputs)) is CSV; elem(flatten(self.outputs))~CSV.0.metric_set is Multiple
visit_paths_mut(elem(flatten(self.outputs))~HDF5.0.filename, p1)
    elem(flatten(self.outputs)) is HDF5
visit_paths_mut(elem(flatten(self.outputs))~Memory.0.0.aggregation, p1)
    elem(flatten(self.outputs)) is Memory
visit_paths_mut(elem(flatten(self.outputs))~Memory.0.0.order, p1)
    elem(flatten(self.outputs)) is Memory
visit_paths_mut(elem(flatten(self.parameters)), p1)
visit_paths_mut(elem(flatten(self.timeseries)), p1)
visit_paths_mut(elem(self.nodes), p1)
## <NetworkSchema as VisitMetrics>::visit_metrics
call(p1, elem(elem(self.metric_sets).metrics))
    elem(self.metric_sets).metrics is Some; self.metric_sets is Some
visit_metrics(elem(flatten(self.parameters)), p1)
visit_metrics(elem(flatten(self.virtual_nodes)), p1)
visit_metrics(elem(self.nodes), p1)
## <NetworkSchema as VisitMetrics>::visit_metrics_mut
call(p1, elem(elem(self.metric_sets).metrics))
    elem(self.metric_sets).metrics is Some; self.metric_sets is Some
visit_metrics_mut(elem(flatten(self.parameters)), p1)
visit_metrics_mut(elem(flatten(self.virtual_nodes)), p1)
visit_metrics_mut(elem(self.nodes), p1)
## <NetworkSchema as VisitNodeReferences>::visit_node_references
visit_node_references(elem(flatten(self.metric_sets)).metrics, p1)
visit_node_references(elem(flatten(self.parameters)), p1)
visit_node_references(elem(flatten(self.virtual_nodes)), p1)
visit_node_references(elem(self.edges), p1)
visit_node_references(elem(self.nodes), p1)
## <NetworkSchema as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(elem(flatten(self.metric_sets)).metrics, p1)
visit_node_references_mut(elem(flatten(self.parameters)), p1)
visit_node_references_mut(elem(flatten(self.virtual_nodes)), p1)
visit_node_references_mut(elem(self.edges), p1)
visit_node_references_mut(elem(self.nodes), p1)
## NetworkSchema::from_path
return from_str(read_to_string(p0))
## NetworkSchema::from_v1
[accepts]
    !Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); !Lt(len(new()), 1); p0.nodes is None; p0.parameters is None
    !Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); !Lt(len(new()), 1); p0.nodes is None; try_into_v2(elem(p0.parameters), none, default()) is Err|Parameter|Timeseries
    !Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); !Lt(len(new()), 1); p0.parameters is None; try_into_v2(elem(p0.nodes), none, default()) is Err|Node|Virtual
    !Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); !Lt(len(new()), 1); try_into_v2(elem(p0.nodes), none, default()) is Err|Node|Virtual; try_into_v2(elem(p0.parameters), none, default()) is Err|Parameter|Timeseries
    Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); Lt(len(new()), 1); p0.nodes is None; p0.parameters is None
    Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); Lt(len(new()), 1); p0.nodes is None; try_into_v2(elem(p0.parameters), none, default()) is Err|Parameter|Timeseries
    Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); Lt(len(new()), 1); p0.parameters is None; try_into_v2(elem(p0.nodes), none, default()) is Err|Node|Virtual
    Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default()) is Virtual)), 1); Lt(len(new()), 1); try_into_v2(elem(p0.nodes), none, default()) is Err|Node|Virtual; try_into_v2(elem(p0.parameters), none, default()) is Err|Parameter|Timeseries
[success]
    !Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default())? is Virtual)), 1); !Lt(len(new()), 1)
    Lt(len(list(try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default())? is Virtual)), 1); Lt(len(new()), 1)
default().unnamed_count := 0
    p0.nodes is Some; p0.parameters is None
    p0.parameters is Some
extend(new(), default().parameters)
extend(new(), default().timeseries)
push(default().virtual_nodes, name(elem(p0.nodes)~Core.0.0))
    p0.nodes is Some
push(new(), try_into_v2(elem(p0.parameters), none, default())~Parameter.0.0)
    p0.parameters is Some; try_into_v2(elem(p0.parameters), none, default()) is Ok; try_into_v2(elem(p0.parameters), none, default())? is Parameter
return.0 NetworkSchema{}
return.0.edges list
    p0.edges is Some
return.0.edges new()
    p0.edges is None
return.0.edges[] try_into(elem(p0.edges))
    p0.edges is Some; try_into(elem(p0.edges)) is Ok
return.0.metric_sets none
return.0.nodes list
return.0.nodes[] try_into_v2(elem(p0.nodes), none, default())~Node.0.0
    p0.nodes is Some; try_into_v2(elem(p0.nodes), none, default()) is Ok; try_into_v2(elem(p0.nodes), none, default())? is Node
return.0.outputs none
return.0.parameters new()
    !Lt(len(new()), 1)
return.0.parameters none
    Lt(len(new()), 1)
return.0.tables none
return.0.timeseries new()
    !Lt(len(new()), 1)
return.0.timeseries none
    Lt(len(new()), 1)
return.0.virtual_nodes list
    !Lt(len(new()), 1)
return.0.virtual_nodes none
    Lt(len(new()), 1)
return.0.virtual_nodes[] try_into_v2(elem(p0.nodes), none, default())~Virtual.0.0
    !Lt(len(new()), 1); p0.nodes is Some; try_into_v2(elem(p0.nodes), none, default()) is Ok; try_into_v2(elem(p0.nodes), none, default())? is Virtual
return.1 list
return.1[] Edge{error: err(try_into(elem(p0.edges))), from_node: elem(p0.edges).from_node, to_node: elem(p0.edges).to_node}
    p0.edges is Some; try_into(elem(p0.edges)) is Err
return.1[] Table{error: TableConversionNotSupported{name: elem(flatten(p0.tables)).name}, json: ok(to_string(elem(flatten(p0.tables)))), name: elem(flatten(p0.tables)).name, url: elem(flatten(p0.tables)).url}
return.1[] err(try_into_v2(elem(p0.nodes), none, default())).0
    p0.nodes is Some; try_into_v2(elem(p0.nodes), none, default()) is Err
return.1[] err(try_into_v2(elem(p0.parameters), none, default())).0
    p0.parameters is Some; try_into_v2(elem(p0.parameters), none, default()) is Err
try_into_v2(elem(p0.nodes), none, default())
    p0.nodes is Some
try_into_v2(elem(p0.parameters), none, default())
    p0.parameters is Some
visit_metrics_mut(list(try_into_v2(elem(p0.nodes), none, default())~Node.0.0 if p0.nodes is Some & try_into_v2(elem(p0.nodes), none, default()) is Ok & try_into_v2(elem(p0.nodes), none, default())? is Node), |leave loop early() if Eq(elem(new()).original_parameter_name, xa~Parameter.0.name) & xa is Parameter / xa := Timeseries{0: elem(new()).ts_ref} if Eq(elem(new()).original_parameter_name, xa~Parameter.0.name) & xa is Parameter|)
visit_metrics_mut(new(), |leave loop early() if Eq(elem(new()).original_parameter_name, xa~Parameter.0.name) & xa is Parameter / xa := Timeseries{0: elem(new()).ts_ref} if Eq(elem(new()).original_parameter_name, xa~Parameter.0.name) & xa is Parameter|)
## NetworkSchema::get_node_by_name
leave loop early()
    Eq(name(elem(self.nodes)), p1)
return elem(self.nodes)
    Eq(name(elem(self.nodes)), p1)
return none
    !Eq(name(elem(self.nodes)), p1)
## NetworkSchema::get_node_index_by_name
leave loop early()
    Eq(name(elem(self.nodes)), p1); idx(self.nodes) is Some
return idx(self.nodes)
    Eq(name(elem(self.nodes)), p1); idx(self.nodes) is Some
return none
    !Eq(name(elem(self.nodes)), p1)
    Eq(name(elem(self.nodes)), p1); idx(self.nodes) is None
## NetworkSchema::get_node
return self.nodes[p1]
## NetworkSchema::get_virtual_node_by_name
leave loop early()
    Eq(name(elem(self.virtual_nodes)), p1); self.virtual_nodes is Some
return elem(self.virtual_nodes)
    Eq(name(elem(self.virtual_nodes)), p1); self.virtual_nodes is Some
return none
    !Eq(name(elem(self.virtual_nodes)), p1); self.virtual_nodes is Some
    self.virtual_nodes is None
## NetworkSchema::get_virtual_node_index_by_name
leave loop early()
    Eq(name(elem(self.virtual_nodes)), p1); idx(self.virtual_nodes) is Some; self.virtual_nodes is Some
return idx(self.virtual_nodes)
    Eq(name(elem(self.virtual_nodes)), p1); idx(self.virtual_nodes) is Some; self.virtual_nodes is Some
return none
    !Eq(name(elem(self.virtual_nodes)), p1); self.virtual_nodes is Some
    Eq(name(elem(self.virtual_nodes)), p1); idx(self.virtual_nodes) is None; self.virtual_nodes is Some
    self.virtual_nodes is None
## NetworkSchema::get_virtual_node
return none
    self.virtual_nodes is None
return self.virtual_nodes[p1]
    self.virtual_nodes is Some
## NetworkSchema::get_parameter_by_name
leave loop early()
    Eq(meta(elem(self.parameters)).name, p1); self.parameters is Some
return elem(self.parameters)
    Eq(meta(elem(self.parameters)).name, p1); self.parameters is Some
return none
    !Eq(meta(elem(self.parameters)).name, p1); self.parameters is Some
    self.parameters is None
## NetworkSchema::node_name_exists
return false
    get_node_by_name(self, p1) is None; get_virtual_node_by_name(self, p1) is None
return true
    get_node_by_name(self, p1) is None; get_virtual_node_by_name(self, p1) is Some
    get_node_by_name(self, p1) is Some
## NetworkSchema::validate
[accepts]
    Lt(len(list(DuplicateNodeName{name: elem(new()).0, nodes: elem(new()).1.0, virtual_nodes: elem(new()).1.1} if !Lt(elem(new()).1.0 +elem(new()).1.1, 2))), 1)
entry(new(), name(elem(flatten(self.virtual_nodes))))
entry(new(), name(elem(self.nodes)))
## NetworkSchema::add_to_network
add_to_model(elem(self.outputs), p1, p3, p4)
    self.outputs is Some
add_to_network(elem(local_parameters(elem(self.nodes))), p1, LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)}, name(elem(self.nodes)))
    local_parameters(elem(self.nodes)) is Some
add_to_network(elem(self.metric_sets), p1, LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)})
    self.metric_sets is Some
add_to_network(elem(self.nodes), p1, LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)})
add_to_network(elem(self.parameters), p1, LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)}, none)
    self.parameters is Some
add_to_network(elem(self.virtual_nodes), p1, LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)})
    self.virtual_nodes is Some
push(p1.edges, UnresolvedEdge{from: elem(iter_node_connection_pairs(elem(self.edges), LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)})).0, to: elem(iter_node_connection_pairs(elem(self.edges), LoadArgs{data_path: p3, domain: p2, inter_network_transfers: p5, schema: self, tables: from_schema(self.tables, p3), timeseries: from_schema(self.timeseries, p2, p3)})).1})
return.0 from_schema(self.tables, p3)
return.1 from_schema(self.timeseries, p2, p3)
validate(self)
