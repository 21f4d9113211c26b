def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, obs=None, level="other"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs:
        a["observe_at"] = obs
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": a, "technique": technique, "note": note, "level": level}

def T(id, title, statement, over, qtext, why, files, mech, note="", **k):
    """a property decided by decision tables of every function of its part of the code base"""
    return P(id, title, statement, over, qtext, why, files, [(n, w) for n, w in mech],
             "decision tables by interprocedural path-sensitive value-flow analysis of MIR, compared with a reviewed normal-form specification",
             ("All success paths of every function of the part are analysed, loops by one generic iteration; a function the analysis cannot bring "
              "into normal form is reported as undecided and not judged. " + note).strip(), **k)


CORE = "pywr-core/src/"
SCH = "pywr-schema/src/"
PROPS = [
P("C01", "Every time-step runs all phases, in order, for every scenario",
  "In each time-step and for every scenario, the simple parameters, every node's and virtual storage's pre-solve update, the general parameters' before phase, the solve, the general parameters' after phase and the saving of every metric set all run, in that order, each on that scenario's own data; this is equally true for the serial, parallel and multi-scenario steps. Recorders are saved once per step after the solve, multi-network transfers happen before each network's step, the position advances by exactly one per step, and a run ends successfully only when the time-steps are exhausted.",
  ["inputs", "schedules", "configurations"], "all networks, scenario counts, thread schedules, solvers and model kinds",
  "Integration tests run a few models with the serial or default step and compare final outputs; the parallel and multi-scenario paths, multi-network combinations and the per-phase data wiring are covered for at most one small model, and pywr-core's own unit tests are not built.",
  [CORE + "network.rs", CORE + "models/simple.rs", CORE + "models/multi.rs"],
  [("step variants", CORE + "network.rs"), ("model run loops", CORE + "models/simple.rs"), ("multi-network run loops", CORE + "models/multi.rs")],
  "interprocedural must-execute, ordering and loop-completeness dataflow on MIR control-flow graphs, plus value-flow terms for the data each phase receives",
  "All success paths of the step and run functions of the current source are covered (error exits excluded); bodies of the phases themselves are other properties.",
  obs=["Network::step", "Network::step_par", "Network::step_multi_scenario", "Model::run", "MultiNetworkModel::run"]),
T("C02", "Solvers solve the current programme and write its flows back to the state",
  "For every step and scenario each solver backend first refreshes its programme from that scenario's state, passes exactly the refreshed objective, bounds, right-hand sides and coefficients to the solving library, and reports an error instead of a result when the library reports failure. The flow stored for every edge is the primal value of that edge's column, all edges are written, and afterwards the state is completed so that storage volumes include the step.",
  ["inputs", "configurations"], "all networks, states, solver backends and settings",
  "The tests solve a handful of feasible models; backends that are not built for the tests (OpenCL, CBC, CLP) and failing or partially changed programmes are never run.",
  [CORE + "solvers/"], [("HiGHS", CORE + "solvers/highs/mod.rs"), ("CLP and CBC", CORE + "solvers/clp/mod.rs"), ("microlp", CORE + "solvers/microlp/mod.rs"), ("interior point", CORE + "solvers/ipm_simd/mod.rs")],
  "Numerical optimality of the returned solution is the solving library's business and not claimed.", obs=["Solver::solve", "MultiStateSolver::solve"]),
P("C03", "The linear programme is refreshed from the current state every time-step",
  "Before every solve, each column's objective is the cost of its edge in the current state, each node row's bounds are the node's current flow bounds (volume-limited for storage, with virtual storages limited by the volume available per day), and every non-constant factor, coefficient and right-hand side of an aggregated-node row is recomputed. Nothing of the previous step's programme survives where the current state or parameters say otherwise, in each of the programme representations.",
  ["inputs", "histories"], "all networks, parameter values and step histories",
  "Stale coefficients only show when a parameter changes between steps in a combination (non-constant factor with a particular relationship, storage or virtual storage) that no test model has.",
  [CORE + "solvers/builder.rs", CORE + "solvers/ipm_simd/mod.rs", CORE + "solvers/ipm_ocl/mod.rs", CORE + "node.rs", CORE + "aggregated_node.rs", CORE + "virtual_storage.rs", CORE + "edge.rs"],
  [("shared builder", CORE + "solvers/builder.rs"), ("interior point builders", CORE + "solvers/ipm_simd/mod.rs"), ("bounds and costs", CORE + "node.rs")],
  "decision tables by interprocedural path-sensitive value-flow analysis of MIR, compared with a hand-written specification",
  "All success paths of the refresh routines and of the node, edge, aggregated-node and virtual-storage routines that supply numbers; loops by one generic iteration.",
  obs=["the programme handed to the solver in each step"]),
T("C04", "Flows and volumes in the state obey mass balance and stay within limits",
  "Adding a flow to an edge adds it to the outflow of the upstream node and the inflow of the downstream node, whatever the node kinds; a storage's volume after a step is its volume before plus net inflow times the days in the step, limited to its current minimum and maximum volume, with proportional volume computed from the same numbers. Flows are reset before every solve, initial volumes come from the configured absolute, proportional or distributed value, and aggregated storages and every getter report the state of exactly the nodes they are given.",
  ["inputs", "histories"], "all networks, flows, step lengths and histories",
  "Tests compare end results of small models with one-day steps; limits hit from both sides, resets, other step lengths and mixed node kinds are not sampled.",
  [CORE + "state/mod.rs", CORE + "aggregated_storage_node.rs", CORE + "edge.rs", CORE + "node.rs"], [("network state", CORE + "state/"), ("storage initial volume and reset", CORE + "node.rs"), ("edges", CORE + "edge.rs")],
  obs=["NetworkState::get_node_volume", "NetworkState::get_node_in_flow"]),
T("C05", "Parameter values are stored and read back under their own kind and index",
  "A value set for a parameter of a kind (constant, simple, general before or after the solve; real, integer or multi-valued) is what a later read of that kind and index returns, in that scenario's state only, and no read ever returns another kind's, index's or scenario's value. Reads of unknown indices or keys are reported as errors, never defaulted, and the per-parameter internal state has the same property.",
  ["inputs", "histories"], "all parameter kinds, indices and evaluation orders",
  "Tests have a few parameters per kind, so an access to the wrong store often returns an equal value or fails in unrelated ways.",
  [CORE + "state/mod.rs"], [("value stores", CORE + "state/"), ("parameter states", CORE + "state/")], obs=["State::get_parameter_value", "State::set_parameter_value"]),
T("C08", "Parameters are registered, ordered and evaluated completely in each phase",
  "Every parameter added to a network is kept in the collection of its kind under a unique name, found again by that name, given its own state, and evaluated exactly once per phase in dependency order: constants at set-up, simple parameters before general ones, general before-hooks before and after-hooks after the solve. The value each evaluation produces is stored under that parameter's index after being checked for NaN, and a parameter whose inputs are all constant or simple is moved to the cheaper kind without changing its value.",
  ["inputs", "programs"], "all parameter graphs, names and kinds",
  "Test models have few parameters and mostly one kind each; ordering and mis-registration only show in larger mixed graphs.",
  [CORE + "parameters/mod.rs"], [("collection and builder", CORE + "parameters/mod.rs"), ("evaluation per phase", CORE + "parameters/mod.rs")], obs=["ParameterCollection"]),
T("C09", "Scenarios are the requested combinations, each with its own index",
  "The scenarios simulated are exactly the full product of all groups with later groups varying fastest, or the requested explicit combinations, or the combination of the requested subsets and slices; each has a distinct consecutive simulation id, the index it has in the full product, its per-group indices in group order and the labels of those indices. Group sizes, names, labels, lookups and array shapes all agree with that order, and inconsistent requests (duplicate groups, wrong label counts, unknown groups or labels, subsets together with combinations) are errors.",
  ["inputs", "configurations"], "all groups, sizes, labels, subsets and combinations",
  "Tests use one or two small groups; stride and label mistakes show only with three or more groups, uneven sizes or mixed subsets.",
  [CORE + "scenario.rs", CORE + "models/mod.rs"], [("domain builder", CORE + "scenario.rs"), ("model domain", CORE + "models/mod.rs")], obs=["ScenarioDomain::indices"]),
T("C10", "Recorders save each value at its own time, scenario and column",
  "In every step each recorder saves, for each scenario and each metric it was given and in that order, the value that metric has in that scenario's state at that time, into the row, column, dataset or record of that time, scenario and metric. Headers, dataset names and attributes name the metric and scenario whose values follow, aggregated recorders save each completed period once with its own start and the last incomplete one when the run ends, and assertions compare with the expected value of the current time and scenario.",
  ["inputs", "histories"], "all metrics, scenarios, formats and run lengths",
  "Tests check few outputs, mostly with one scenario; swapped axes and missing last periods are invisible there.",
  [CORE + "recorders/"], [("CSV", CORE + "recorders/csv.rs"), ("HDF5", CORE + "recorders/hdf.rs"), ("memory", CORE + "recorders/memory.rs"), ("metric sets", CORE + "recorders/metric_set.rs")],
  obs=["Recorder::save", "Recorder::finalise"]),
T("C11", "Each parameter in a model file becomes the core parameter it describes",
  "Every parameter type of the model format creates exactly one core parameter of the matching kind, named after it (and its parent when local), whose metrics, values, tables, factors, bounds, lags, thresholds, aggregation functions and flags are the ones written in the file, each passed to the setting of the same meaning with the documented default when it is left out. References are resolved with the parent the parameter has, and anything that cannot be resolved or is inconsistent is an error that stops loading.",
  ["inputs", "programs"], "all parameter types and settings",
  "Tests load each parameter type with one set of values and many optional settings never; a swapped or dropped setting is not noticed.",
  [SCH + "parameters/"], [("parameter loading", SCH + "parameters/"), ("aggregation functions", SCH + "agg_funcs.rs")], obs=["Parameter::add_to_network"]),
T("C15", "A node's attributes and components name the right internal quantity",
  "For every node type, each attribute (inflow, outflow, volume, maximum, deficit, loss, abstraction, compensation and so on) yields a metric of exactly that quantity on exactly the internal nodes that carry it, the default attribute is used when none is given, and unsupported attributes are errors. Likewise each component available to flow or storage constraints resolves to exactly the internal nodes it stands for.",
  ["inputs", "programs"], "all node types, attributes and components",
  "Tests read one or two attributes of some node types; an attribute wired to a neighbouring internal node often has the same value in them.",
  [SCH + "nodes/"], [("node attributes", SCH + "nodes/core.rs"), ("reservoir, river and works attributes", SCH + "nodes/")], obs=["Node::create_metric"]),
T("C16", "Each node in a model file is built as the internal structure it describes",
  "Every node type creates exactly the internal nodes, edges, aggregated nodes and virtual storages that its documentation describes, with its costs, minimum and maximum flows, losses, volumes, initial volume, bathymetry, rainfall and evaporation applied to the internal node of that meaning. Optional structure exists exactly when it is configured, nothing configured is dropped, and settings left out take the documented default.",
  ["inputs", "programs"], "all node types and combinations of optional settings",
  "The tests contain one or two configurations per node type out of the product of their optional settings.",
  [SCH + "nodes/"], [("node loading", SCH + "nodes/core.rs"), ("composite nodes", SCH + "nodes/")], obs=["Node::add_to_network"]),
T("C17", "Reference visitors reach every metric, path and node reference",
  "Visiting a model, in its reading and its modifying form, presents every metric, every file path and every node reference it contains to the visitor exactly once, through options, lists, maps, arrays and nested structures, so that renaming nodes, checking references or relocating files misses nothing.",
  ["programs", "inputs"], "all models and visitors",
  "Tests visit a few hand-made structures; a container that silently skips its content is not among them.",
  [SCH + "visit.rs"], [("visitor traits", SCH + "visit.rs")], obs=["VisitMetrics", "VisitPaths", "VisitNodeReferences"]),
T("C19", "A data file with a checksum is only accepted with the matching content",
  "When a checksum is given for a data file, the file is read in full with the named hash algorithm and accepted only if the digest equals the given one (ignoring letter case as documented); a mismatch or an unreadable file is an error that stops loading.",
  ["inputs"], "all files, algorithms and digests",
  "Tests contain one matching and one failing file per algorithm at most.",
  [SCH + "digest.rs"], [("digest check", SCH + "digest.rs")], obs=["Checksum::check"]),
T("C20", "Converting version 1 models keeps every supported setting",
  "Every version 1 node, parameter, recorder, table and scenario that has a version 2 equivalent is converted to that equivalent with each of its settings carried to the setting of the same meaning, nested parameters extracted under unique names and referenced by those names, and defaults of version 1 made explicit where they differ. Everything that cannot be converted is reported as a conversion error naming the component, rather than dropped.",
  ["inputs", "programs"], "all version 1 models",
  "A handful of version 1 files are converted in the tests and compared; most settings of most types never occur in them.",
  [SCH + "v1.rs", SCH + "nodes/", SCH + "parameters/"], [("conversion helpers", SCH + "v1.rs"), ("node conversion", SCH + "nodes/"), ("parameter conversion", SCH + "parameters/")], obs=["ModelSchema::from_v1"],
  note="The command that drives the conversion of whole directories is not judged."),
T("C21", "Values move between networks of a multi-network model as wired",
  "Before each step of a network and for every scenario, each of its transfers receives the value that its metric has in the named source network's state of the same scenario, from the current step if the source is solved earlier and the previous step otherwise, and the initial value in the first step where one is given. Networks keep their order, names are unique, and every transfer is stored under its own index of the receiving network.",
  ["inputs", "histories", "configurations"], "all networks, transfers and scenario counts",
  "Two small multi-network models are tested, with one scenario and transfers in one direction.",
  [CORE + "models/multi.rs"], [("transfers", CORE + "models/multi.rs"), ("multi-network builder", CORE + "models/multi.rs")], obs=["MultiNetworkModel::compute_inter_network_transfers"]),
T("C22", "The network holds exactly the nodes, edges and components it was given",
  "Every node, aggregated node, virtual storage, edge, parameter, metric set and recorder added to a network is present under a fresh index, found by exactly its own name (and sub-name), linked to the nodes it was connected to in the right direction, and carries the costs and constraints given to it; duplicate names, unknown names and connections a node kind does not support are errors. Constant limits are reported as constant only if they are, and a node's current minimum, maximum and cost are the values of its own constraints.",
  ["inputs", "programs"], "all networks and build sequences",
  "Builder mistakes (mixed up kinds, directions or limits) only show for combinations of node kinds and constraints that the few test networks do not contain.",
  [CORE + "network.rs", CORE + "node.rs"], [("network registry", CORE + "network.rs"), ("node builders", CORE + "node.rs")], obs=["Network", "NetworkBuilder", "Node"]),
T("C26", "Variables can be read, set and bounded exactly as configured",
  "A parameter configured as a variable offers exactly its configured number of values with its configured lower and upper bounds; setting them replaces all of them for that scenario, reading them back gives what was set, and the parameter then uses the new values. Wrong lengths, indices or parameters that are not variables are errors and change nothing.",
  ["inputs", "histories"], "all variable parameters, values and call sequences",
  "The tests set few variables once; bounds and multi-valued variables are sampled at single points.",
  [CORE + "parameters/", CORE + "network.rs"], [("variable parameters", CORE + "parameters/mod.rs"), ("network access", CORE + "network.rs")], obs=["Network::set_f64_parameter_variable_values"]),
T("C27", "Aggregation functions compute what their names say",
  "Sum, product, mean, minimum, maximum, counts of zero or non-zero values, any and all are computed over all the given values, and over periods the mean and the counts are weighted with each value's duration; empty input gives the documented neutral value.",
  ["inputs"], "all value sequences and durations",
  "Tests aggregate short lists with equal durations.",
  [CORE + "agg_funcs/"], [("aggregation functions", CORE + "agg_funcs/mod.rs")], "Floating point rounding is not considered.", obs=["AggFuncF64"]),
T("C28", "The programme has one row per constraint and one column per edge",
  "At set-up the programme has exactly one non-negative column per edge (merged where mass balance forces equality), a mass-balance row for every link and storage, a flow or volume row for every node, virtual storage and aggregated node with limits, and one row per pair of an aggregated relationship, with coefficient +1 for flow entering and -1 for leaving (or the factor) in the columns of exactly that component's edges. Constant limits and factors are put in at set-up, everything else is marked for refresh, and row and column bookkeeping maps each back to its own component.",
  ["inputs", "programs"], "all network topologies and constraint kinds",
  "Tests solve a few topologies; a wrong coefficient often leaves their optimum unchanged.",
  [CORE + "solvers/builder.rs", CORE + "solvers/col_edge_map.rs", CORE + "solvers/ipm_simd/mod.rs", CORE + "solvers/ipm_ocl/mod.rs"], [("shared builder", CORE + "solvers/builder.rs"), ("column map", CORE + "solvers/col_edge_map.rs"), ("interior point builders", CORE + "solvers/ipm_simd/mod.rs")],
  obs=["SolverBuilder::create"]),
T("C29", "A metric's value is the current value of the thing it refers to",
  "Every metric evaluates to the named quantity (flow, volume, proportional volume, deficit, parameter value, transfer, sum over the listed things) of exactly the component it refers to in the given scenario's current state, and is simplified to a constant or simple metric only when the referred value is one. Resolving a reference by name finds the value of that parameter in the first kind that has it, and failure to evaluate or convert is an error.",
  ["inputs", "programs"], "all metrics, components and states",
  "Many metric kinds are not used by any test model, others only where several kinds have the same value.",
  [CORE + "metric.rs"], [("metric evaluation", CORE + "metric.rs"), ("resolution", CORE + "metric.rs")], obs=["MetricF64::get_value"]),
T("C30", "Virtual storages account for their nodes' flows and reset on schedule",
  "After every step a virtual storage's volume falls by the sum over its nodes of factor times flow times days, only while it is active, and it is reset to its initial or maximum volume exactly when its reset rule (never, day of year, every n months) says so and it is active; with a rolling window, the oldest step's use is given back once the window is full. Volumes, limits, cost and the volume available to the solver are those of the same virtual storage in the same scenario.",
  ["inputs", "histories"], "all virtual storages, calendars and flow histories",
  "Tests run a few virtual storages over short periods; window roll-over, wrapped active periods and multi-month resets are sampled at single dates.",
  [CORE + "virtual_storage.rs"], [("update and reset", CORE + "virtual_storage.rs"), ("builder", CORE + "virtual_storage.rs")], obs=["VirtualStorageNode::before"]),
T("C31", "Solver settings and features mean what they say",
  "Each solver declares exactly the features its programme supports, a network requires exactly the features of the constraints it contains, and a run is refused when a required feature is missing unless the check is switched off. Settings given through builders or the environment reach the solver under the same meaning, and defaults are as documented.",
  ["configurations"], "all solver settings and networks",
  "Each test uses default settings and a solver that supports the model.",
  [CORE + "solvers/"], [("settings", CORE + "solvers/"), ("features", CORE + "solvers/mod.rs"), ("required features", CORE + "network.rs")], obs=["Solver::features", "Network::required_features"]),
T("C32", "Aggregated nodes relate the flows of their nodes as specified",
  "An aggregated node limits the sum of its nodes' flows to its minimum and maximum and relates them by its proportion, ratio, coefficient or exclusivity rule: n-1 proportions give the last as the remainder, ratios pair the first node with each other in their given order, coefficients pass each node's factor and the right-hand side unchanged. Invalid factors (negative, zero, above one, wrong count) are errors, constant factors are evaluated once only if all of them are constant, and all others are re-evaluated from the current state.",
  ["inputs", "programs"], "all aggregated nodes, factors and states",
  "Tests have two or three nodes with constant factors; dynamic factors, more nodes and error cases are not sampled.",
  [CORE + "aggregated_node.rs"], [("relationships", CORE + "aggregated_node.rs"), ("builder", CORE + "aggregated_node.rs")], obs=["AggregatedNode::get_norm_factor_pairs"]),
T("C33", "Each core parameter computes its formula from its own inputs",
  "Every parameter's value in a step is its documented formula (profile lookup by date, control curves and their interpolation, thresholds, aggregation, delay, discount, polynomial, hydropower, interpolation, licences, arrays by time and scenario and so on) of the values its own inputs have in that scenario and step, with the documented choice at every boundary of a comparison. Stateful parameters update only their own state for that scenario and start from their initial value.",
  ["inputs", "histories"], "all parameters, input values, dates and histories",
  "pywr-core's parameter unit tests are not built here and the model tests evaluate each formula at a few points, rarely on a boundary.",
  [CORE + "parameters/"], [("compute and hooks", CORE + "parameters/"), ("interpolation", CORE + "parameters/interpolate.rs"), ("hydropower", CORE + "utils.rs")], "Formulas are compared as normal-form expressions; floating point rounding is not considered.",
  obs=["GeneralBeforeParameter::before", "SimpleParameter::compute"]),
T("C34", "Time-steps cover the configured period in order and with the right lengths",
  "The steps of a run start at the start date, follow each other by exactly the configured number of days or calendar frequency, have consecutive indices, end with the last step that starts within the end date, and each knows its own date, index and duration. Durations convert between days, hours and fractions consistently, and an empty or backward period is an error.",
  ["inputs", "configurations"], "all periods, durations and frequencies",
  "Tests use daily steps from the same few start dates.",
  [CORE + "timestep.rs"], [("time domain builder", CORE + "timestep.rs"), ("durations", CORE + "timestep.rs")], "Calendar arithmetic of the date library is taken as documented.", obs=["TimeDomain::timesteps"]),
T("C35", "Period aggregation assigns every value to its periods once",
  "Values added to an aggregator are split at period boundaries in proportion to time, each part is counted in exactly the period it falls into, each completed period is passed on exactly once with its own start and duration, nested aggregations receive only completed periods of their child, and finishing yields the remaining partial period.",
  ["inputs", "histories"], "all step lengths, frequencies and nestings",
  "Tests aggregate daily values to whole months with one level.",
  [CORE + "recorders/aggregator/"], [("aggregator", CORE + "recorders/aggregator/mod.rs"), ("periods", CORE + "recorders/aggregator/")], obs=["Aggregator::append_value"]),
T("C36", "Setting up and finishing a model gives every scenario its own state and result",
  "A run is set-up, then steps until the time domain ends, then finish: set-up creates for every scenario fresh network, parameter, virtual storage, metric-set and transfer state of the right size plus a solver (or one shared multi-scenario solver) and every recorder's internal state. Finishing finalises every metric set and recorder with all scenarios' states and returns each named result. Building a network resolves all components in an order that satisfies their references and fails if any cannot be resolved.",
  ["inputs", "configurations"], "all models, scenario counts and solver kinds",
  "Tests build small models whose components happen to be in resolvable order.",
  [CORE + "models/", CORE + "network.rs"], [("model set-up", CORE + "models/simple.rs"), ("network set-up and finalise", CORE + "network.rs")], obs=["Model::setup", "Model::finalise"]),
T("C37", "Parameter builders carry every setting into the parameter they build",
  "For every core parameter, the value given to each builder setting is the value the built parameter uses for that setting; building resolves each referenced metric to the parameter that was named and postpones or fails if it cannot. Building a simple or constant variant changes the kind of the inputs but no setting.",
  ["inputs", "programs"], "all parameter types and settings",
  "Tests build each parameter with one set of values, many builder settings never.",
  [CORE + "parameters/"], [("builders", CORE + "parameters/"), ("conversions between kinds", CORE + "parameters/")], obs=["ParameterBuilder::build"]),
T("C39", "Metric sets and outputs record exactly what the model file lists",
  "Each metric set contains the metrics it lists followed by those its filters select, in order, with its aggregation, and each output (CSV, HDF5, memory) records exactly the metric sets it names with its own file name, format, precision, aggregation order and conversion options.",
  ["inputs", "programs"], "all metric sets, filters and outputs",
  "Tests list explicit metrics and few options.",
  [SCH + "metric_sets/", SCH + "outputs/"], [("metric sets", SCH + "metric_sets/mod.rs"), ("outputs", SCH + "outputs/")], obs=["MetricSet::add_to_network", "Output::add_to_model"]),
T("C40", "References to nodes, parameters, edges and tables resolve to the named thing",
  "A metric reference in a model file resolves to the metric of exactly the node and attribute, parameter and key, edge, time series column, table value, local parameter or transfer it names, with its parent taken into account for local names, to a real or integer metric as the use demands; anything unknown is an error. Output names, attributes and types reported for a metric are those of the thing it resolves to.",
  ["inputs", "programs"], "all references and parents",
  "Few reference kinds occur in the tests and local parameters only in simple cases.",
  [SCH + "metric.rs"], [("metric references", SCH + "metric.rs")], obs=["Metric::load"]),
T("C41", "Loading a model file builds all of it, in order, or fails",
  "Loading a model builds its time domain, scenarios, tables, time series, nodes, virtual nodes, edges, parameters, metric sets and outputs, each exactly once and all of them, from the paths given, and returns the first error instead of a partial model. Multi-network models load each network from its file or inline text under its own name with its transfers, lookups by name find the component with that name, and validation reports duplicate and missing names.",
  ["inputs", "programs"], "all model files",
  "Tests load well-formed files.",
  [SCH + "model.rs", SCH + "network.rs"], [("model", SCH + "model.rs"), ("network", SCH + "network.rs")], obs=["ModelSchema::build_model", "NetworkSchema::build_network"]),
T("C42", "Each command of the command line tool does what it is asked",
  "The run commands load the given file, build it with the given data and output directories and run it with the chosen solver and settings, converting writes the converted model to the given place and reports or stops on conversion errors as asked, and exporting writes the schema; any failure is returned as an error. The entry points of the Python package do the same for the model text or file they are given.",
  ["inputs", "configurations"], "all command lines",
  "The command line tool has no tests.",
  ["pywr-cli/src/main.rs", "pywr-python/src/"], [("commands", "pywr-cli/src/main.rs"), ("Python entry points", "pywr-python/src/")], "", obs=["pywr-cli"]),
T("C43", "The interior point solvers set up and iterate on the given programme",
  "The interior point implementations build their sparse factorisation structure from the given matrix alone, start every solve from the documented initial point, stop when the tolerances or the iteration limit are reached, iterate on all right-hand sides and objectives of the batch, and return the primal solution of each scenario in order; the vector and OpenCL variants have the same structure.",
  ["inputs"], "all matrices, batches and settings",
  "Tests of these solvers run through the same few models as the others.",
  ["ipm-common/src/lib.rs", "ipm-simd/src/lib.rs", "ipm-ocl/src/lib.rs"], [("factorisation structure", "ipm-common/src/lib.rs"), ("iteration", "ipm-simd/src/lib.rs")],
  "Convergence and numerical accuracy are not claimed.", obs=["PathFollowingDirectSimdSolver::solve"]),
T("C45", "Edges connect the right ends of the nodes they name",
  "An edge of a model file connects every internal output of its from-node (of the named slot, if one is given) to every internal input of its to-node, for every node type and each of its optional structures; unsupported slots and unknown nodes are errors and no other connection is made.",
  ["inputs", "programs"], "all pairs of node types, slots and optional structures",
  "Tests connect a few pairs of node types with few optional structures.",
  [SCH + "nodes/", SCH + "edge.rs"], [("connectors", SCH + "nodes/"), ("edges", SCH + "edge.rs")], obs=["Edge::add_to_network"]),
T("C46", "Virtual nodes of a model file become the constraint they describe",
  "Each aggregated node, aggregated storage and virtual storage of a model file is created on exactly the nodes and components it lists, in order, with its own limits, relationship and factors, cost, volumes, initial volume, reset rule, rolling window and active period, and its attributes yield metrics of that virtual node. Wrong or inconsistent settings are errors.",
  ["inputs", "programs"], "all virtual nodes and settings",
  "Tests contain one or two examples of each kind.",
  [SCH + "nodes/virtual_nodes/"], [("virtual nodes", SCH + "nodes/virtual_nodes/")], obs=["VirtualNode::add_to_network"]),
T("C47", "Table lookups return the cell the reference names",
  "A value looked up in a data table is the value in the row and column whose headers equal the given keys, in the given order, as a scalar or as the whole row or column; values are parsed as the requested type, and unknown tables, wrong numbers of keys and missing keys are errors.",
  ["inputs"], "all tables, layouts and keys",
  "Tests read small tables with one or two keys per layout.",
  [SCH + "data_tables/"], [("tables", SCH + "data_tables/")], obs=["LoadedTableCollection"]),
T("C48", "Time series columns are loaded for the model's own steps and scenarios",
  "A reference to a time series yields the values of exactly the named column, aligned with the model's time-steps, or for a scenario group one column per scenario of that group in the group's order; a file is read by the provider and format its settings name, relative to the data directory, with a mismatch in length, missing column or bad checksum reported as an error.",
  ["inputs"], "all files, columns, groups and providers",
  "Tests load a few series that already match the model's steps.",
  [SCH + "timeseries/"], [("time series", SCH + "timeseries/")], "The resampling arithmetic of the data frame library is taken as documented.", obs=["LoadedTimeseriesCollection"]),
]
NA = [
P("C50", "The chosen allocation is optimal for the costs", "Among all allocations satisfying the constraints, the flows of a step have minimum total cost.", ["inputs"], "all models", "Tests compare few optima.", [CORE + "solvers/"], [("solvers", CORE + "solvers/")], "", ""),
P("C51", "Interior point iterations converge", "For feasible bounded programmes the interior point solvers reach the requested tolerances within the iteration limit.", ["inputs"], "all programmes", "Tests solve few programmes.", ["ipm-simd/src/lib.rs"], [("iteration", "ipm-simd/src/lib.rs")], "", ""),
P("C52", "Resampled time series preserve the data", "Up- or down-sampling a time series to the model's step keeps totals and alignment.", ["inputs"], "all series", "Tests resample few series.", [SCH + "timeseries/align_and_resample.rs"], [("resampling", SCH + "timeseries/align_and_resample.rs")], "", ""),
P("C53", "User code in Python parameters is evaluated with the current state", "Python parameters and aggregation functions see the current step, scenario and metric values and their result is stored.", ["programs"], "all user code", "Tests run few snippets.", [CORE + "parameters/py.rs"], [("Python parameters", CORE + "parameters/py.rs")], "", ""),
P("C54", "Runs with the same input give identical results", "Repeating a run gives bit-identical results regardless of thread count.", ["schedules"], "all models and thread counts", "Tests run once.", [CORE + "network.rs"], [("parallel step", CORE + "network.rs")], "", ""),
]
for _n, _r in zip(NA, [
    "optimality of the solution returned by external solver libraries quantifies over numerical results; no static argument over this source decides it (the structural part, which programme is passed and what is written back, is C02, C03 and C28)",
    "convergence quantifies over runtime numerics",
    "the arithmetic is done by the data frame library on runtime values (the structural part is C48)",
    "the property depends on code run by an embedded interpreter that is not part of this source",
    "floating point reproducibility depends on the solver libraries and hash seeds at run time; the per-scenario data isolation that can be decided from the source is C01",
]):
    _n["reason"] = _r

