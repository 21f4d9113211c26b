"""Which property judges which function: first matching line wins; matched against "file ident" (development aid, used by base.py)."""
S = r"pywr-core/src/solvers/"
PARTS = [
("C01", r"pywr-core/src/(models/(simple|multi).rs (Model|MultiNetworkModel)::(step\w*)$|network.rs Network::(step\w*|compute_components|after|recorder_save|\w*par)$)"),
("", r"::(new_pyerr)$|test_utils|<Py\w+ as|pywr-schema-macros|as (Display|Debug)>|::print_\w+|Timings|::speed$|::total_duration$|ComponentTimings|slowest_components"),
("", r"pywr-core/src/parameters/py.rs|py_utils.rs|pywr-schema/src/parameters/python.rs|_py\b|SparseNormalCholeskyIndices::from_matrix$|get_cl_program$|::(from_json_string|from_json_file|convert_\w+_from_v1_json_string|py_\w+|__\w+__|to_dataframe)$"),
("C42", r"pywr-cli/|pywr-python/"),
("C43", r"ipm-(common|simd|ocl)/"),
("C31", r"solvers/\w+/settings.rs|solvers/mod.rs|(required|solver)_features|::default_\w*solver|(<\w+Solver as \w+>|\w+Solver)::(features|name)$"),
("C03", S + r"builder.rs BuiltSolver::(update\w*|row_\w+|col_\w+)$"),
("C28", S + r"(builder|col_edge_map)|" + S + r"ipm_(simd|ocl)/mod.rs .*(BuiltSolver|Lp\b|LpBuilder|SolverBuilder|Matrix|RowBuilder)"),
("C02", S),
("", r"pywr-core/src/parameters/(?!mod.rs).* as (General|Simple|Const)\w*(Parameter|Hook).*>::(compute|before|after)$|pywr-core/src/parameters/(?!mod.rs).* as Parameter>::setup$"),   # hand-written tables (C33)
("C33", r"pywr-core/src/(parameters/interpolate.rs|parameters/.* (hydropower_calculation|inverse\w+)|utils.rs|parameters/activation)"),
("C26", r"pywr-core/src/parameters/.*(Variable\w+>?::|set_variables|get_variables|get_lower_bounds|get_upper_bounds|as_f64_variable|as_u64_variable|variable)|network.rs Network::\w*variable\w*$"),
("C37", r"pywr-core/src/parameters/(?!mod.rs)"),
("C05", r"pywr-core/src/state/.*(ParameterValues|MultiValue|ParameterStates|Parameter\w*State|StateBuilder)|pywr-core/src/state/mod.rs (State|<State)"),
("C04", r"pywr-core/src/(state/|aggregated_storage|edge.rs)|pywr-core/src/node.rs .*(StorageInitialVolume|StorageState|::before$)"),
("C08", r"pywr-core/src/parameters/mod.rs"),
("C09", r"pywr-core/src/(scenario|models/mod).rs"),
("C35", r"pywr-core/src/recorders/aggregator"),
("C10", r"pywr-core/src/recorders/"),
("C34", r"pywr-core/src/timestep.rs"),
("C27", r"pywr-core/src/agg_funcs"),
("C29", r"pywr-core/src/metric.rs"),
("C30", r"pywr-core/src/virtual_storage.rs"),
("C32", r"pywr-core/src/aggregated_node.rs"),
("C21", r"pywr-core/src/models/multi.rs .*(transfer|Transfer|Builder)"),
("C36", r"pywr-core/src/(models/|network.rs .*(NetworkResult|Timings|<|::(setup|finalise|new|initial)\w*))"),
("C22", r"pywr-core/src/(network|node).rs"),
("C41", r"pywr-schema/src/(model|network|error).rs"),
("C17", r"pywr-schema/src/visit.rs|::(visit_\w+)$"),
("C20", r"pywr-schema/src/v1.rs|try_from_v1|from_v1|TryFromV1|TryIntoV2|as (Try)?From|pywr-schema/src/nodes/.*::try_from$"),
("C19", r"pywr-schema/src/digest"),
("C16", r"pywr-schema/src/nodes/(?!virtual).*::(add_to_network|set_constraints|node_indices_for_\w+|add_\w+)$|pywr-schema/src/nodes/slots"),
("C45", r"pywr-schema/src/nodes/.*::(input|output)_connectors$|connectors|slots|pywr-schema/src/edge.rs"),
("C46", r"pywr-schema/src/nodes/virtual_nodes"),
("C15", r"pywr-schema/src/nodes/"),
("C11", r"pywr-schema/src/parameters/|pywr-schema/src/agg_funcs"),
("C47", r"pywr-schema/src/data_tables"),
("C48", r"pywr-schema/src/timeseries"),
("C39", r"pywr-schema/src/(metric_sets|outputs)"),
("C40", r"pywr-schema/src/metric.rs"),
]
# further properties that judge the same functions
EXTRA = []
