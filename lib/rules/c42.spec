## pywr::export_schema
write(p1, to_string_pretty(into_root_schema_for(default())))
## pywr::pywr
add_class(p1)
add_function(p1, wrap_pyfunction(p1, {alloc44: &pyo3::impl_::pyfunction::PyFunctionDef}))
add_function(p1, wrap_pyfunction(p1, {alloc6: &pyo3::impl_::pyfunction::PyFunctionDef}))
add_function(p1, wrap_pyfunction(p1, {alloc81: &pyo3::impl_::pyfunction::PyFunctionDef}))
## tracing::setup_tracing

## pywr_cli::main
convert(parse().command~Convert.input, parse().command~Convert.output, parse().command~Convert.stop_on_error, parse().command~Convert.network_only)
    parse().command is Convert
export_schema(parse().command~ExportSchema.out)
    parse().command is ExportSchema
run(parse().command~Run.model, parse().command~Run.solver, parse().command~Run.data_path, parse().command~Run.output_path, parse().command~Run.threads, parse().command~Run.ignore_feature_requirements)
    parse().command is Run
run_multi(parse().command~RunMulti.model, parse().command~RunMulti.solver, parse().command~RunMulti.data_path, parse().command~RunMulti.output_path)
    parse().command is RunMulti
run_random(parse().command~RunRandom.num_systems, parse().command~RunRandom.density, parse().command~RunRandom.num_scenarios, parse().command~RunRandom.solver)
    parse().command is RunRandom
## pywr_cli::convert
[accepts]
    !is_dir(p0); !is_dir(p1)
    is_dir(p0); is_dir(p1)
v1_to_v2(p0, p1, p2, p3)
    !is_dir(p0)
v1_to_v2(path(elem(flatten(with_context(read_dir(p0), |must_use(format(new(b"\x1aFailed to read directory: \xc0\x00", (new_debug(p0)))))|)))), join(p1, with_context(file_name(path(elem(flatten(with_context(read_dir(p0), |must_use(format(new(b"\x1aFailed to read directory: \xc0\x00", (new_debug(p0)))))|))))), |"Failed to determine output filename."|)), p2, p3)
    Eq("json", extension(path(elem(flatten(with_context(read_dir(p0), |must_use(format(new(b"\x1aFailed to read directory: \xc0\x00", (new_debug(p0)))))|)))))); extension(path(elem(flatten(with_context(read_dir(p0), |must_use(format(new(b"\x1aFailed to read directory: \xc0\x00", (new_debug(p0)))))|))))) is Some; is_dir(p0); is_file(path(elem(flatten(with_context(read_dir(p0), |must_use(format(new(b"\x1aFailed to read directory: \xc0\x00", (new_debug(p0)))))|)))))
## pywr_cli::v1_to_v2
handle_conversion_errors(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b")Failed deserialise Pywr v1 network file: \xc0\x00", (new_debug(p0)))))|)).1, p2)
    p3
handle_conversion_errors(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b"\'Failed deserialise Pywr v1 model file: \xc0\x00", (new_debug(p0)))))|)).1, p2)
    !p3
with_context(write(p1, with_context(to_string_pretty(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b")Failed deserialise Pywr v1 network file: \xc0\x00", (new_debug(p0)))))|)).0), |"Failed serialise Pywr v2 network"|)), |must_use(format(new(b"\x16Failed to write file: \xc0\x00", (new_debug(p1)))))|)
    p3
with_context(write(p1, with_context(to_string_pretty(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b"\'Failed deserialise Pywr v1 model file: \xc0\x00", (new_debug(p0)))))|)).0), |"Failed serialise Pywr v2 model"|)), |must_use(format(new(b"\x16Failed to write file: \xc0\x00", (new_debug(p1)))))|)
    !p3
write(p1, with_context(to_string_pretty(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b")Failed deserialise Pywr v1 network file: \xc0\x00", (new_debug(p0)))))|)).0), |"Failed serialise Pywr v2 network"|))
    p3
write(p1, with_context(to_string_pretty(from_v1(with_context(from_str(with_context(read_to_string(p0), |must_use(format(new(b"\x15Failed to read file: \xc0\x00", (new_debug(p0)))))|)), |must_use(format(new(b"\'Failed deserialise Pywr v1 model file: \xc0\x00", (new_debug(p0)))))|)).0), |"Failed serialise Pywr v2 model"|))
    !p3
## pywr_cli::handle_conversion_errors
[accepts]
    !Lt(len(p0), 1); !p1
    Lt(len(p0), 1)
## pywr_cli::run
run(Model{}, CbcSolverSettings{}, CbcSolver)
    p1 is Cbc
run(Model{}, CbcSolverSettings{}, CbcSolver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is Cbc; p2 is Some
run(Model{}, CbcSolverSettings{}, CbcSolver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is Cbc; p2 is None
run(Model{}, CbcSolverSettings{}, CbcSolver).ignore_feature_requirements = default().ignore_feature_requirements
    !p5; p1 is Cbc
run(Model{}, CbcSolverSettings{}, CbcSolver).ignore_feature_requirements = true
    p1 is Cbc; p5
run(Model{}, CbcSolverSettings{}, CbcSolver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is Cbc; p2 is Some
run(Model{}, CbcSolverSettings{}, CbcSolver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is Cbc; p2 is None
run(Model{}, CbcSolverSettings{}, CbcSolver).parallel = default().parallel
    Lt(p4, 2); p1 is Cbc
run(Model{}, CbcSolverSettings{}, CbcSolver).parallel = true
    !Lt(p4, 2); p1 is Cbc
run(Model{}, CbcSolverSettings{}, CbcSolver).threads = default().threads
    Lt(p4, 2); p1 is Cbc
run(Model{}, CbcSolverSettings{}, CbcSolver).threads = p4
    !Lt(p4, 2); p1 is Cbc
run(Model{}, ClpSolverSettings{}, ClpSolver)
    p1 is Clp
run(Model{}, ClpSolverSettings{}, ClpSolver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is Clp; p2 is Some
run(Model{}, ClpSolverSettings{}, ClpSolver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is Clp; p2 is None
run(Model{}, ClpSolverSettings{}, ClpSolver).ignore_feature_requirements = default().ignore_feature_requirements
    !p5; p1 is Clp
run(Model{}, ClpSolverSettings{}, ClpSolver).ignore_feature_requirements = true
    p1 is Clp; p5
run(Model{}, ClpSolverSettings{}, ClpSolver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is Clp; p2 is Some
run(Model{}, ClpSolverSettings{}, ClpSolver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is Clp; p2 is None
run(Model{}, ClpSolverSettings{}, ClpSolver).parallel = default().parallel
    Lt(p4, 2); p1 is Clp
run(Model{}, ClpSolverSettings{}, ClpSolver).parallel = true
    !Lt(p4, 2); p1 is Clp
run(Model{}, ClpSolverSettings{}, ClpSolver).threads = default().threads
    Lt(p4, 2); p1 is Clp
run(Model{}, ClpSolverSettings{}, ClpSolver).threads = p4
    !Lt(p4, 2); p1 is Clp
run(Model{}, HighsSolverSettings{}, HighsSolver)
    p1 is Highs
run(Model{}, HighsSolverSettings{}, HighsSolver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is Highs; p2 is Some
run(Model{}, HighsSolverSettings{}, HighsSolver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is Highs; p2 is None
run(Model{}, HighsSolverSettings{}, HighsSolver).ignore_feature_requirements = default().ignore_feature_requirements
    !p5; p1 is Highs
run(Model{}, HighsSolverSettings{}, HighsSolver).ignore_feature_requirements = true
    p1 is Highs; p5
run(Model{}, HighsSolverSettings{}, HighsSolver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is Highs; p2 is Some
run(Model{}, HighsSolverSettings{}, HighsSolver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is Highs; p2 is None
run(Model{}, HighsSolverSettings{}, HighsSolver).parallel = default().parallel
    Lt(p4, 2); p1 is Highs
run(Model{}, HighsSolverSettings{}, HighsSolver).parallel = true
    !Lt(p4, 2); p1 is Highs
run(Model{}, HighsSolverSettings{}, HighsSolver).threads = default().threads
    Lt(p4, 2); p1 is Highs
run(Model{}, HighsSolverSettings{}, HighsSolver).threads = p4
    !Lt(p4, 2); p1 is Highs
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver)
    p1 is Microlp
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is Microlp; p2 is Some
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is Microlp; p2 is None
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).ignore_feature_requirements = default().ignore_feature_requirements
    !p5; p1 is Microlp
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).ignore_feature_requirements = true
    p1 is Microlp; p5
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is Microlp; p2 is Some
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is Microlp; p2 is None
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).parallel = default().parallel
    Lt(p4, 2); p1 is Microlp
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).parallel = true
    !Lt(p4, 2); p1 is Microlp
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).threads = default().threads
    Lt(p4, 2); p1 is Microlp
run(Model{}, MicroLpSolverSettings{}, MicroLpSolver).threads = p4
    !Lt(p4, 2); p1 is Microlp
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver)
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is CLIPMF32; p2 is Some
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is CLIPMF32; p2 is None
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).ignore_feature_requirements = false
    !p5; p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).ignore_feature_requirements = true
    p1 is CLIPMF32; p5
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).max_iterations = new(200)
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is CLIPMF32; p2 is Some
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is CLIPMF32; p2 is None
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).num_chunks = new(4)
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).parallel = false
    Lt(p4, 2); p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).parallel = true
    !Lt(p4, 2); p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).threads = 0
    Lt(p4, 2); p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).threads = p4
    !Lt(p4, 2); p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).tolerances = Tolerances{}
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).tolerances.dual_feasibility = 1e-08
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).tolerances.optimality = 1e-08
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF32Solver).tolerances.primal_feasibility = 1e-08
    p1 is CLIPMF32
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver)
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is CLIPMF64; p2 is Some
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is CLIPMF64; p2 is None
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).ignore_feature_requirements = false
    !p5; p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).ignore_feature_requirements = true
    p1 is CLIPMF64; p5
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).max_iterations = new(200)
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is CLIPMF64; p2 is Some
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is CLIPMF64; p2 is None
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).num_chunks = new(4)
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).parallel = false
    Lt(p4, 2); p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).parallel = true
    !Lt(p4, 2); p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).threads = 0
    Lt(p4, 2); p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).threads = p4
    !Lt(p4, 2); p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).tolerances = Tolerances{}
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).tolerances.dual_feasibility = 1e-08
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).tolerances.optimality = 1e-08
    p1 is CLIPMF64
run_multi_scenario(Model{}, ClIpmSolverSettings{}, ClIpmF64Solver).tolerances.primal_feasibility = 1e-08
    p1 is CLIPMF64
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver)
    p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).domain = create_model_builder(from_str(read_to_string(p0)), p2, p3).domain
    p1 is IpmSimd; p2 is Some
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).domain = create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain
    p1 is IpmSimd; p2 is None
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).ignore_feature_requirements = false
    !p5; p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).ignore_feature_requirements = true
    p1 is IpmSimd; p5
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).max_iterations = new(200)
    p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).network = build(create_model_builder(from_str(read_to_string(p0)), p2, p3).network, create_model_builder(from_str(read_to_string(p0)), p2, p3).domain, new()).0
    p1 is IpmSimd; p2 is Some
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).network = build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).network, create_model_builder(from_str(read_to_string(p0)), parent(p0), p3).domain, new()).0
    p1 is IpmSimd; p2 is None
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).parallel = false
    Lt(p4, 2); p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).parallel = true
    !Lt(p4, 2); p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).threads = 0
    Lt(p4, 2); p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).threads = p4
    !Lt(p4, 2); p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).tolerances = Tolerances{}
    p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).tolerances.dual_feasibility = splat(1e-08)
    p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).tolerances.optimality = splat(1e-08)
    p1 is IpmSimd
run_multi_scenario(Model{}, SimdIpmSolverSettings{}, SimdIpmF64Solver).tolerances.primal_feasibility = splat(1e-08)
    p1 is IpmSimd
## pywr_cli::run_multi
run(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), CbcSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, CbcSolver)
    p1 is Cbc; p2 is Some
run(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), ClpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, ClpSolver)
    p1 is Clp; p2 is Some
run(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), HighsSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, HighsSolver)
    p1 is Highs; p2 is Some
run(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), MicroLpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, MicroLpSolver)
    p1 is Microlp; p2 is Some
run(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), CbcSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, CbcSolver)
    p1 is Cbc; p2 is None
run(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), ClpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, ClpSolver)
    p1 is Clp; p2 is None
run(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), HighsSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, HighsSolver)
    p1 is Highs; p2 is None
run(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), MicroLpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, MicroLpSolver)
    p1 is Microlp; p2 is None
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF32Solver)
    p1 is CLIPMF32; p2 is Some
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF64Solver)
    p1 is CLIPMF64; p2 is Some
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), p2, p3)), SimdIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: splat(1e-08), optimality: splat(1e-08), primal_feasibility: splat(1e-08)}}, SimdIpmF64Solver)
    p1 is IpmSimd; p2 is Some
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF32Solver)
    p1 is CLIPMF32; p2 is None
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF64Solver)
    p1 is CLIPMF64; p2 is None
run_multi_scenario(build(create_model_builder(from_str(read_to_string(p0)), parent(p0), p3)), SimdIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: splat(1e-08), optimality: splat(1e-08), primal_feasibility: splat(1e-08)}}, SimdIpmF64Solver)
    p1 is IpmSimd; p2 is None
## pywr_cli::run_random
ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}.scenario := with_group(default(), build(ScenarioGroupBuilder{labels: none, name: "test-scenario", size: p2, subset: none}))
NodeBuilder{name: "input"}.cost := Constant{0: random_range(seed_from_u64(0), Range{end: -5, start: -20})}
NodeBuilder{name: "input"}.max_flow := ParameterValue{}
NodeBuilder{name: "input"}.max_flow.name := new("inflow", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))
NodeBuilder{name: "input"}.max_flow.return_value := Before
NodeBuilder{name: "input"}.name.sub_name := must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0}))))))
NodeBuilder{name: "link"}.name.sub_name := must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0}))))))
NodeBuilder{name: "output"}.cost := Constant{0: -500}
NodeBuilder{name: "output"}.max_flow := Constant{0: max(0, sample(new(8, 3), seed_from_u64(0)))}
NodeBuilder{name: "output"}.name.sub_name := must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0}))))))
NodeBuilder{name: "transfer"}.cost := Constant{0: random_range(seed_from_u64(0), Range{end: 1, start: 0})}
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
NodeBuilder{name: "transfer"}.name.sub_name := must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0}))))))
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
iter_mut(zeros((len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).time.timesteps), len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).scenario.indices))))
push(default().edges, UnresolvedEdge{})
push(default().edges, UnresolvedEdge{}).from = new("input", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))
push(default().edges, UnresolvedEdge{}).from = new("link", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))
push(default().edges, UnresolvedEdge{}).from = new("link", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})))))))
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
push(default().edges, UnresolvedEdge{}).from = new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
push(default().edges, UnresolvedEdge{}).to = new("link", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))
push(default().edges, UnresolvedEdge{}).to = new("link", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
push(default().edges, UnresolvedEdge{}).to = new("output", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))
push(default().edges, UnresolvedEdge{}).to = new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
push(default().nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: "input", node_type: Input})
push(default().nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: "link", node_type: Link})
push(default().nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: "output", node_type: Output})
push(default().nodes, NodeBuilder{cost: none, cost_agg_func: none, initial_volume: none, max_flow: none, max_volume: none, min_flow: none, min_volume: none, name: "transfer", node_type: Link})
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
push(default().parameters.f64, new(Array2ParameterBuilder{array: zeros((len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).time.timesteps), len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).scenario.indices))), meta: ParameterMeta{name: new("inflow", must_use(format(new(b"\x04sys-\xc3 \x00\x00i\x04\x00\x00", (new_display(elem(Range{end: p0, start: 0})))))))}, scenario_group: "test-scenario", timestep_offset: none}))
random_range(seed_from_u64(0), Range{end: -5, start: -20})
random_range(seed_from_u64(0), Range{end: 1, start: 0})
    !Eq(random_range'(seed_from_u64(0), Range{end: p0, start: 0}), random_range(seed_from_u64(0), Range{end: p0, start: 0})); Lt(acc(0), max(0.005*p1*pow(p0, 2), 1)); node_builder(default(), new("transfer", must_use(format(new(b"\xc3 \x00\x00i\x04\x00\x02->\xc3 \x00\x00i\x04\x00\x00", (new_display(random_range(seed_from_u64(0), Range{end: p0, start: 0})), new_display(random_range'(seed_from_u64(0), Range{end: p0, start: 0})))))))) is None
random_range(seed_from_u64(0), Range{end: p0, start: 0})
    Lt(acc(0), max(0.005*p1*pow(p0, 2), 1))
run(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, CbcSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, CbcSolver)
    p3 is Cbc
run(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, ClpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, ClpSolver)
    p3 is Clp
run(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, HighsSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, HighsSolver)
    p3 is Highs
run(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, MicroLpSolverSettings{ignore_feature_requirements: default().ignore_feature_requirements, parallel: default().parallel, threads: default().threads}, MicroLpSolver)
    p3 is Microlp
run_multi_scenario(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF32Solver)
    p3 is CLIPMF32
run_multi_scenario(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, ClIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), num_chunks: new(4), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: 1e-08, optimality: 1e-08, primal_feasibility: 1e-08}}, ClIpmF64Solver)
    p3 is CLIPMF64
run_multi_scenario(Model{domain: build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), network: build(default(), build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}), new()).0}, SimdIpmSolverSettings{ignore_feature_requirements: false, max_iterations: new(200), parallel: false, threads: 0, tolerances: Tolerances{dual_feasibility: splat(1e-08), optimality: splat(1e-08), primal_feasibility: splat(1e-08)}}, SimdIpmF64Solver)
    p3 is IpmSimd
sample(new(8, 3), seed_from_u64(0))
sample(new(9, 1), seed_from_u64(0))
    for each(zeros((len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).time.timesteps), len(build(ModelDomainBuilder{scenario: none, time: TimeDomainBuilder{end: at(date(2020, 4, 9), 0, 0, 0, 0), start: at(date(2020, 1, 1), 0, 0, 0, 0), timestep: Days{0: new(1)}}}).scenario.indices))))
## pywr_cli::export_schema
with_context(write(p0, with_context(to_string_pretty(into_root_schema_for(default())), |"Failed serialise Pywr schema"|)), |must_use(format(new(b"\x16Failed to write file: \xc0\x00", (new_debug(p0)))))|)
write(p0, with_context(to_string_pretty(into_root_schema_for(default())), |"Failed serialise Pywr schema"|))
