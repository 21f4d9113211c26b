## Model::required_features
return required_features(self.network)
## Model::check_solver_features
return false
    !check_solver_features(self.network)
return true
    check_solver_features(self.network)
## Model::check_multi_scenario_solver_features
return false
    !check_multi_scenario_solver_features(self.network)
return true
    check_multi_scenario_solver_features(self.network)
## Network::check_solver_features
leave loop early()
    !contains(features(), elem(required_features(self)))
return false
    !contains(features(), elem(required_features(self)))
return true
    contains(features(), elem(required_features(self)))
## Network::check_multi_scenario_solver_features
leave loop early()
    !contains(features(), elem(required_features(self)))
return false
    !contains(features(), elem(required_features(self)))
return true
    contains(features(), elem(required_features(self)))
## Network::required_features
leave loop early()
    !has_factors(elem(self.aggregated_nodes)); has_exclusivity(elem(self.aggregated_nodes))
    has_factors(elem(self.aggregated_nodes))
return list
return[] AggregatedNode
    !Lt(len(self.aggregated_nodes), 1)
return[] AggregatedNodeDynamicFactors
    !has_const_factors(elem(self.aggregated_nodes)); has_factors(elem(self.aggregated_nodes))
return[] AggregatedNodeFactors
    has_factors(elem(self.aggregated_nodes))
return[] MutualExclusivity
    has_exclusivity(elem(self.aggregated_nodes))
return[] VirtualStorage
    !Lt(len(self.virtual_storage_nodes), 1)
## <CbcSolverSettings as Default>::default
return CbcSolverSettings{}
return.ignore_feature_requirements default().ignore_feature_requirements
return.parallel default().parallel
return.threads default().threads
## <CbcSolverSettings as SolverSettings>::parallel
return self.parallel
## <CbcSolverSettings as SolverSettings>::threads
return self.threads
## <CbcSolverSettings as SolverSettings>::ignore_feature_requirements
return self.ignore_feature_requirements
## CbcSolverSettings::builder
return default()
## CbcSolverSettingsBuilder::parallel
return CbcSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel true
return.threads self.threads
## CbcSolverSettingsBuilder::threads
return CbcSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads p1
## CbcSolverSettingsBuilder::ignore_feature_requirements
return CbcSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.parallel self.parallel
return.threads self.threads
## CbcSolverSettingsBuilder::build
return CbcSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads self.threads
## <CbcSolver as Solver>::name
return "cbc"
## <CbcSolver as Solver>::features
return (AggregatedNode, VirtualStorage, AggregatedNodeFactors, MutualExclusivity)
## <ClpSolverSettings as Default>::default
return ClpSolverSettings{}
return.ignore_feature_requirements default().ignore_feature_requirements
return.parallel default().parallel
return.threads default().threads
## <ClpSolverSettings as SolverSettings>::parallel
return self.parallel
## <ClpSolverSettings as SolverSettings>::threads
return self.threads
## <ClpSolverSettings as SolverSettings>::ignore_feature_requirements
return self.ignore_feature_requirements
## ClpSolverSettings::builder
return default()
## ClpSolverSettingsBuilder::parallel
return ClpSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel true
return.threads self.threads
## ClpSolverSettingsBuilder::threads
return ClpSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads p1
## ClpSolverSettingsBuilder::ignore_feature_requirements
return ClpSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.parallel self.parallel
return.threads self.threads
## ClpSolverSettingsBuilder::build
return ClpSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads self.threads
## <ClpSolver as Solver>::name
return "clp"
## <ClpSolver as Solver>::features
return (AggregatedNode, AggregatedNodeFactors, AggregatedNodeDynamicFactors, VirtualStorage)
## <HighsSolverSettings as Default>::default
return HighsSolverSettings{}
return.ignore_feature_requirements default().ignore_feature_requirements
return.parallel default().parallel
return.threads default().threads
## <HighsSolverSettings as SolverSettings>::parallel
return self.parallel
## <HighsSolverSettings as SolverSettings>::threads
return self.threads
## <HighsSolverSettings as SolverSettings>::ignore_feature_requirements
return self.ignore_feature_requirements
## HighsSolverSettings::builder
return default()
## HighsSolverSettingsBuilder::parallel
return HighsSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel true
return.threads self.threads
## HighsSolverSettingsBuilder::threads
return HighsSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads p1
## HighsSolverSettingsBuilder::ignore_feature_requirements
return HighsSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.parallel self.parallel
return.threads self.threads
## HighsSolverSettingsBuilder::build
return HighsSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads self.threads
## <HighsSolver as Solver>::name
return "highs"
## <HighsSolver as Solver>::features
return (VirtualStorage, MutualExclusivity, AggregatedNode, AggregatedNodeFactors, AggregatedNodeDynamicFactors, VirtualStorage)
## <ClIpmSolverSettings as Default>::default
return ClIpmSolverSettings{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.num_chunks new(4)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility 1e-08
return.tolerances.optimality 1e-08
return.tolerances.primal_feasibility 1e-08
## <ClIpmSolverSettings as SolverSettings>::parallel
return self.parallel
## <ClIpmSolverSettings as SolverSettings>::threads
return self.threads
## <ClIpmSolverSettings as SolverSettings>::ignore_feature_requirements
return self.ignore_feature_requirements
## ClIpmSolverSettings::builder
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.num_chunks new(4)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility 1e-08
return.tolerances.optimality 1e-08
return.tolerances.primal_feasibility 1e-08
## ClIpmSolverSettings::num_chunks
return self.num_chunks
## ClIpmSolverSettings::tolerances
return self.tolerances
## ClIpmSolverSettings::max_iterations
return self.max_iterations
## <ClIpmSolverSettingsBuilder as Default>::default
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.num_chunks new(4)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility 1e-08
return.tolerances.optimality 1e-08
return.tolerances.primal_feasibility 1e-08
## ClIpmSolverSettingsBuilder::num_chunks
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks p1
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## ClIpmSolverSettingsBuilder::parallel
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel true
return.threads self.threads
return.tolerances self.tolerances
## ClIpmSolverSettingsBuilder::threads
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads p1
return.tolerances self.tolerances
## ClIpmSolverSettingsBuilder::primal_feasibility
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility self.tolerances.dual_feasibility
return.tolerances.optimality self.tolerances.optimality
return.tolerances.primal_feasibility p1
## ClIpmSolverSettingsBuilder::dual_feasibility
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility p1
return.tolerances.optimality self.tolerances.optimality
return.tolerances.primal_feasibility self.tolerances.primal_feasibility
## ClIpmSolverSettingsBuilder::optimality
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility self.tolerances.dual_feasibility
return.tolerances.optimality p1
return.tolerances.primal_feasibility self.tolerances.primal_feasibility
## ClIpmSolverSettingsBuilder::max_iterations
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations p1
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## ClIpmSolverSettingsBuilder::ignore_feature_requirements
return ClIpmSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## ClIpmSolverSettingsBuilder::build
return ClIpmSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.num_chunks self.num_chunks
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## <ClIpmF32Solver as MultiStateSolver>::name
return "ipm-ocl"
## <ClIpmF32Solver as MultiStateSolver>::features

## <ClIpmF64Solver as MultiStateSolver>::name
return "ipm-ocl"
## <ClIpmF64Solver as MultiStateSolver>::features

## <SimdIpmSolverSettings as Default>::default
return SimdIpmSolverSettings{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility splat(1e-08)
return.tolerances.optimality splat(1e-08)
return.tolerances.primal_feasibility splat(1e-08)
## <SimdIpmSolverSettings as SolverSettings>::parallel
return self.parallel
## <SimdIpmSolverSettings as SolverSettings>::threads
return self.threads
## <SimdIpmSolverSettings as SolverSettings>::ignore_feature_requirements
return self.ignore_feature_requirements
## SimdIpmSolverSettings::builder
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility splat(1e-08)
return.tolerances.optimality splat(1e-08)
return.tolerances.primal_feasibility splat(1e-08)
## SimdIpmSolverSettings::tolerances
return self.tolerances
## SimdIpmSolverSettings::max_iterations
return self.max_iterations
## <SimdIpmSolverSettingsBuilder as Default>::default
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements false
return.max_iterations new(200)
return.parallel false
return.threads 0
return.tolerances Tolerances{}
return.tolerances.dual_feasibility splat(1e-08)
return.tolerances.optimality splat(1e-08)
return.tolerances.primal_feasibility splat(1e-08)
## SimdIpmSolverSettingsBuilder::parallel
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel true
return.threads self.threads
return.tolerances self.tolerances
## SimdIpmSolverSettingsBuilder::threads
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads p1
return.tolerances self.tolerances
## SimdIpmSolverSettingsBuilder::primal_feasibility
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility self.tolerances.dual_feasibility
return.tolerances.optimality self.tolerances.optimality
return.tolerances.primal_feasibility splat(p1)
## SimdIpmSolverSettingsBuilder::dual_feasibility
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility splat(p1)
return.tolerances.optimality self.tolerances.optimality
return.tolerances.primal_feasibility self.tolerances.primal_feasibility
## SimdIpmSolverSettingsBuilder::optimality
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads self.threads
return.tolerances Tolerances{}
return.tolerances.dual_feasibility self.tolerances.dual_feasibility
return.tolerances.optimality splat(p1)
return.tolerances.primal_feasibility self.tolerances.primal_feasibility
## SimdIpmSolverSettingsBuilder::max_iterations
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations p1
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## SimdIpmSolverSettingsBuilder::ignore_feature_requirements
return SimdIpmSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## SimdIpmSolverSettingsBuilder::build
return SimdIpmSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.max_iterations self.max_iterations
return.parallel self.parallel
return.threads self.threads
return.tolerances self.tolerances
## <SimdIpmF64Solver as MultiStateSolver>::name
return "ipm-simd"
## <SimdIpmF64Solver as MultiStateSolver>::features

## <MicroLpSolverSettings as Default>::default
return MicroLpSolverSettings{}
return.ignore_feature_requirements default().ignore_feature_requirements
return.parallel default().parallel
return.threads default().threads
## <MicroLpSolverSettings as SolverSettings>::parallel
return false
## <MicroLpSolverSettings as SolverSettings>::threads
return 1
## <MicroLpSolverSettings as SolverSettings>::ignore_feature_requirements
return false
## MicroLpSolverSettingsBuilder::parallel
return MicroLpSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel true
return.threads self.threads
## MicroLpSolverSettingsBuilder::threads
return MicroLpSolverSettingsBuilder{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads p1
## MicroLpSolverSettingsBuilder::ignore_feature_requirements
return MicroLpSolverSettingsBuilder{}
return.ignore_feature_requirements true
return.parallel self.parallel
return.threads self.threads
## MicroLpSolverSettingsBuilder::build
return MicroLpSolverSettings{}
return.ignore_feature_requirements self.ignore_feature_requirements
return.parallel self.parallel
return.threads self.threads
## <MicroLpSolver as Solver>::name
return "microlp"
## <MicroLpSolver as Solver>::features
return (VirtualStorage, MutualExclusivity, AggregatedNode, AggregatedNodeFactors, AggregatedNodeDynamicFactors, VirtualStorage)
