## <Cbc as Default>::default
Cbc_newModel()
Cbc_setLogLevel(Cbc_newModel(), 0)
Cbc_setObjSense(Cbc_newModel(), 1)
return Cbc{ptr: Cbc_newModel()}
## <Cbc as Drop>::drop
Cbc_deleteModel(self.ptr)
## Cbc::print
Cbc_printModel(self.ptr, new("  "))
## Cbc::change_row_lower
Cbc_setRowLower(self.ptr, idx(p1), elem(p1))
## Cbc::change_row_upper
Cbc_setRowUpper(self.ptr, idx(p1), elem(p1))
## Cbc::change_objective_coefficients
Cbc_setObjCoeff(self.ptr, idx(p1), elem(p1))
## Cbc::add_cols
Cbc_addCol(self.ptr, new("col"), p1[elem(Range{end: len(p1), start: 0})], p2[elem(Range{end: len(p1), start: 0})], p4[elem(Range{end: len(p1), start: 0})], 0, 0, null_mut(), null_mut())
    p3[elem(Range{end: len(p1), start: 0})] is Continuous
Cbc_addCol(self.ptr, new("col"), p1[elem(Range{end: len(p1), start: 0})], p2[elem(Range{end: len(p1), start: 0})], p4[elem(Range{end: len(p1), start: 0})], 1, 0, null_mut(), null_mut())
    p3[elem(Range{end: len(p1), start: 0})] is Integer
## Cbc::add_rows
Cbc_addRow(self.ptr, new("row"), (p3[(elem(Range{end: len(p1), start: 0}) +1)] -p3[elem(Range{end: len(p1), start: 0})]), p4[Range{end: p3[(elem(Range{end: len(p1), start: 0}) +1)], start: p3[elem(Range{end: len(p1), start: 0})]}], p5[Range{end: p3[(elem(Range{end: len(p1), start: 0}) +1)], start: p3[elem(Range{end: len(p1), start: 0})]}], 69, 0)
Cbc_setRowLower(self.ptr, elem(Range{end: len(p1), start: 0}), p1[elem(Range{end: len(p1), start: 0})])
Cbc_setRowUpper(self.ptr, elem(Range{end: len(p1), start: 0}), p2[elem(Range{end: len(p1), start: 0})])
## <CbcSolver as Solver>::setup
add_cols(default(), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_upper, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_type, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_obj_coef)
add_rows(default(), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_starts, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.columns, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements)
return CbcSolver{}
return.builder create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1)
return.cbc default()
## <CbcSolver as Solver>::solve
Cbc_getColSolution(self.cbc.ptr)
Cbc_setObjCoeff(self.cbc.ptr, idx(self.builder.builder.col_obj_coef), elem(self.builder.builder.col_obj_coef))
Cbc_setRowLower(self.cbc.ptr, idx(self.builder.builder.row_lower), elem(self.builder.builder.row_lower))
Cbc_setRowUpper(self.cbc.ptr, idx(self.builder.builder.row_upper), elem(self.builder.builder.row_upper))
Cbc_solve(self.cbc.ptr)
[accepts]
    Lt(len(self.builder.builder.coefficients_to_update), 1)
add_flow(state.network, elem(net.edges), ts, 0)
    Lt(abs(-from_raw_parts(Cbc_getColSolution(self.cbc.ptr), from(len(self.builder.builder.col_upper)))[col_for_edge(self.builder, elem(net.edges).index)]), 1e-10)
add_flow(state.network, elem(net.edges), ts, from_raw_parts(Cbc_getColSolution(self.cbc.ptr), from(len(self.builder.builder.col_upper)))[col_for_edge(self.builder, elem(net.edges).index)])
    !Lt(abs(-from_raw_parts(Cbc_getColSolution(self.cbc.ptr), from(len(self.builder.builder.col_upper)))[col_for_edge(self.builder, elem(net.edges).index)]), 1e-10)
complete(state, net, ts)
reset(state.network)
return default()
update(self.builder, net, ts, state, default())
## clp::to_clp_result
[accepts]
    p0 is 0
## <ClpSecondaryStatus as From<i32>>::from
return BadElementCheck
    p0 is 8
return EmptyProblemCheck
    p0 is 6
return GivingUpPrimal
    p0 is 5
return MaybePrimalInfeasible
    p0 is 1
return NotSet
    p0 is 0
return PostSolveNotOptimal
    p0 is 7
return PresolveInfeasibleOrUnbounded
    p0 is 11
return ScaledOptimalDualInfeasible
    p0 is 3
return ScaledOptimalPrimalAndDualInfeasible
    p0 is 4
return ScaledOptimalPrimalInfeasible
    p0 is 2
return StoppedAsPrimalFeasible
    p0 is 10
return StoppedOnTime
    p0 is 9
return Unknown{0: p0}
    p0 is _
## <ClpSimplex as Default>::default
Clp_newModel()
Clp_setLogLevel(Clp_newModel(), 0)
Clp_setObjSense(Clp_newModel(), 1)
return ClpSimplex{ptr: Clp_newModel()}
## <ClpSimplex as Drop>::drop
Clp_deleteModel(self.ptr)
## ClpSimplex::print
Clp_printModel(self.ptr, new("  "))
## ClpSimplex::resize
Clp_resize(self.ptr, p1, p2)
## ClpSimplex::change_row_lower
Clp_chgRowLower(self.ptr, p1)
## ClpSimplex::change_row_upper
Clp_chgRowUpper(self.ptr, p1)
## ClpSimplex::change_column_lower
Clp_chgColumnLower(self.ptr, p1)
## ClpSimplex::change_column_upper
Clp_chgColumnUpper(self.ptr, p1)
## ClpSimplex::change_objective_coefficients
Clp_chgObjCoefficients(self.ptr, p1)
## ClpSimplex::modify_coefficient
Clp_modifyCoefficient(self.ptr, p1, p2, p3, true)
## ClpSimplex::add_rows
Clp_addRows(self.ptr, len(p1), p1, p2, p3, p4, p5)
## <ClpSolver as Solver>::setup
Clp_addRows(default().ptr, len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_lower), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_starts, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.columns, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements)
Clp_chgColumnLower(default().ptr, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_lower)
Clp_chgColumnUpper(default().ptr, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_upper)
Clp_chgObjCoefficients(default().ptr, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_obj_coef)
Clp_initialDualSolve(default().ptr)
Clp_resize(default().ptr, 0, from(len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_upper)))
return ClpSolver{}
return.builder create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1)
return.clp_simplex default()
## <ClpSolver as Solver>::solve
Clp_chgObjCoefficients(self.clp_simplex.ptr, self.builder.builder.col_obj_coef)
Clp_chgRowLower(self.clp_simplex.ptr, self.builder.builder.row_lower)
Clp_chgRowUpper(self.clp_simplex.ptr, self.builder.builder.row_upper)
Clp_dual(self.clp_simplex.ptr, 0)
Clp_modifyCoefficient(self.clp_simplex.ptr, elem(self.builder.builder.coefficients_to_update).0, elem(self.builder.builder.coefficients_to_update).1, elem(self.builder.builder.coefficients_to_update).2, true)
Clp_primalColumnSolution(self.clp_simplex.ptr)
Clp_secondaryStatus(self.clp_simplex.ptr)
Clp_status(self.clp_simplex.ptr)
add_flow(state.network, elem(net.edges), ts, from_raw_parts(Clp_primalColumnSolution(self.clp_simplex.ptr), from(len(self.builder.builder.col_upper)))[col_for_edge(self.builder, elem(net.edges).index)])
complete(state, net, ts)
reset(state.network)
return default()
to_clp_result(Clp_status(self.clp_simplex.ptr), Clp_secondaryStatus(self.clp_simplex.ptr))
update(self.builder, net, ts, state, default())
## <Highs as Default>::default
Highs_changeObjectiveSense(Highs_create(), 1)
Highs_create()
Highs_setBoolOptionValue(Highs_create(), new("output_flag"), 0)
return Highs{ptr: Highs_create()}
## highs::to_highs_result
[accepts]
    !Eq(0, p0); Eq(1, p0)
    Eq(0, p0)
## Highs::add_cols
Highs_addCols(self.ptr, p5, p3, p1, p2, 0, null(), null(), null())
Highs_changeColIntegrality(self.ptr, idx(p4), 0)
    elem(p4) is Continuous
Highs_changeColIntegrality(self.ptr, idx(p4), 1)
    elem(p4) is Integer
to_highs_result(Highs_addCols(self.ptr, p5, p3, p1, p2, 0, null(), null(), null()), "addCols")
to_highs_result(Highs_changeColIntegrality(self.ptr, idx(p4), 0), "changeColIntegrality")
    elem(p4) is Continuous
to_highs_result(Highs_changeColIntegrality(self.ptr, idx(p4), 1), "changeColIntegrality")
    elem(p4) is Integer
## Highs::add_rows
Highs_addRows(self.ptr, len(p2), p1, p2, p3, p4, p5, p6)
to_highs_result(Highs_addRows(self.ptr, len(p2), p1, p2, p3, p4, p5, p6), "addRows")
## Highs::change_objective_coefficients
Highs_changeColsCostByRange(self.ptr, 0, (p2 -1), p1)
to_highs_result(Highs_changeColsCostByRange(self.ptr, 0, (p2 -1), p1), "changeColsCostByRange")
## Highs::change_row_bounds
Highs_changeRowsBoundsByMask(self.ptr, p1, p2, p3)
to_highs_result(Highs_changeRowsBoundsByMask(self.ptr, p1, p2, p3), "changeRowsBoundsByMask")
## Highs::change_coefficient
Highs_changeCoeff(self.ptr, p1, p2, p3)
to_highs_result(Highs_changeCoeff(self.ptr, p1, p2, p3), "changeCoeff")
## Highs::run
Highs_getModelStatus(self.ptr)
Highs_run(self.ptr)
[accepts]
    !Eq(0, Highs_getModelStatus(self.ptr)); !Eq(1, Highs_getModelStatus(self.ptr)); !Eq(2, Highs_getModelStatus(self.ptr)); !Eq(3, Highs_getModelStatus(self.ptr)); !Eq(4, Highs_getModelStatus(self.ptr)); !Eq(5, Highs_getModelStatus(self.ptr)); !Eq(6, Highs_getModelStatus(self.ptr)); Eq(7, Highs_getModelStatus(self.ptr))
to_highs_result(Highs_run(self.ptr), "run")
## Highs::objective_value
Highs_getDoubleInfoValue(self.ptr, new("objective_function_value"), 0)
return 0
## Highs::primal_column_solution
Highs_getSolution(self.ptr, from_elem(0, p1), from_elem(0, p1), from_elem(0, p2), from_elem(0, p2))
return from_elem(0, p1)
to_highs_result(Highs_getSolution(self.ptr, from_elem(0, p1), from_elem(0, p1), from_elem(0, p2), from_elem(0, p2)), "getSolution")
## <HighsSolver as Solver>::setup
Highs_addRows(default().ptr, len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper, from(len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements)), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_starts, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.columns, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements)
Highs_setStringOptionValue(default().ptr, new("presolve"), new("on"))
add_cols(default(), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_upper, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_obj_coef, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_type, from(len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.col_upper)))
return HighsSolver{}
return.builder create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1)
return.highs default()
to_highs_result(Highs_addRows(default().ptr, len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_lower, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_upper, from(len(create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements)), create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.row_starts, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.columns, create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: 1.79769313486e+308, f64_neg_max: -1.79769313486e+308, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1).builder.elements), "addRows")
## <HighsSolver as Solver>::solve
Highs_changeCoeff(self.highs.ptr, elem(self.builder.builder.coefficients_to_update).0, elem(self.builder.builder.coefficients_to_update).1, clamp(elem(self.builder.builder.coefficients_to_update).2, -10000000000, 10000000000))
Highs_changeColsCostByRange(self.highs.ptr, 0, (from(len(self.builder.builder.col_upper)) -1), self.builder.builder.col_obj_coef)
Highs_changeRowsBoundsByMask(self.highs.ptr, self.builder.builder.row_mask, self.builder.builder.row_lower, self.builder.builder.row_upper)
Highs_clearSolver(self.highs.ptr)
    run(self.highs) is Err
[success]
    err(run(self.highs)) is Unknown; run(self.highs) is Err
    run(self.highs) is Ok
add_flow(state.network, elem(net.edges), ts, primal_column_solution(self.highs, from(len(self.builder.builder.col_upper)), from(len(self.builder.builder.row_upper)))[col_for_edge(self.builder, elem(net.edges).index)])
complete(state, net, ts)
primal_column_solution(self.highs, from(len(self.builder.builder.col_upper)), from(len(self.builder.builder.row_upper)))
reset(state.network)
return default()
run(self.highs)
to_highs_result(Highs_changeCoeff(self.highs.ptr, elem(self.builder.builder.coefficients_to_update).0, elem(self.builder.builder.coefficients_to_update).1, clamp(elem(self.builder.builder.coefficients_to_update).2, -10000000000, 10000000000)), "changeCoeff")
to_highs_result(Highs_changeColsCostByRange(self.highs.ptr, 0, (from(len(self.builder.builder.col_upper)) -1), self.builder.builder.col_obj_coef), "changeColsCostByRange")
to_highs_result(Highs_changeRowsBoundsByMask(self.highs.ptr, self.builder.builder.row_mask, self.builder.builder.row_lower, self.builder.builder.row_upper), "changeRowsBoundsByMask")
to_highs_result(Highs_clearSolver(self.highs.ptr), "clearSolver")
    run(self.highs) is Err
update(self.builder, net, ts, state, default())
## <ClIpmF32Solver as MultiStateSolver>::setup
build(builder())
builder()
devices(builder(), first(default()))
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.columns)
    chunks(new(p1/p2.num_chunks))
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.elements)
    chunks(new(p1/p2.num_chunks))
first(default())
new(build(builder()), first(default()), none)
platform(builder(), default())
push(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, (elem(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.row_starts) +split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).0))
    chunks(new(p1/p2.num_chunks))
return ClIpmF32Solver{}
return.built list
return.built[] create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net)
    chunks(new(p1/p2.num_chunks))
return.chunk_size new(p1/p2.num_chunks)
return.ipm list
return.ipm[] from_data(new(build(builder()), first(default()), none), get_cl_program(build(builder()), first(default()), p2.tolerances), (len(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1) -1), create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.num_cols, split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, list(elem(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements)), (len(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts) -1), len(elem(Range{end: p1, start: 0})))
    chunks(new(p1/p2.num_chunks))
return.max_iterations p2.max_iterations
return.queue new(build(builder()), first(default()), none)
## <ClIpmF32Solver as MultiStateSolver>::solve
add_flow(elem(elem(par_chunks_mut(p3, self.chunk_size))).network, elem(net.edges), ts, solve(elem(self.ipm), self.queue, list(elem(elem(self.built).lp.row_upper)), list(elem(elem(self.built).lp.col_obj_coef)), self.max_iterations)[(col_for_edge(elem(self.built), elem(net.edges).index)*len(elem(par_chunks_mut(p3, self.chunk_size))) +idx(elem(par_chunks_mut(p3, self.chunk_size))))])
reset(elem(elem(par_chunks_mut(p3, self.chunk_size))).network)
return default()
solve(elem(self.ipm), self.queue, list(elem(elem(self.built).lp.row_upper)), list(elem(elem(self.built).lp.col_obj_coef)), self.max_iterations)
update(elem(self.built), net, ts, elem(par_chunks_mut(p3, self.chunk_size)), default())
## <ClIpmF64Solver as MultiStateSolver>::setup
build(builder())
builder()
devices(builder(), first(default()))
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.columns)
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.elements)
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
first(default())
new(build(builder()), first(default()), none)
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
platform(builder(), default())
push(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, (elem(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.row_starts) +split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).0))
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
return ClIpmF64Solver{}
return.built list
return.built[] create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net)
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
return.chunk_size core::num::nonzero::NonZero::<usize>::MIN
    new(p1/p2.num_chunks) is None
return.chunk_size new(p1/p2.num_chunks)
    new(p1/p2.num_chunks) is Some
return.ipm list
return.ipm[] from_data(new(build(builder()), first(default()), none), get_cl_program(build(builder()), first(default()), p2.tolerances), (len(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1) -1), create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.num_cols, split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements, (len(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0, num_lps: len(elem(Range{end: p1, start: 0}))}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts) -1), len(elem(Range{end: p1, start: 0})))
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
return.max_iterations p2.max_iterations
return.queues list
return.queues[] new(build(builder()), first(default()), none)
    chunks(core::num::nonzero::NonZero::<usize>::MIN); new(p1/p2.num_chunks) is None
    chunks(new(p1/p2.num_chunks)); new(p1/p2.num_chunks) is Some
## <ClIpmF64Solver as MultiStateSolver>::solve
add_flow(elem(elem(par_chunks_mut(p3, self.chunk_size))).network, elem(net.edges), ts, solve(elem(self.ipm), elem(self.queues), elem(self.built).lp.row_upper, elem(self.built).lp.col_obj_coef, self.max_iterations)[(col_for_edge(elem(self.built), elem(net.edges).index)*len(elem(par_chunks_mut(p3, self.chunk_size))) +idx(elem(par_chunks_mut(p3, self.chunk_size))))])
reset(elem(elem(par_chunks_mut(p3, self.chunk_size))).network)
return default()
solve(elem(self.ipm), elem(self.queues), elem(self.built).lp.row_upper, elem(self.built).lp.col_obj_coef, self.max_iterations)
update(elem(self.built), net, ts, elem(par_chunks_mut(p3, self.chunk_size)), default())
## <SimdIpmF64Solver as MultiStateSolver>::setup
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.columns)
    chunks(4)
extend(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.elements)
    chunks(4)
push(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, (elem(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.equality.row_starts) +split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).0))
    chunks(4)
return SimdIpmF64Solver{}
return.built list
return.built[] create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net)
    chunks(4)
return.ipm list
return.ipm[] PathFollowingDirectSimdSolver{buffers: from_data(try_from_csr_data((len(split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1) -1), create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.num_cols, split_last(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts).1, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.columns, create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.elements), (len(create(SolverBuilder{builder: LpBuilder{equality: new(), inequality: new(), num_cols: 0}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}}, net).lp.inequality.row_starts) -1))}
    chunks(4)
return.max_iterations p2.max_iterations
return.tolerances p2.tolerances
## <SimdIpmF64Solver as MultiStateSolver>::solve
add_flow(elem(elem(par_chunks_mut(p3, 4))).network, elem(net.edges), ts, elem(as_array(solve(elem(self.ipm), elem(self.built).lp.row_upper, elem(self.built).lp.col_obj_coef, self.tolerances, self.max_iterations)[col_for_edge(elem(self.built), elem(net.edges).index)])))
reset(elem(elem(par_chunks_mut(p3, 4))).network)
return default()
solve(elem(self.ipm), elem(self.built).lp.row_upper, elem(self.built).lp.col_obj_coef, self.tolerances, self.max_iterations)
update(elem(self.built), net, ts, elem(par_chunks_mut(p3, 4)), default())
## MicroLpSolver::make_problem
add_binary_var(new(Minimize), elem(self.builder.builder.col_obj_coef))
    Eq(0, elem(self.builder.builder.col_lower)); Eq(1, elem(self.builder.builder.col_upper)); elem(self.builder.builder.col_type) is Integer
add_constraint(new(Minimize), map(zip(self.builder.builder.columns[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}], self.builder.builder.elements[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}]), |return.0 list(add_binary_var(new(Minimize), elem(self.builder.builder.col_obj_coef)) if Eq(0, elem(self.builder.builder.col_lower)) & Eq(1, elem(self.builder.builder.col_upper)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(1, elem(self.builder.builder.col_upper)) & Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if elem(self.builder.builder.col_type) is Continuous)[xa.0] / return.1 xa.1|), Eq, self.builder.builder.row_lower[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
    Eq(self.builder.builder.row_lower[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})], self.builder.builder.row_upper[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
add_constraint(new(Minimize), map(zip(self.builder.builder.columns[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}], self.builder.builder.elements[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}]), |return.0 list(add_binary_var(new(Minimize), elem(self.builder.builder.col_obj_coef)) if Eq(0, elem(self.builder.builder.col_lower)) & Eq(1, elem(self.builder.builder.col_upper)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(1, elem(self.builder.builder.col_upper)) & Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if elem(self.builder.builder.col_type) is Continuous)[xa.0] / return.1 xa.1|), Ge, self.builder.builder.row_lower[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
    !Eq(self.builder.builder.row_lower[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})], self.builder.builder.row_upper[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
add_constraint(new(Minimize), map(zip(self.builder.builder.columns[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}], self.builder.builder.elements[Range{end: self.builder.builder.row_starts[(elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0}) +1)], start: self.builder.builder.row_starts[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]}]), |return.0 list(add_binary_var(new(Minimize), elem(self.builder.builder.col_obj_coef)) if Eq(0, elem(self.builder.builder.col_lower)) & Eq(1, elem(self.builder.builder.col_upper)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(1, elem(self.builder.builder.col_upper)) & Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if !Eq(0, elem(self.builder.builder.col_lower)) & elem(self.builder.builder.col_type) is Integer, add_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper))) if elem(self.builder.builder.col_type) is Continuous)[xa.0] / return.1 xa.1|), Le, self.builder.builder.row_upper[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
    !Eq(self.builder.builder.row_lower[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})], self.builder.builder.row_upper[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})]); is_finite(self.builder.builder.row_upper[elem(Range{end: from(len(self.builder.builder.row_upper)), start: 0})])
add_integer_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper)))
    !Eq(0, elem(self.builder.builder.col_lower)); elem(self.builder.builder.col_type) is Integer
    !Eq(1, elem(self.builder.builder.col_upper)); Eq(0, elem(self.builder.builder.col_lower)); elem(self.builder.builder.col_type) is Integer
add_var(new(Minimize), elem(self.builder.builder.col_obj_coef), (elem(self.builder.builder.col_lower), elem(self.builder.builder.col_upper)))
    elem(self.builder.builder.col_type) is Continuous
return Minimize
## <MicroLpSolver as Solver>::setup
return MicroLpSolver{builder: create(SolverBuilder{builder: LpBuilder{col_lower: new(), col_obj_coef: new(), col_type: new(), col_upper: new(), f64_max: inf, f64_neg_max: -inf, fixed_rows: new(), rows: new()}, col_edge_map: ColumnEdgeMapBuilder{col_to_edges: new(), edge_to_col: new()}, node_bin_col_map: new(), node_set_bin_col_map: new()}, net, p1)}
## <MicroLpSolver as Solver>::solve
[accepts]
    solve(make_problem(self)) is 0
[success]
    solve(make_problem(self)) is 0
add_flow(state.network, elem(net.edges), ts, list(elem(solve(make_problem(self))~Solution.0).1)[col_for_edge(self.builder, elem(net.edges).index)])
apply_updated_coefficients(self.builder)
complete(state, net, ts)
reset(state.network)
return default()
update(self.builder, net, ts, state, default())
