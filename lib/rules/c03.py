"""The linear programme is refreshed from the current state every time-step: objective, bounds and coefficients."""
import specs
from facts import strip_generics

EXPLAIN = ("The update routine of each linear-programme representation (the shared builder used by the simplex solvers, the SIMD "
           "interior point solver and the OpenCL interior point solver) and the node, edge, aggregated node and virtual storage routines "
           "that supply its numbers are turned into decision tables by value-flow analysis of their MIR (helpers, closures and loops "
           "expanded); every write to the objective, row bounds and coefficients must be one the specification lists, from the listed "
           "quantity and under the listed condition, and every listed write must be there.")
ASSUMPTIONS = ["a loop over a collection is judged by one generic iteration"]

VOC = ["cost", "get_bounds", "get_flow_bounds", "get_available_volume_bounds", "get_norm_factor_pairs", "col_for_edge", "days", "is_active",
       "node_type", "node0_factor", "node1_factor", "rhs", "get_outgoing_edges", "get_incoming_edges", "node0_indices", "node1_indices",
       "get_aggregated_node", "is_max_flow_unconstrained"]
NODE = [(r"self~(Input|Link|Output|Storage)\.0", "self.node", 1)]
VAL = ["get_value", "get_simple_parameter_values", "get_const_parameter_values", "get_network_state", "get_node_volume", "get_node_max_volume",
       "get_virtual_storage_available_volume", "get_virtual_storage_max_volume", "get_virtual_storage_volume", "get_mut_network_state"]


def inmod(m):
    return lambda P: [b for b in P.method("BuiltSolver", "update") if f"::{m}::" in b.p]


SPECS = [
    dict(key="shared builder update", fn=inmod("builder"), opaque=VOC, ignore=r"^timings\.",
         macros=[("elem(self.node_constraints_row_ids)", "NR"), ("get_bounds(net.nodes[NR.node_idx.0], net, state)", "BOUNDS"),
                 ("elem(self.agg_node_factor_constraint_row_ids)", "AF"), ("elem(get_norm_factor_pairs(get_aggregated_node(net, AF.agg_node_idx), net, state))", "PAIR"),
                 ("self.builder.", "lp."), ("elem(net.virtual_storage_nodes)", "VS"), ("elem(self.virtual_storage_constraint_row_ids)", "VSROW")]),
    dict(key="simd interior point update", fn=inmod("ipm_simd"), opaque=VOC, ignore=r"^timings\.|resize", acts=r"::(apply_row_bounds|add_obj_coefficient)$",
         ordered=[(r"apply_row_bounds.*missing", r"apply_row_bounds.*available")],
         macros=[("get_bounds(elem(net.nodes), net, elem(states))", "BOUNDS"), ("elem(self.node_constraints_row_ids)", "NROW")]),
    dict(key="opencl interior point update", fn=inmod("ipm_ocl"), opaque=VOC, ignore=r"^timings\.", acts=r"::(apply_row_bounds|add_obj_coefficient)$",
         ordered=[(r"apply_row_bounds.*missing", r"apply_row_bounds.*available")],
         macros=[("get_bounds(elem(net.nodes), net, elem(states))", "BOUNDS"), ("elem(self.node_constraints_row_ids)", "NROW")]),
    dict(key=lambda b: strip_generics(b.p).split("::", 1)[1], fn=r"^pywr_core::edge::Edge::cost$", opaque=VAL + ["get_outgoing_cost", "get_incoming_cost"]),
    dict(key=lambda b: strip_generics(b.p).split("::", 1)[1], fn=r"^pywr_core::node::Node::(get_outgoing_cost|get_incoming_cost|get_bounds|get_min_flow|get_max_flow|is_max_flow_unconstrained|node_type)$",
         opaque=VAL + ["get_cost"], macros=NODE),
    dict(key=lambda b: strip_generics(b.p).split("::", 1)[1], fn=r"^pywr_core::node::NodeCost::get_cost$", opaque=VAL + ["VirtualStorageNode::get_cost"]),
    dict(key=lambda b: strip_generics(b.p).split("::", 1)[1], fn=r"^pywr_core::aggregated_node::AggregatedNode::(get_flow_bounds|get_min_flow|get_max_flow)$", opaque=VAL),
    dict(key=lambda b: strip_generics(b.p).split("::", 1)[1], fn=r"^pywr_core::virtual_storage::VirtualStorageNode::(get_available_volume_bounds|get_volume_bounds|get_cost|get_max_volume|get_min_volume)$", opaque=VAL),
]


def run(P, R):
    specs.run(P, R, "C03", SPECS)
    R.floor("behaviour", 40)
