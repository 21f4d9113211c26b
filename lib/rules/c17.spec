## <Edge as VisitNodeReferences>::visit_node_references
call(p1, self.from_node)
call(p1, self.to_node)
## <Edge as VisitNodeReferences>::visit_node_references_mut
call(p1, self.from_node)
call(p1, self.to_node)
## <NodeAttrReference as VisitNodeReferences>::visit_node_references
call(p1, self.name)
## <NodeAttrReference as VisitNodeReferences>::visit_node_references_mut
call(p1, self.name)
## <VirtualNodeAttrReference as VisitNodeReferences>::visit_node_references
call(p1, self.name)
## <VirtualNodeAttrReference as VisitNodeReferences>::visit_node_references_mut
call(p1, self.name)
## <NodeComponentReference as VisitNodeReferences>::visit_node_references
call(p1, self.name)
## <NodeComponentReference as VisitNodeReferences>::visit_node_references_mut
call(p1, self.name)
## <EdgeReference as VisitNodeReferences>::visit_node_references
visit_node_references(self.edge, p1)
## <EdgeReference as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self.edge, p1)
## <VirtualNode as VisitMetrics>::visit_metrics
visit_metrics(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_metrics(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_metrics(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_metrics(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_metrics(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_metrics(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_metrics(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_metrics(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_metrics(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <VirtualNode as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_metrics_mut(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_metrics_mut(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_metrics_mut(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_metrics_mut(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_metrics_mut(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_metrics_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_metrics_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics_mut(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_metrics_mut(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <VirtualNode as VisitPaths>::visit_paths
visit_paths(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_paths(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_paths(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_paths(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_paths(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_paths(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_paths(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_paths(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_paths(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <VirtualNode as VisitPaths>::visit_paths_mut
visit_paths_mut(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_paths_mut(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_paths_mut(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_paths_mut(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_paths_mut(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_paths_mut(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_paths_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_paths_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths_mut(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_paths_mut(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <VirtualNode as VisitNodeReferences>::visit_node_references
visit_node_references(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_node_references(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_node_references(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_node_references(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_node_references(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_node_references(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_node_references(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_node_references(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_node_references(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <VirtualNode as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Aggregated.0.max_flow, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.meta.position, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.min_flow, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.nodes, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.parameters, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.relationship, p1)
    self is Aggregated
visit_node_references_mut(self~AggregatedStorage.0.meta.comment, p1)
    self is AggregatedStorage
visit_node_references_mut(self~AggregatedStorage.0.meta.position, p1)
    self is AggregatedStorage
visit_node_references_mut(self~AggregatedStorage.0.meta.tags, p1)
    self is AggregatedStorage
visit_node_references_mut(self~AggregatedStorage.0.parameters, p1)
    self is AggregatedStorage
visit_node_references_mut(self~AggregatedStorage.0.storage_nodes, p1)
    self is AggregatedStorage
visit_node_references_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_node_references_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references_mut(self~VirtualStorage.0.cost, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.factors, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.max_volume, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.meta.comment, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.meta.position, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.meta.tags, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.min_volume, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.nodes, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.parameters, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.reset, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.reset_volume, p1)
    self is VirtualStorage
visit_node_references_mut(self~VirtualStorage.0.window, p1)
    self is VirtualStorage
## <Node as VisitMetrics>::visit_metrics
visit_metrics(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_metrics(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_metrics(self~Catchment.0.cost, p1)
    self is Catchment
visit_metrics(self~Catchment.0.flow, p1)
    self is Catchment
visit_metrics(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_metrics(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_metrics(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_metrics(self~Catchment.0.parameters, p1)
    self is Catchment
visit_metrics(self~Delay.0.delay, p1)
    self is Delay
visit_metrics(self~Delay.0.initial_value, p1)
    self is Delay
visit_metrics(self~Delay.0.meta.comment, p1)
    self is Delay
visit_metrics(self~Delay.0.meta.position, p1)
    self is Delay
visit_metrics(self~Delay.0.meta.tags, p1)
    self is Delay
visit_metrics(self~Delay.0.parameters, p1)
    self is Delay
visit_metrics(self~Input.0.cost, p1)
    self is Input
visit_metrics(self~Input.0.max_flow, p1)
    self is Input
visit_metrics(self~Input.0.meta.comment, p1)
    self is Input
visit_metrics(self~Input.0.meta.position, p1)
    self is Input
visit_metrics(self~Input.0.meta.tags, p1)
    self is Input
visit_metrics(self~Input.0.min_flow, p1)
    self is Input
visit_metrics(self~Input.0.parameters, p1)
    self is Input
visit_metrics(self~Link.0.cost, p1)
    self is Link
visit_metrics(self~Link.0.max_flow, p1)
    self is Link
visit_metrics(self~Link.0.meta.comment, p1)
    self is Link
visit_metrics(self~Link.0.meta.position, p1)
    self is Link
visit_metrics(self~Link.0.meta.tags, p1)
    self is Link
visit_metrics(self~Link.0.min_flow, p1)
    self is Link
visit_metrics(self~Link.0.parameters, p1)
    self is Link
visit_metrics(self~Link.0.soft_max, p1)
    self is Link
visit_metrics(self~Link.0.soft_min, p1)
    self is Link
visit_metrics(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_metrics(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_metrics(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_metrics(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_metrics(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_metrics(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_metrics(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_metrics(self~LossLink.0.parameters, p1)
    self is LossLink
visit_metrics(self~Output.0.cost, p1)
    self is Output
visit_metrics(self~Output.0.max_flow, p1)
    self is Output
visit_metrics(self~Output.0.meta.comment, p1)
    self is Output
visit_metrics(self~Output.0.meta.position, p1)
    self is Output
visit_metrics(self~Output.0.meta.tags, p1)
    self is Output
visit_metrics(self~Output.0.min_flow, p1)
    self is Output
visit_metrics(self~Output.0.parameters, p1)
    self is Output
visit_metrics(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_metrics(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_metrics(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_metrics(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_metrics(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_metrics(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.max_volume, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_metrics(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_metrics(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_metrics(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_metrics(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_metrics(self~River.0.loss_factor, p1)
    self is River
visit_metrics(self~River.0.meta.comment, p1)
    self is River
visit_metrics(self~River.0.meta.position, p1)
    self is River
visit_metrics(self~River.0.meta.tags, p1)
    self is River
visit_metrics(self~River.0.parameters, p1)
    self is River
visit_metrics(self~River.0.routing_method, p1)
    self is River
visit_metrics(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_metrics(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_metrics(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_metrics(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_metrics(self~Storage.0.cost, p1)
    self is Storage
visit_metrics(self~Storage.0.max_volume, p1)
    self is Storage
visit_metrics(self~Storage.0.meta.comment, p1)
    self is Storage
visit_metrics(self~Storage.0.meta.position, p1)
    self is Storage
visit_metrics(self~Storage.0.meta.tags, p1)
    self is Storage
visit_metrics(self~Storage.0.min_volume, p1)
    self is Storage
visit_metrics(self~Storage.0.parameters, p1)
    self is Storage
visit_metrics(self~Turbine.0.cost, p1)
    self is Turbine
visit_metrics(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_metrics(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_metrics(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_metrics(self~Turbine.0.parameters, p1)
    self is Turbine
visit_metrics(self~Turbine.0.target, p1)
    self is Turbine
visit_metrics(self~Turbine.0.target_type, p1)
    self is Turbine
visit_metrics(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_metrics(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_metrics(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Node as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_metrics_mut(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_metrics_mut(self~Catchment.0.cost, p1)
    self is Catchment
visit_metrics_mut(self~Catchment.0.flow, p1)
    self is Catchment
visit_metrics_mut(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_metrics_mut(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_metrics_mut(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_metrics_mut(self~Catchment.0.parameters, p1)
    self is Catchment
visit_metrics_mut(self~Delay.0.delay, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.initial_value, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.meta.position, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.parameters, p1)
    self is Delay
visit_metrics_mut(self~Input.0.cost, p1)
    self is Input
visit_metrics_mut(self~Input.0.max_flow, p1)
    self is Input
visit_metrics_mut(self~Input.0.meta.comment, p1)
    self is Input
visit_metrics_mut(self~Input.0.meta.position, p1)
    self is Input
visit_metrics_mut(self~Input.0.meta.tags, p1)
    self is Input
visit_metrics_mut(self~Input.0.min_flow, p1)
    self is Input
visit_metrics_mut(self~Input.0.parameters, p1)
    self is Input
visit_metrics_mut(self~Link.0.cost, p1)
    self is Link
visit_metrics_mut(self~Link.0.max_flow, p1)
    self is Link
visit_metrics_mut(self~Link.0.meta.comment, p1)
    self is Link
visit_metrics_mut(self~Link.0.meta.position, p1)
    self is Link
visit_metrics_mut(self~Link.0.meta.tags, p1)
    self is Link
visit_metrics_mut(self~Link.0.min_flow, p1)
    self is Link
visit_metrics_mut(self~Link.0.parameters, p1)
    self is Link
visit_metrics_mut(self~Link.0.soft_max, p1)
    self is Link
visit_metrics_mut(self~Link.0.soft_min, p1)
    self is Link
visit_metrics_mut(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_metrics_mut(self~LossLink.0.parameters, p1)
    self is LossLink
visit_metrics_mut(self~Output.0.cost, p1)
    self is Output
visit_metrics_mut(self~Output.0.max_flow, p1)
    self is Output
visit_metrics_mut(self~Output.0.meta.comment, p1)
    self is Output
visit_metrics_mut(self~Output.0.meta.position, p1)
    self is Output
visit_metrics_mut(self~Output.0.meta.tags, p1)
    self is Output
visit_metrics_mut(self~Output.0.min_flow, p1)
    self is Output
visit_metrics_mut(self~Output.0.parameters, p1)
    self is Output
visit_metrics_mut(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_metrics_mut(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_metrics_mut(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_metrics_mut(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_metrics_mut(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_metrics_mut(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.max_volume, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_metrics_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_metrics_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics_mut(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_metrics_mut(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_metrics_mut(self~River.0.loss_factor, p1)
    self is River
visit_metrics_mut(self~River.0.meta.comment, p1)
    self is River
visit_metrics_mut(self~River.0.meta.position, p1)
    self is River
visit_metrics_mut(self~River.0.meta.tags, p1)
    self is River
visit_metrics_mut(self~River.0.parameters, p1)
    self is River
visit_metrics_mut(self~River.0.routing_method, p1)
    self is River
visit_metrics_mut(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_metrics_mut(self~Storage.0.cost, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.max_volume, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.meta.comment, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.meta.position, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.meta.tags, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.min_volume, p1)
    self is Storage
visit_metrics_mut(self~Storage.0.parameters, p1)
    self is Storage
visit_metrics_mut(self~Turbine.0.cost, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.parameters, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.target, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.target_type, p1)
    self is Turbine
visit_metrics_mut(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_metrics_mut(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_metrics_mut(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Node as VisitPaths>::visit_paths
visit_paths(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_paths(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_paths(self~Catchment.0.cost, p1)
    self is Catchment
visit_paths(self~Catchment.0.flow, p1)
    self is Catchment
visit_paths(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_paths(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_paths(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_paths(self~Catchment.0.parameters, p1)
    self is Catchment
visit_paths(self~Delay.0.delay, p1)
    self is Delay
visit_paths(self~Delay.0.initial_value, p1)
    self is Delay
visit_paths(self~Delay.0.meta.comment, p1)
    self is Delay
visit_paths(self~Delay.0.meta.position, p1)
    self is Delay
visit_paths(self~Delay.0.meta.tags, p1)
    self is Delay
visit_paths(self~Delay.0.parameters, p1)
    self is Delay
visit_paths(self~Input.0.cost, p1)
    self is Input
visit_paths(self~Input.0.max_flow, p1)
    self is Input
visit_paths(self~Input.0.meta.comment, p1)
    self is Input
visit_paths(self~Input.0.meta.position, p1)
    self is Input
visit_paths(self~Input.0.meta.tags, p1)
    self is Input
visit_paths(self~Input.0.min_flow, p1)
    self is Input
visit_paths(self~Input.0.parameters, p1)
    self is Input
visit_paths(self~Link.0.cost, p1)
    self is Link
visit_paths(self~Link.0.max_flow, p1)
    self is Link
visit_paths(self~Link.0.meta.comment, p1)
    self is Link
visit_paths(self~Link.0.meta.position, p1)
    self is Link
visit_paths(self~Link.0.meta.tags, p1)
    self is Link
visit_paths(self~Link.0.min_flow, p1)
    self is Link
visit_paths(self~Link.0.parameters, p1)
    self is Link
visit_paths(self~Link.0.soft_max, p1)
    self is Link
visit_paths(self~Link.0.soft_min, p1)
    self is Link
visit_paths(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_paths(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_paths(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_paths(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_paths(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_paths(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_paths(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_paths(self~LossLink.0.parameters, p1)
    self is LossLink
visit_paths(self~Output.0.cost, p1)
    self is Output
visit_paths(self~Output.0.max_flow, p1)
    self is Output
visit_paths(self~Output.0.meta.comment, p1)
    self is Output
visit_paths(self~Output.0.meta.position, p1)
    self is Output
visit_paths(self~Output.0.meta.tags, p1)
    self is Output
visit_paths(self~Output.0.min_flow, p1)
    self is Output
visit_paths(self~Output.0.parameters, p1)
    self is Output
visit_paths(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_paths(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_paths(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_paths(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_paths(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_paths(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_paths(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_paths(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_paths(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_paths(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_paths(self~River.0.loss_factor, p1)
    self is River
visit_paths(self~River.0.meta.comment, p1)
    self is River
visit_paths(self~River.0.meta.position, p1)
    self is River
visit_paths(self~River.0.meta.tags, p1)
    self is River
visit_paths(self~River.0.parameters, p1)
    self is River
visit_paths(self~River.0.routing_method, p1)
    self is River
visit_paths(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_paths(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_paths(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_paths(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_paths(self~Storage.0.cost, p1)
    self is Storage
visit_paths(self~Storage.0.max_volume, p1)
    self is Storage
visit_paths(self~Storage.0.meta.comment, p1)
    self is Storage
visit_paths(self~Storage.0.meta.position, p1)
    self is Storage
visit_paths(self~Storage.0.meta.tags, p1)
    self is Storage
visit_paths(self~Storage.0.min_volume, p1)
    self is Storage
visit_paths(self~Storage.0.parameters, p1)
    self is Storage
visit_paths(self~Turbine.0.cost, p1)
    self is Turbine
visit_paths(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_paths(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_paths(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_paths(self~Turbine.0.parameters, p1)
    self is Turbine
visit_paths(self~Turbine.0.target, p1)
    self is Turbine
visit_paths(self~Turbine.0.target_type, p1)
    self is Turbine
visit_paths(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_paths(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_paths(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Node as VisitPaths>::visit_paths_mut
visit_paths_mut(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_paths_mut(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_paths_mut(self~Catchment.0.cost, p1)
    self is Catchment
visit_paths_mut(self~Catchment.0.flow, p1)
    self is Catchment
visit_paths_mut(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_paths_mut(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_paths_mut(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_paths_mut(self~Catchment.0.parameters, p1)
    self is Catchment
visit_paths_mut(self~Delay.0.delay, p1)
    self is Delay
visit_paths_mut(self~Delay.0.initial_value, p1)
    self is Delay
visit_paths_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_paths_mut(self~Delay.0.meta.position, p1)
    self is Delay
visit_paths_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_paths_mut(self~Delay.0.parameters, p1)
    self is Delay
visit_paths_mut(self~Input.0.cost, p1)
    self is Input
visit_paths_mut(self~Input.0.max_flow, p1)
    self is Input
visit_paths_mut(self~Input.0.meta.comment, p1)
    self is Input
visit_paths_mut(self~Input.0.meta.position, p1)
    self is Input
visit_paths_mut(self~Input.0.meta.tags, p1)
    self is Input
visit_paths_mut(self~Input.0.min_flow, p1)
    self is Input
visit_paths_mut(self~Input.0.parameters, p1)
    self is Input
visit_paths_mut(self~Link.0.cost, p1)
    self is Link
visit_paths_mut(self~Link.0.max_flow, p1)
    self is Link
visit_paths_mut(self~Link.0.meta.comment, p1)
    self is Link
visit_paths_mut(self~Link.0.meta.position, p1)
    self is Link
visit_paths_mut(self~Link.0.meta.tags, p1)
    self is Link
visit_paths_mut(self~Link.0.min_flow, p1)
    self is Link
visit_paths_mut(self~Link.0.parameters, p1)
    self is Link
visit_paths_mut(self~Link.0.soft_max, p1)
    self is Link
visit_paths_mut(self~Link.0.soft_min, p1)
    self is Link
visit_paths_mut(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_paths_mut(self~LossLink.0.parameters, p1)
    self is LossLink
visit_paths_mut(self~Output.0.cost, p1)
    self is Output
visit_paths_mut(self~Output.0.max_flow, p1)
    self is Output
visit_paths_mut(self~Output.0.meta.comment, p1)
    self is Output
visit_paths_mut(self~Output.0.meta.position, p1)
    self is Output
visit_paths_mut(self~Output.0.meta.tags, p1)
    self is Output
visit_paths_mut(self~Output.0.min_flow, p1)
    self is Output
visit_paths_mut(self~Output.0.parameters, p1)
    self is Output
visit_paths_mut(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_paths_mut(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_paths_mut(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_paths_mut(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_paths_mut(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_paths_mut(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_paths_mut(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_paths_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_paths_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths_mut(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_paths_mut(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_paths_mut(self~River.0.loss_factor, p1)
    self is River
visit_paths_mut(self~River.0.meta.comment, p1)
    self is River
visit_paths_mut(self~River.0.meta.position, p1)
    self is River
visit_paths_mut(self~River.0.meta.tags, p1)
    self is River
visit_paths_mut(self~River.0.parameters, p1)
    self is River
visit_paths_mut(self~River.0.routing_method, p1)
    self is River
visit_paths_mut(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_paths_mut(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_paths_mut(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_paths_mut(self~Storage.0.cost, p1)
    self is Storage
visit_paths_mut(self~Storage.0.max_volume, p1)
    self is Storage
visit_paths_mut(self~Storage.0.meta.comment, p1)
    self is Storage
visit_paths_mut(self~Storage.0.meta.position, p1)
    self is Storage
visit_paths_mut(self~Storage.0.meta.tags, p1)
    self is Storage
visit_paths_mut(self~Storage.0.min_volume, p1)
    self is Storage
visit_paths_mut(self~Storage.0.parameters, p1)
    self is Storage
visit_paths_mut(self~Turbine.0.cost, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.parameters, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.target, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.target_type, p1)
    self is Turbine
visit_paths_mut(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_paths_mut(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_paths_mut(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Node as VisitNodeReferences>::visit_node_references
visit_node_references(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_node_references(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_node_references(self~Catchment.0.cost, p1)
    self is Catchment
visit_node_references(self~Catchment.0.flow, p1)
    self is Catchment
visit_node_references(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_node_references(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_node_references(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_node_references(self~Catchment.0.parameters, p1)
    self is Catchment
visit_node_references(self~Delay.0.delay, p1)
    self is Delay
visit_node_references(self~Delay.0.initial_value, p1)
    self is Delay
visit_node_references(self~Delay.0.meta.comment, p1)
    self is Delay
visit_node_references(self~Delay.0.meta.position, p1)
    self is Delay
visit_node_references(self~Delay.0.meta.tags, p1)
    self is Delay
visit_node_references(self~Delay.0.parameters, p1)
    self is Delay
visit_node_references(self~Input.0.cost, p1)
    self is Input
visit_node_references(self~Input.0.max_flow, p1)
    self is Input
visit_node_references(self~Input.0.meta.comment, p1)
    self is Input
visit_node_references(self~Input.0.meta.position, p1)
    self is Input
visit_node_references(self~Input.0.meta.tags, p1)
    self is Input
visit_node_references(self~Input.0.min_flow, p1)
    self is Input
visit_node_references(self~Input.0.parameters, p1)
    self is Input
visit_node_references(self~Link.0.cost, p1)
    self is Link
visit_node_references(self~Link.0.max_flow, p1)
    self is Link
visit_node_references(self~Link.0.meta.comment, p1)
    self is Link
visit_node_references(self~Link.0.meta.position, p1)
    self is Link
visit_node_references(self~Link.0.meta.tags, p1)
    self is Link
visit_node_references(self~Link.0.min_flow, p1)
    self is Link
visit_node_references(self~Link.0.parameters, p1)
    self is Link
visit_node_references(self~Link.0.soft_max, p1)
    self is Link
visit_node_references(self~Link.0.soft_min, p1)
    self is Link
visit_node_references(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_node_references(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_node_references(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_node_references(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_node_references(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_node_references(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_node_references(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_node_references(self~LossLink.0.parameters, p1)
    self is LossLink
visit_node_references(self~Output.0.cost, p1)
    self is Output
visit_node_references(self~Output.0.max_flow, p1)
    self is Output
visit_node_references(self~Output.0.meta.comment, p1)
    self is Output
visit_node_references(self~Output.0.meta.position, p1)
    self is Output
visit_node_references(self~Output.0.meta.tags, p1)
    self is Output
visit_node_references(self~Output.0.min_flow, p1)
    self is Output
visit_node_references(self~Output.0.parameters, p1)
    self is Output
visit_node_references(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_node_references(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_node_references(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_node_references(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_node_references(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_node_references(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.max_volume, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_node_references(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_node_references(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_node_references(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_node_references(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_node_references(self~River.0.loss_factor, p1)
    self is River
visit_node_references(self~River.0.meta.comment, p1)
    self is River
visit_node_references(self~River.0.meta.position, p1)
    self is River
visit_node_references(self~River.0.meta.tags, p1)
    self is River
visit_node_references(self~River.0.parameters, p1)
    self is River
visit_node_references(self~River.0.routing_method, p1)
    self is River
visit_node_references(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_node_references(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_node_references(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_node_references(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_node_references(self~Storage.0.cost, p1)
    self is Storage
visit_node_references(self~Storage.0.max_volume, p1)
    self is Storage
visit_node_references(self~Storage.0.meta.comment, p1)
    self is Storage
visit_node_references(self~Storage.0.meta.position, p1)
    self is Storage
visit_node_references(self~Storage.0.meta.tags, p1)
    self is Storage
visit_node_references(self~Storage.0.min_volume, p1)
    self is Storage
visit_node_references(self~Storage.0.parameters, p1)
    self is Storage
visit_node_references(self~Turbine.0.cost, p1)
    self is Turbine
visit_node_references(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_node_references(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_node_references(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_node_references(self~Turbine.0.parameters, p1)
    self is Turbine
visit_node_references(self~Turbine.0.target, p1)
    self is Turbine
visit_node_references(self~Turbine.0.target_type, p1)
    self is Turbine
visit_node_references(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_node_references(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_node_references(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Node as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Abstraction.0.abs_cost, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.abs_max_flow, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.abs_min_flow, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.meta.comment, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.meta.position, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.meta.tags, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.mrf, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.mrf_cost, p1)
    self is Abstraction
visit_node_references_mut(self~Abstraction.0.parameters, p1)
    self is Abstraction
visit_node_references_mut(self~Catchment.0.cost, p1)
    self is Catchment
visit_node_references_mut(self~Catchment.0.flow, p1)
    self is Catchment
visit_node_references_mut(self~Catchment.0.meta.comment, p1)
    self is Catchment
visit_node_references_mut(self~Catchment.0.meta.position, p1)
    self is Catchment
visit_node_references_mut(self~Catchment.0.meta.tags, p1)
    self is Catchment
visit_node_references_mut(self~Catchment.0.parameters, p1)
    self is Catchment
visit_node_references_mut(self~Delay.0.delay, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.initial_value, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.meta.position, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.parameters, p1)
    self is Delay
visit_node_references_mut(self~Input.0.cost, p1)
    self is Input
visit_node_references_mut(self~Input.0.max_flow, p1)
    self is Input
visit_node_references_mut(self~Input.0.meta.comment, p1)
    self is Input
visit_node_references_mut(self~Input.0.meta.position, p1)
    self is Input
visit_node_references_mut(self~Input.0.meta.tags, p1)
    self is Input
visit_node_references_mut(self~Input.0.min_flow, p1)
    self is Input
visit_node_references_mut(self~Input.0.parameters, p1)
    self is Input
visit_node_references_mut(self~Link.0.cost, p1)
    self is Link
visit_node_references_mut(self~Link.0.max_flow, p1)
    self is Link
visit_node_references_mut(self~Link.0.meta.comment, p1)
    self is Link
visit_node_references_mut(self~Link.0.meta.position, p1)
    self is Link
visit_node_references_mut(self~Link.0.meta.tags, p1)
    self is Link
visit_node_references_mut(self~Link.0.min_flow, p1)
    self is Link
visit_node_references_mut(self~Link.0.parameters, p1)
    self is Link
visit_node_references_mut(self~Link.0.soft_max, p1)
    self is Link
visit_node_references_mut(self~Link.0.soft_min, p1)
    self is Link
visit_node_references_mut(self~LossLink.0.loss_factor, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.max_net_flow, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.meta.comment, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.meta.position, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.meta.tags, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.min_net_flow, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.net_cost, p1)
    self is LossLink
visit_node_references_mut(self~LossLink.0.parameters, p1)
    self is LossLink
visit_node_references_mut(self~Output.0.cost, p1)
    self is Output
visit_node_references_mut(self~Output.0.max_flow, p1)
    self is Output
visit_node_references_mut(self~Output.0.meta.comment, p1)
    self is Output
visit_node_references_mut(self~Output.0.meta.position, p1)
    self is Output
visit_node_references_mut(self~Output.0.meta.tags, p1)
    self is Output
visit_node_references_mut(self~Output.0.min_flow, p1)
    self is Output
visit_node_references_mut(self~Output.0.parameters, p1)
    self is Output
visit_node_references_mut(self~PiecewiseLink.0.meta.comment, p1)
    self is PiecewiseLink
visit_node_references_mut(self~PiecewiseLink.0.meta.position, p1)
    self is PiecewiseLink
visit_node_references_mut(self~PiecewiseLink.0.meta.tags, p1)
    self is PiecewiseLink
visit_node_references_mut(self~PiecewiseLink.0.parameters, p1)
    self is PiecewiseLink
visit_node_references_mut(self~PiecewiseLink.0.steps, p1)
    self is PiecewiseLink
visit_node_references_mut(self~PiecewiseStorage.0.cost, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.max_volume, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.meta.comment, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.meta.position, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.meta.tags, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.min_volume, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.parameters, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~PiecewiseStorage.0.steps, p1)
    self is PiecewiseStorage
visit_node_references_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references_mut(self~Placeholder.0.meta.position, p1)
    self is Placeholder
visit_node_references_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references_mut(self~Reservoir.0.compensation, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.connect_compensation_to_spill, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.evaporation, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.leakage, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.rainfall, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.spill, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.cost, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.max_volume, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.meta.comment, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.meta.position, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.meta.tags, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.min_volume, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.storage.parameters, p1)
    self is Reservoir
visit_node_references_mut(self~Reservoir.0.surface_area, p1)
    self is Reservoir
visit_node_references_mut(self~River.0.loss_factor, p1)
    self is River
visit_node_references_mut(self~River.0.meta.comment, p1)
    self is River
visit_node_references_mut(self~River.0.meta.position, p1)
    self is River
visit_node_references_mut(self~River.0.meta.tags, p1)
    self is River
visit_node_references_mut(self~River.0.parameters, p1)
    self is River
visit_node_references_mut(self~River.0.routing_method, p1)
    self is River
visit_node_references_mut(self~RiverGauge.0.bypass_cost, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.meta.comment, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.meta.position, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.meta.tags, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.mrf, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.mrf_cost, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverGauge.0.parameters, p1)
    self is RiverGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.meta.comment, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.meta.position, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.meta.tags, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.mrf, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.mrf_cost, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.parameters, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~RiverSplitWithGauge.0.splits, p1)
    self is RiverSplitWithGauge
visit_node_references_mut(self~Storage.0.cost, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.max_volume, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.meta.comment, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.meta.position, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.meta.tags, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.min_volume, p1)
    self is Storage
visit_node_references_mut(self~Storage.0.parameters, p1)
    self is Storage
visit_node_references_mut(self~Turbine.0.cost, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.meta.comment, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.meta.position, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.meta.tags, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.parameters, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.target, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.target_type, p1)
    self is Turbine
visit_node_references_mut(self~Turbine.0.water_elevation, p1)
    self is Turbine
visit_node_references_mut(self~WaterTreatmentWorks.0.cost, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.loss_factor, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.max_flow, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.meta.comment, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.meta.position, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.meta.tags, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.min_flow, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.parameters, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.soft_min_flow, p1)
    self is WaterTreatmentWorks
visit_node_references_mut(self~WaterTreatmentWorks.0.soft_min_flow_cost, p1)
    self is WaterTreatmentWorks
## <Parameter as VisitMetrics>::visit_metrics
visit_metrics(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_metrics(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_metrics(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_metrics(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_metrics(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_metrics(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_metrics(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_metrics(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_metrics(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_metrics(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_metrics(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_metrics(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_metrics(self~Constant.0.meta.comment, p1)
    self is Constant
visit_metrics(self~Constant.0.meta.tags, p1)
    self is Constant
visit_metrics(self~Constant.0.value, p1)
    self is Constant
visit_metrics(self~Constant.0.variable, p1)
    self is Constant
visit_metrics(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_metrics(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_metrics(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_metrics(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_metrics(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_metrics(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_metrics(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_metrics(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_metrics(self~ControlCurve.0.storage_metric, p1)
    self is ControlCurve
visit_metrics(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_metrics(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_metrics(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_metrics(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_metrics(self~ControlCurveIndex.0.storage_metric, p1)
    self is ControlCurveIndex
visit_metrics(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_metrics(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_metrics(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_metrics(self~ControlCurveInterpolated.0.storage_metric, p1)
    self is ControlCurveInterpolated
visit_metrics(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.storage_metric, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_metrics(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_metrics(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_metrics(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_metrics(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_metrics(self~Delay.0.meta.comment, p1)
    self is Delay
visit_metrics(self~Delay.0.meta.tags, p1)
    self is Delay
visit_metrics(self~Delay.0.metric, p1)
    self is Delay
visit_metrics(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_metrics(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_metrics(self~DiscountFactor.0.discount_rate, p1)
    self is DiscountFactor
visit_metrics(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_metrics(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_metrics(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_metrics(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_metrics(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_metrics(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_metrics(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_metrics(self~Division.0.denominator, p1)
    self is Division
visit_metrics(self~Division.0.meta.comment, p1)
    self is Division
visit_metrics(self~Division.0.meta.tags, p1)
    self is Division
visit_metrics(self~Division.0.numerator, p1)
    self is Division
visit_metrics(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_metrics(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_metrics(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_metrics(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_metrics(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_metrics(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_metrics(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_metrics(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_metrics(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_metrics(self~Interpolated.0.x, p1)
    self is Interpolated
visit_metrics(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_metrics(self~Max.0.meta.comment, p1)
    self is Max
visit_metrics(self~Max.0.meta.tags, p1)
    self is Max
visit_metrics(self~Max.0.parameter, p1)
    self is Max
visit_metrics(self~Max.0.threshold, p1)
    self is Max
visit_metrics(self~Min.0.meta.comment, p1)
    self is Min
visit_metrics(self~Min.0.meta.tags, p1)
    self is Min
visit_metrics(self~Min.0.parameter, p1)
    self is Min
visit_metrics(self~Min.0.threshold, p1)
    self is Min
visit_metrics(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_metrics(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_metrics(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_metrics(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_metrics(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_metrics(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_metrics(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_metrics(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_metrics(self~MultiThreshold.0.metric, p1)
    self is MultiThreshold
visit_metrics(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_metrics(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_metrics(self~Negative.0.meta.comment, p1)
    self is Negative
visit_metrics(self~Negative.0.meta.tags, p1)
    self is Negative
visit_metrics(self~Negative.0.parameter, p1)
    self is Negative
visit_metrics(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_metrics(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_metrics(self~NegativeMax.0.metric, p1)
    self is NegativeMax
visit_metrics(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_metrics(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_metrics(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_metrics(self~NegativeMin.0.metric, p1)
    self is NegativeMin
visit_metrics(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_metrics(self~Offset.0.meta.comment, p1)
    self is Offset
visit_metrics(self~Offset.0.meta.tags, p1)
    self is Offset
visit_metrics(self~Offset.0.metric, p1)
    self is Offset
visit_metrics(self~Offset.0.offset, p1)
    self is Offset
visit_metrics(self~Offset.0.variable, p1)
    self is Offset
visit_metrics(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_metrics(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_metrics(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_metrics(self~Polynomial1D.0.metric, p1)
    self is Polynomial1D
visit_metrics(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_metrics(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_metrics(self~Python.0, p1)
    self is Python
visit_metrics(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_metrics(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_metrics(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_metrics(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_metrics(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_metrics(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_metrics(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_metrics(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_metrics(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_metrics(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_metrics(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_metrics(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_metrics(self~Rolling.0.metric, p1)
    self is Rolling
visit_metrics(self~Rolling.0.min_values, p1)
    self is Rolling
visit_metrics(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_metrics(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_metrics(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_metrics(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_metrics(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_metrics(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_metrics(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_metrics(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_metrics(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_metrics(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_metrics(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_metrics(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_metrics(self~Threshold.0.metric, p1)
    self is Threshold
visit_metrics(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_metrics(self~Threshold.0.threshold, p1)
    self is Threshold
visit_metrics(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_metrics(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_metrics(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_metrics(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_metrics(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_metrics(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_metrics(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_metrics(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_metrics(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_metrics(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_metrics(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <Parameter as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_metrics_mut(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_metrics_mut(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_metrics_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_metrics_mut(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_metrics_mut(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_metrics_mut(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_metrics_mut(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_metrics_mut(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_metrics_mut(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_metrics_mut(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_metrics_mut(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_metrics_mut(self~Constant.0.meta.comment, p1)
    self is Constant
visit_metrics_mut(self~Constant.0.meta.tags, p1)
    self is Constant
visit_metrics_mut(self~Constant.0.value, p1)
    self is Constant
visit_metrics_mut(self~Constant.0.variable, p1)
    self is Constant
visit_metrics_mut(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_metrics_mut(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_metrics_mut(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_metrics_mut(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_metrics_mut(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_metrics_mut(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_metrics_mut(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_metrics_mut(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_metrics_mut(self~ControlCurve.0.storage_metric, p1)
    self is ControlCurve
visit_metrics_mut(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_metrics_mut(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_metrics_mut(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_metrics_mut(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_metrics_mut(self~ControlCurveIndex.0.storage_metric, p1)
    self is ControlCurveIndex
visit_metrics_mut(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_metrics_mut(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_metrics_mut(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_metrics_mut(self~ControlCurveInterpolated.0.storage_metric, p1)
    self is ControlCurveInterpolated
visit_metrics_mut(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.storage_metric, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_metrics_mut(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_metrics_mut(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_metrics_mut(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_metrics_mut(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_metrics_mut(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_metrics_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_metrics_mut(self~Delay.0.metric, p1)
    self is Delay
visit_metrics_mut(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_metrics_mut(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_metrics_mut(self~DiscountFactor.0.discount_rate, p1)
    self is DiscountFactor
visit_metrics_mut(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_metrics_mut(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_metrics_mut(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_metrics_mut(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_metrics_mut(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_metrics_mut(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_metrics_mut(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_metrics_mut(self~Division.0.denominator, p1)
    self is Division
visit_metrics_mut(self~Division.0.meta.comment, p1)
    self is Division
visit_metrics_mut(self~Division.0.meta.tags, p1)
    self is Division
visit_metrics_mut(self~Division.0.numerator, p1)
    self is Division
visit_metrics_mut(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_metrics_mut(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_metrics_mut(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_metrics_mut(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_metrics_mut(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_metrics_mut(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_metrics_mut(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_metrics_mut(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_metrics_mut(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_metrics_mut(self~Interpolated.0.x, p1)
    self is Interpolated
visit_metrics_mut(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_metrics_mut(self~Max.0.meta.comment, p1)
    self is Max
visit_metrics_mut(self~Max.0.meta.tags, p1)
    self is Max
visit_metrics_mut(self~Max.0.parameter, p1)
    self is Max
visit_metrics_mut(self~Max.0.threshold, p1)
    self is Max
visit_metrics_mut(self~Min.0.meta.comment, p1)
    self is Min
visit_metrics_mut(self~Min.0.meta.tags, p1)
    self is Min
visit_metrics_mut(self~Min.0.parameter, p1)
    self is Min
visit_metrics_mut(self~Min.0.threshold, p1)
    self is Min
visit_metrics_mut(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_metrics_mut(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_metrics_mut(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_metrics_mut(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_metrics_mut(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_metrics_mut(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_metrics_mut(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_metrics_mut(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_metrics_mut(self~MultiThreshold.0.metric, p1)
    self is MultiThreshold
visit_metrics_mut(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_metrics_mut(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_metrics_mut(self~Negative.0.meta.comment, p1)
    self is Negative
visit_metrics_mut(self~Negative.0.meta.tags, p1)
    self is Negative
visit_metrics_mut(self~Negative.0.parameter, p1)
    self is Negative
visit_metrics_mut(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_metrics_mut(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_metrics_mut(self~NegativeMax.0.metric, p1)
    self is NegativeMax
visit_metrics_mut(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_metrics_mut(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_metrics_mut(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_metrics_mut(self~NegativeMin.0.metric, p1)
    self is NegativeMin
visit_metrics_mut(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_metrics_mut(self~Offset.0.meta.comment, p1)
    self is Offset
visit_metrics_mut(self~Offset.0.meta.tags, p1)
    self is Offset
visit_metrics_mut(self~Offset.0.metric, p1)
    self is Offset
visit_metrics_mut(self~Offset.0.offset, p1)
    self is Offset
visit_metrics_mut(self~Offset.0.variable, p1)
    self is Offset
visit_metrics_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_metrics_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_metrics_mut(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_metrics_mut(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_metrics_mut(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_metrics_mut(self~Polynomial1D.0.metric, p1)
    self is Polynomial1D
visit_metrics_mut(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_metrics_mut(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_metrics_mut(self~Python.0, p1)
    self is Python
visit_metrics_mut(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_metrics_mut(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_metrics_mut(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_metrics_mut(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_metrics_mut(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_metrics_mut(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_metrics_mut(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_metrics_mut(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_metrics_mut(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_metrics_mut(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_metrics_mut(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_metrics_mut(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_metrics_mut(self~Rolling.0.metric, p1)
    self is Rolling
visit_metrics_mut(self~Rolling.0.min_values, p1)
    self is Rolling
visit_metrics_mut(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_metrics_mut(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_metrics_mut(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_metrics_mut(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_metrics_mut(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_metrics_mut(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_metrics_mut(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_metrics_mut(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_metrics_mut(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_metrics_mut(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_metrics_mut(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_metrics_mut(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_metrics_mut(self~Threshold.0.metric, p1)
    self is Threshold
visit_metrics_mut(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_metrics_mut(self~Threshold.0.threshold, p1)
    self is Threshold
visit_metrics_mut(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_metrics_mut(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_metrics_mut(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_metrics_mut(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_metrics_mut(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_metrics_mut(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_metrics_mut(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_metrics_mut(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_metrics_mut(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_metrics_mut(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_metrics_mut(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <Parameter as VisitPaths>::visit_paths
visit_paths(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_paths(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_paths(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_paths(self~Aggregated.0.agg_func~Python.0.source~Path.path, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python; self~Aggregated.0.agg_func~Python.0.source is Path
visit_paths(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_paths(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_paths(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_paths(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_paths(self~AggregatedIndex.0.agg_func~Python.0.source~Path.path, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python; self~AggregatedIndex.0.agg_func~Python.0.source is Path
visit_paths(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_paths(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_paths(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_paths(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_paths(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_paths(self~Constant.0.meta.comment, p1)
    self is Constant
visit_paths(self~Constant.0.meta.tags, p1)
    self is Constant
visit_paths(self~Constant.0.value, p1)
    self is Constant
visit_paths(self~Constant.0.variable, p1)
    self is Constant
visit_paths(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_paths(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_paths(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_paths(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_paths(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_paths(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_paths(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_paths(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_paths(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_paths(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_paths(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_paths(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_paths(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_paths(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_paths(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_paths(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_paths(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_paths(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_paths(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_paths(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_paths(self~Delay.0.meta.comment, p1)
    self is Delay
visit_paths(self~Delay.0.meta.tags, p1)
    self is Delay
visit_paths(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_paths(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_paths(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_paths(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_paths(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_paths(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_paths(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_paths(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_paths(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_paths(self~Division.0.meta.comment, p1)
    self is Division
visit_paths(self~Division.0.meta.tags, p1)
    self is Division
visit_paths(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_paths(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_paths(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_paths(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_paths(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_paths(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_paths(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_paths(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_paths(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_paths(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_paths(self~Max.0.meta.comment, p1)
    self is Max
visit_paths(self~Max.0.meta.tags, p1)
    self is Max
visit_paths(self~Max.0.threshold, p1)
    self is Max
visit_paths(self~Min.0.meta.comment, p1)
    self is Min
visit_paths(self~Min.0.meta.tags, p1)
    self is Min
visit_paths(self~Min.0.threshold, p1)
    self is Min
visit_paths(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_paths(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_paths(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_paths(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_paths(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_paths(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_paths(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_paths(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_paths(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_paths(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_paths(self~Negative.0.meta.comment, p1)
    self is Negative
visit_paths(self~Negative.0.meta.tags, p1)
    self is Negative
visit_paths(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_paths(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_paths(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_paths(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_paths(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_paths(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_paths(self~Offset.0.meta.comment, p1)
    self is Offset
visit_paths(self~Offset.0.meta.tags, p1)
    self is Offset
visit_paths(self~Offset.0.offset, p1)
    self is Offset
visit_paths(self~Offset.0.variable, p1)
    self is Offset
visit_paths(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_paths(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_paths(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_paths(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_paths(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_paths(self~Python.0, p1)
    self is Python
visit_paths(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_paths(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_paths(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_paths(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_paths(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_paths(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_paths(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_paths(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_paths(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_paths(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_paths(self~Rolling.0.agg_func~Python.0.source~Path.path, p1)
    self is Rolling; self~Rolling.0.agg_func is Python; self~Rolling.0.agg_func~Python.0.source is Path
visit_paths(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_paths(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_paths(self~Rolling.0.min_values, p1)
    self is Rolling
visit_paths(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_paths(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_paths(self~RollingIndex.0.agg_func~Python.0.source~Path.path, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python; self~RollingIndex.0.agg_func~Python.0.source is Path
visit_paths(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_paths(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_paths(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_paths(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_paths(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_paths(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_paths(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_paths(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_paths(self~TablesArray.0.url, p1)
    self is TablesArray
visit_paths(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_paths(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_paths(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_paths(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_paths(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_paths(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_paths(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_paths(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_paths(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_paths(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_paths(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_paths(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_paths(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_paths(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <Parameter as VisitPaths>::visit_paths_mut
visit_paths_mut(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_paths_mut(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_paths_mut(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_paths_mut(self~Aggregated.0.agg_func~Python.0.source~Path.path, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python; self~Aggregated.0.agg_func~Python.0.source is Path
visit_paths_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_paths_mut(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_paths_mut(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_paths_mut(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_paths_mut(self~AggregatedIndex.0.agg_func~Python.0.source~Path.path, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python; self~AggregatedIndex.0.agg_func~Python.0.source is Path
visit_paths_mut(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_paths_mut(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_paths_mut(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_paths_mut(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_paths_mut(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_paths_mut(self~Constant.0.meta.comment, p1)
    self is Constant
visit_paths_mut(self~Constant.0.meta.tags, p1)
    self is Constant
visit_paths_mut(self~Constant.0.value, p1)
    self is Constant
visit_paths_mut(self~Constant.0.variable, p1)
    self is Constant
visit_paths_mut(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_paths_mut(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_paths_mut(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_paths_mut(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_paths_mut(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_paths_mut(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_paths_mut(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_paths_mut(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_paths_mut(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_paths_mut(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_paths_mut(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_paths_mut(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_paths_mut(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_paths_mut(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_paths_mut(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_paths_mut(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_paths_mut(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_paths_mut(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_paths_mut(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_paths_mut(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_paths_mut(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_paths_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_paths_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_paths_mut(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_paths_mut(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_paths_mut(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_paths_mut(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_paths_mut(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_paths_mut(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_paths_mut(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_paths_mut(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_paths_mut(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_paths_mut(self~Division.0.meta.comment, p1)
    self is Division
visit_paths_mut(self~Division.0.meta.tags, p1)
    self is Division
visit_paths_mut(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_paths_mut(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_paths_mut(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_paths_mut(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_paths_mut(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_paths_mut(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_paths_mut(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_paths_mut(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_paths_mut(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_paths_mut(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_paths_mut(self~Max.0.meta.comment, p1)
    self is Max
visit_paths_mut(self~Max.0.meta.tags, p1)
    self is Max
visit_paths_mut(self~Max.0.threshold, p1)
    self is Max
visit_paths_mut(self~Min.0.meta.comment, p1)
    self is Min
visit_paths_mut(self~Min.0.meta.tags, p1)
    self is Min
visit_paths_mut(self~Min.0.threshold, p1)
    self is Min
visit_paths_mut(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_paths_mut(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_paths_mut(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_paths_mut(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_paths_mut(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_paths_mut(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_paths_mut(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_paths_mut(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_paths_mut(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_paths_mut(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_paths_mut(self~Negative.0.meta.comment, p1)
    self is Negative
visit_paths_mut(self~Negative.0.meta.tags, p1)
    self is Negative
visit_paths_mut(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_paths_mut(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_paths_mut(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_paths_mut(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_paths_mut(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_paths_mut(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_paths_mut(self~Offset.0.meta.comment, p1)
    self is Offset
visit_paths_mut(self~Offset.0.meta.tags, p1)
    self is Offset
visit_paths_mut(self~Offset.0.offset, p1)
    self is Offset
visit_paths_mut(self~Offset.0.variable, p1)
    self is Offset
visit_paths_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_paths_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_paths_mut(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_paths_mut(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_paths_mut(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_paths_mut(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_paths_mut(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_paths_mut(self~Python.0, p1)
    self is Python
visit_paths_mut(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_paths_mut(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_paths_mut(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_paths_mut(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_paths_mut(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_paths_mut(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_paths_mut(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_paths_mut(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_paths_mut(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_paths_mut(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_paths_mut(self~Rolling.0.agg_func~Python.0.source~Path.path, p1)
    self is Rolling; self~Rolling.0.agg_func is Python; self~Rolling.0.agg_func~Python.0.source is Path
visit_paths_mut(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_paths_mut(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_paths_mut(self~Rolling.0.min_values, p1)
    self is Rolling
visit_paths_mut(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_paths_mut(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_paths_mut(self~RollingIndex.0.agg_func~Python.0.source~Path.path, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python; self~RollingIndex.0.agg_func~Python.0.source is Path
visit_paths_mut(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_paths_mut(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_paths_mut(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_paths_mut(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_paths_mut(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_paths_mut(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_paths_mut(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_paths_mut(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_paths_mut(self~TablesArray.0.url, p1)
    self is TablesArray
visit_paths_mut(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_paths_mut(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_paths_mut(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_paths_mut(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_paths_mut(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_paths_mut(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_paths_mut(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_paths_mut(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_paths_mut(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_paths_mut(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_paths_mut(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_paths_mut(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_paths_mut(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_paths_mut(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <Parameter as VisitNodeReferences>::visit_node_references
visit_node_references(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_node_references(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_node_references(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_node_references(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_node_references(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_node_references(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_node_references(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_node_references(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_node_references(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_node_references(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_node_references(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_node_references(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_node_references(self~AsymmetricSwitchIndex.0.off_index_parameter, p1)
    self is AsymmetricSwitchIndex
visit_node_references(self~AsymmetricSwitchIndex.0.on_index_parameter, p1)
    self is AsymmetricSwitchIndex
visit_node_references(self~Constant.0.meta.comment, p1)
    self is Constant
visit_node_references(self~Constant.0.meta.tags, p1)
    self is Constant
visit_node_references(self~Constant.0.value, p1)
    self is Constant
visit_node_references(self~Constant.0.variable, p1)
    self is Constant
visit_node_references(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_node_references(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_node_references(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_node_references(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_node_references(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_node_references(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_node_references(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_node_references(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_node_references(self~ControlCurve.0.storage_metric, p1)
    self is ControlCurve
visit_node_references(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_node_references(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_node_references(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_node_references(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_node_references(self~ControlCurveIndex.0.storage_metric, p1)
    self is ControlCurveIndex
visit_node_references(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_node_references(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_node_references(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_node_references(self~ControlCurveInterpolated.0.storage_metric, p1)
    self is ControlCurveInterpolated
visit_node_references(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.storage_metric, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_node_references(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_node_references(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_node_references(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_node_references(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_node_references(self~Delay.0.meta.comment, p1)
    self is Delay
visit_node_references(self~Delay.0.meta.tags, p1)
    self is Delay
visit_node_references(self~Delay.0.metric, p1)
    self is Delay
visit_node_references(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_node_references(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_node_references(self~DelayIndex.0.metric, p1)
    self is DelayIndex
visit_node_references(self~DiscountFactor.0.discount_rate, p1)
    self is DiscountFactor
visit_node_references(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_node_references(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_node_references(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_node_references(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_node_references(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_node_references(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_node_references(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_node_references(self~Division.0.denominator, p1)
    self is Division
visit_node_references(self~Division.0.meta.comment, p1)
    self is Division
visit_node_references(self~Division.0.meta.tags, p1)
    self is Division
visit_node_references(self~Division.0.numerator, p1)
    self is Division
visit_node_references(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_node_references(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_node_references(self~IndexedArray.0.index_parameter, p1)
    self is IndexedArray
visit_node_references(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_node_references(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_node_references(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_node_references(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_node_references(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_node_references(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_node_references(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_node_references(self~Interpolated.0.x, p1)
    self is Interpolated
visit_node_references(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_node_references(self~Max.0.meta.comment, p1)
    self is Max
visit_node_references(self~Max.0.meta.tags, p1)
    self is Max
visit_node_references(self~Max.0.parameter, p1)
    self is Max
visit_node_references(self~Max.0.threshold, p1)
    self is Max
visit_node_references(self~Min.0.meta.comment, p1)
    self is Min
visit_node_references(self~Min.0.meta.tags, p1)
    self is Min
visit_node_references(self~Min.0.parameter, p1)
    self is Min
visit_node_references(self~Min.0.threshold, p1)
    self is Min
visit_node_references(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_node_references(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_node_references(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_node_references(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_node_references(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_node_references(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_node_references(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_node_references(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_node_references(self~MultiThreshold.0.metric, p1)
    self is MultiThreshold
visit_node_references(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_node_references(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_node_references(self~Negative.0.meta.comment, p1)
    self is Negative
visit_node_references(self~Negative.0.meta.tags, p1)
    self is Negative
visit_node_references(self~Negative.0.parameter, p1)
    self is Negative
visit_node_references(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_node_references(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_node_references(self~NegativeMax.0.metric, p1)
    self is NegativeMax
visit_node_references(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_node_references(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_node_references(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_node_references(self~NegativeMin.0.metric, p1)
    self is NegativeMin
visit_node_references(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_node_references(self~Offset.0.meta.comment, p1)
    self is Offset
visit_node_references(self~Offset.0.meta.tags, p1)
    self is Offset
visit_node_references(self~Offset.0.metric, p1)
    self is Offset
visit_node_references(self~Offset.0.offset, p1)
    self is Offset
visit_node_references(self~Offset.0.variable, p1)
    self is Offset
visit_node_references(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_node_references(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_node_references(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_node_references(self~Polynomial1D.0.metric, p1)
    self is Polynomial1D
visit_node_references(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_node_references(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_node_references(self~Python.0, p1)
    self is Python
visit_node_references(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_node_references(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_node_references(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_node_references(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_node_references(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_node_references(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_node_references(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_node_references(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_node_references(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_node_references(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_node_references(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_node_references(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_node_references(self~Rolling.0.metric, p1)
    self is Rolling
visit_node_references(self~Rolling.0.min_values, p1)
    self is Rolling
visit_node_references(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_node_references(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_node_references(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_node_references(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_node_references(self~RollingIndex.0.metric, p1)
    self is RollingIndex
visit_node_references(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_node_references(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_node_references(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_node_references(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_node_references(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_node_references(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_node_references(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_node_references(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_node_references(self~Threshold.0.metric, p1)
    self is Threshold
visit_node_references(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_node_references(self~Threshold.0.threshold, p1)
    self is Threshold
visit_node_references(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_node_references(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_node_references(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_node_references(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_node_references(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_node_references(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_node_references(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_node_references(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_node_references(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_node_references(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_node_references(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <Parameter as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Aggregated.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Aggregated; self~Aggregated.0.agg_func is AnyNonZero
visit_node_references_mut(self~Aggregated.0.agg_func~Python.0.args, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_node_references_mut(self~Aggregated.0.agg_func~Python.0.kwargs, p1)
    self is Aggregated; self~Aggregated.0.agg_func is Python
visit_node_references_mut(self~Aggregated.0.meta.comment, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.meta.tags, p1)
    self is Aggregated
visit_node_references_mut(self~Aggregated.0.metrics, p1)
    self is Aggregated
visit_node_references_mut(self~AggregatedIndex.0.agg_func~Python.0.args, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_node_references_mut(self~AggregatedIndex.0.agg_func~Python.0.kwargs, p1)
    self is AggregatedIndex; self~AggregatedIndex.0.agg_func is Python
visit_node_references_mut(self~AggregatedIndex.0.meta.comment, p1)
    self is AggregatedIndex
visit_node_references_mut(self~AggregatedIndex.0.meta.tags, p1)
    self is AggregatedIndex
visit_node_references_mut(self~AggregatedIndex.0.metrics, p1)
    self is AggregatedIndex
visit_node_references_mut(self~AsymmetricSwitchIndex.0.meta.comment, p1)
    self is AsymmetricSwitchIndex
visit_node_references_mut(self~AsymmetricSwitchIndex.0.meta.tags, p1)
    self is AsymmetricSwitchIndex
visit_node_references_mut(self~AsymmetricSwitchIndex.0.off_index_parameter, p1)
    self is AsymmetricSwitchIndex
visit_node_references_mut(self~AsymmetricSwitchIndex.0.on_index_parameter, p1)
    self is AsymmetricSwitchIndex
visit_node_references_mut(self~Constant.0.meta.comment, p1)
    self is Constant
visit_node_references_mut(self~Constant.0.meta.tags, p1)
    self is Constant
visit_node_references_mut(self~Constant.0.value, p1)
    self is Constant
visit_node_references_mut(self~Constant.0.variable, p1)
    self is Constant
visit_node_references_mut(self~ConstantScenario.0.meta.comment, p1)
    self is ConstantScenario
visit_node_references_mut(self~ConstantScenario.0.meta.tags, p1)
    self is ConstantScenario
visit_node_references_mut(self~ConstantScenario.0.values~Literal.values, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Literal
visit_node_references_mut(self~ConstantScenario.0.values~Table.0.column, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_node_references_mut(self~ConstantScenario.0.values~Table.0.row, p1)
    self is ConstantScenario; self~ConstantScenario.0.values is Table
visit_node_references_mut(self~ControlCurve.0.control_curves, p1)
    self is ControlCurve
visit_node_references_mut(self~ControlCurve.0.meta.comment, p1)
    self is ControlCurve
visit_node_references_mut(self~ControlCurve.0.meta.tags, p1)
    self is ControlCurve
visit_node_references_mut(self~ControlCurve.0.storage_metric, p1)
    self is ControlCurve
visit_node_references_mut(self~ControlCurve.0.values, p1)
    self is ControlCurve
visit_node_references_mut(self~ControlCurveIndex.0.control_curves, p1)
    self is ControlCurveIndex
visit_node_references_mut(self~ControlCurveIndex.0.meta.comment, p1)
    self is ControlCurveIndex
visit_node_references_mut(self~ControlCurveIndex.0.meta.tags, p1)
    self is ControlCurveIndex
visit_node_references_mut(self~ControlCurveIndex.0.storage_metric, p1)
    self is ControlCurveIndex
visit_node_references_mut(self~ControlCurveInterpolated.0.control_curves, p1)
    self is ControlCurveInterpolated
visit_node_references_mut(self~ControlCurveInterpolated.0.meta.comment, p1)
    self is ControlCurveInterpolated
visit_node_references_mut(self~ControlCurveInterpolated.0.meta.tags, p1)
    self is ControlCurveInterpolated
visit_node_references_mut(self~ControlCurveInterpolated.0.storage_metric, p1)
    self is ControlCurveInterpolated
visit_node_references_mut(self~ControlCurveInterpolated.0.values, p1)
    self is ControlCurveInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.control_curves, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.maximum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.meta.comment, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.meta.tags, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.minimum, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.storage_metric, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~ControlCurvePiecewiseInterpolated.0.values, p1)
    self is ControlCurvePiecewiseInterpolated
visit_node_references_mut(self~DailyProfile.0.meta.comment, p1)
    self is DailyProfile
visit_node_references_mut(self~DailyProfile.0.meta.tags, p1)
    self is DailyProfile
visit_node_references_mut(self~DailyProfile.0.values~Literal.values, p1)
    self is DailyProfile; self~DailyProfile.0.values is Literal
visit_node_references_mut(self~DailyProfile.0.values~Table.0.column, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_node_references_mut(self~DailyProfile.0.values~Table.0.row, p1)
    self is DailyProfile; self~DailyProfile.0.values is Table
visit_node_references_mut(self~Delay.0.meta.comment, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.meta.tags, p1)
    self is Delay
visit_node_references_mut(self~Delay.0.metric, p1)
    self is Delay
visit_node_references_mut(self~DelayIndex.0.meta.comment, p1)
    self is DelayIndex
visit_node_references_mut(self~DelayIndex.0.meta.tags, p1)
    self is DelayIndex
visit_node_references_mut(self~DelayIndex.0.metric, p1)
    self is DelayIndex
visit_node_references_mut(self~DiscountFactor.0.discount_rate, p1)
    self is DiscountFactor
visit_node_references_mut(self~DiscountFactor.0.meta.comment, p1)
    self is DiscountFactor
visit_node_references_mut(self~DiscountFactor.0.meta.tags, p1)
    self is DiscountFactor
visit_node_references_mut(self~DiurnalProfile.0.meta.comment, p1)
    self is DiurnalProfile
visit_node_references_mut(self~DiurnalProfile.0.meta.tags, p1)
    self is DiurnalProfile
visit_node_references_mut(self~DiurnalProfile.0.values~Literal.values, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Literal
visit_node_references_mut(self~DiurnalProfile.0.values~Table.0.column, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_node_references_mut(self~DiurnalProfile.0.values~Table.0.row, p1)
    self is DiurnalProfile; self~DiurnalProfile.0.values is Table
visit_node_references_mut(self~Division.0.denominator, p1)
    self is Division
visit_node_references_mut(self~Division.0.meta.comment, p1)
    self is Division
visit_node_references_mut(self~Division.0.meta.tags, p1)
    self is Division
visit_node_references_mut(self~Division.0.numerator, p1)
    self is Division
visit_node_references_mut(self~HydropowerTarget.0.actual_flow, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.efficiency, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.energy_unit_conversion, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.flow_unit_conversion, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.max_flow, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.meta.comment, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.meta.tags, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.min_flow, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.min_head, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.target, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.turbine_elevation, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.water_density, p1)
    self is HydropowerTarget
visit_node_references_mut(self~HydropowerTarget.0.water_elevation, p1)
    self is HydropowerTarget
visit_node_references_mut(self~IndexedArray.0.index_parameter, p1)
    self is IndexedArray
visit_node_references_mut(self~IndexedArray.0.meta.comment, p1)
    self is IndexedArray
visit_node_references_mut(self~IndexedArray.0.meta.tags, p1)
    self is IndexedArray
visit_node_references_mut(self~IndexedArray.0.metrics, p1)
    self is IndexedArray
visit_node_references_mut(self~Interpolated.0.error_on_bounds, p1)
    self is Interpolated
visit_node_references_mut(self~Interpolated.0.fp, p1)
    self is Interpolated
visit_node_references_mut(self~Interpolated.0.meta.comment, p1)
    self is Interpolated
visit_node_references_mut(self~Interpolated.0.meta.tags, p1)
    self is Interpolated
visit_node_references_mut(self~Interpolated.0.x, p1)
    self is Interpolated
visit_node_references_mut(self~Interpolated.0.xp, p1)
    self is Interpolated
visit_node_references_mut(self~Max.0.meta.comment, p1)
    self is Max
visit_node_references_mut(self~Max.0.meta.tags, p1)
    self is Max
visit_node_references_mut(self~Max.0.parameter, p1)
    self is Max
visit_node_references_mut(self~Max.0.threshold, p1)
    self is Max
visit_node_references_mut(self~Min.0.meta.comment, p1)
    self is Min
visit_node_references_mut(self~Min.0.meta.tags, p1)
    self is Min
visit_node_references_mut(self~Min.0.parameter, p1)
    self is Min
visit_node_references_mut(self~Min.0.threshold, p1)
    self is Min
visit_node_references_mut(self~MonthlyProfile.0.interp_day, p1)
    self is MonthlyProfile
visit_node_references_mut(self~MonthlyProfile.0.meta.comment, p1)
    self is MonthlyProfile
visit_node_references_mut(self~MonthlyProfile.0.meta.tags, p1)
    self is MonthlyProfile
visit_node_references_mut(self~MonthlyProfile.0.values~Literal.values, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Literal
visit_node_references_mut(self~MonthlyProfile.0.values~Table.0.column, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_node_references_mut(self~MonthlyProfile.0.values~Table.0.row, p1)
    self is MonthlyProfile; self~MonthlyProfile.0.values is Table
visit_node_references_mut(self~MultiThreshold.0.meta.comment, p1)
    self is MultiThreshold
visit_node_references_mut(self~MultiThreshold.0.meta.tags, p1)
    self is MultiThreshold
visit_node_references_mut(self~MultiThreshold.0.metric, p1)
    self is MultiThreshold
visit_node_references_mut(self~MultiThreshold.0.returned_metrics, p1)
    self is MultiThreshold
visit_node_references_mut(self~MultiThreshold.0.thresholds, p1)
    self is MultiThreshold
visit_node_references_mut(self~Negative.0.meta.comment, p1)
    self is Negative
visit_node_references_mut(self~Negative.0.meta.tags, p1)
    self is Negative
visit_node_references_mut(self~Negative.0.parameter, p1)
    self is Negative
visit_node_references_mut(self~NegativeMax.0.meta.comment, p1)
    self is NegativeMax
visit_node_references_mut(self~NegativeMax.0.meta.tags, p1)
    self is NegativeMax
visit_node_references_mut(self~NegativeMax.0.metric, p1)
    self is NegativeMax
visit_node_references_mut(self~NegativeMax.0.threshold, p1)
    self is NegativeMax
visit_node_references_mut(self~NegativeMin.0.meta.comment, p1)
    self is NegativeMin
visit_node_references_mut(self~NegativeMin.0.meta.tags, p1)
    self is NegativeMin
visit_node_references_mut(self~NegativeMin.0.metric, p1)
    self is NegativeMin
visit_node_references_mut(self~NegativeMin.0.threshold, p1)
    self is NegativeMin
visit_node_references_mut(self~Offset.0.meta.comment, p1)
    self is Offset
visit_node_references_mut(self~Offset.0.meta.tags, p1)
    self is Offset
visit_node_references_mut(self~Offset.0.metric, p1)
    self is Offset
visit_node_references_mut(self~Offset.0.offset, p1)
    self is Offset
visit_node_references_mut(self~Offset.0.variable, p1)
    self is Offset
visit_node_references_mut(self~Placeholder.0.meta.comment, p1)
    self is Placeholder
visit_node_references_mut(self~Placeholder.0.meta.tags, p1)
    self is Placeholder
visit_node_references_mut(self~Polynomial1D.0.coefficients, p1)
    self is Polynomial1D
visit_node_references_mut(self~Polynomial1D.0.meta.comment, p1)
    self is Polynomial1D
visit_node_references_mut(self~Polynomial1D.0.meta.tags, p1)
    self is Polynomial1D
visit_node_references_mut(self~Polynomial1D.0.metric, p1)
    self is Polynomial1D
visit_node_references_mut(self~Polynomial1D.0.offset, p1)
    self is Polynomial1D
visit_node_references_mut(self~Polynomial1D.0.scale, p1)
    self is Polynomial1D
visit_node_references_mut(self~Python.0, p1)
    self is Python
visit_node_references_mut(self~RbfProfile.0.function~Gaussian.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is Gaussian
visit_node_references_mut(self~RbfProfile.0.function~InverseMultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is InverseMultiQuadric
visit_node_references_mut(self~RbfProfile.0.function~MultiQuadric.epsilon, p1)
    self is RbfProfile; self~RbfProfile.0.function is MultiQuadric
visit_node_references_mut(self~RbfProfile.0.meta.comment, p1)
    self is RbfProfile
visit_node_references_mut(self~RbfProfile.0.meta.tags, p1)
    self is RbfProfile
visit_node_references_mut(self~RbfProfile.0.points, p1)
    self is RbfProfile
visit_node_references_mut(self~RbfProfile.0.variable, p1)
    self is RbfProfile
visit_node_references_mut(self~Rolling.0.agg_func~AnyNonZero.0.tolerance, p1)
    self is Rolling; self~Rolling.0.agg_func is AnyNonZero
visit_node_references_mut(self~Rolling.0.agg_func~Python.0.args, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_node_references_mut(self~Rolling.0.agg_func~Python.0.kwargs, p1)
    self is Rolling; self~Rolling.0.agg_func is Python
visit_node_references_mut(self~Rolling.0.meta.comment, p1)
    self is Rolling
visit_node_references_mut(self~Rolling.0.meta.tags, p1)
    self is Rolling
visit_node_references_mut(self~Rolling.0.metric, p1)
    self is Rolling
visit_node_references_mut(self~Rolling.0.min_values, p1)
    self is Rolling
visit_node_references_mut(self~RollingIndex.0.agg_func~Python.0.args, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_node_references_mut(self~RollingIndex.0.agg_func~Python.0.kwargs, p1)
    self is RollingIndex; self~RollingIndex.0.agg_func is Python
visit_node_references_mut(self~RollingIndex.0.meta.comment, p1)
    self is RollingIndex
visit_node_references_mut(self~RollingIndex.0.meta.tags, p1)
    self is RollingIndex
visit_node_references_mut(self~RollingIndex.0.metric, p1)
    self is RollingIndex
visit_node_references_mut(self~RollingIndex.0.min_values, p1)
    self is RollingIndex
visit_node_references_mut(self~TablesArray.0.checksum, p1)
    self is TablesArray
visit_node_references_mut(self~TablesArray.0.meta.comment, p1)
    self is TablesArray
visit_node_references_mut(self~TablesArray.0.meta.tags, p1)
    self is TablesArray
visit_node_references_mut(self~TablesArray.0.scenario, p1)
    self is TablesArray
visit_node_references_mut(self~TablesArray.0.timestep_offset, p1)
    self is TablesArray
visit_node_references_mut(self~Threshold.0.meta.comment, p1)
    self is Threshold
visit_node_references_mut(self~Threshold.0.meta.tags, p1)
    self is Threshold
visit_node_references_mut(self~Threshold.0.metric, p1)
    self is Threshold
visit_node_references_mut(self~Threshold.0.returned_metrics, p1)
    self is Threshold
visit_node_references_mut(self~Threshold.0.threshold, p1)
    self is Threshold
visit_node_references_mut(self~UniformDrawdownProfile.0.meta.comment, p1)
    self is UniformDrawdownProfile
visit_node_references_mut(self~UniformDrawdownProfile.0.meta.tags, p1)
    self is UniformDrawdownProfile
visit_node_references_mut(self~UniformDrawdownProfile.0.reset_day, p1)
    self is UniformDrawdownProfile
visit_node_references_mut(self~UniformDrawdownProfile.0.reset_month, p1)
    self is UniformDrawdownProfile
visit_node_references_mut(self~UniformDrawdownProfile.0.residual_days, p1)
    self is UniformDrawdownProfile
visit_node_references_mut(self~WeeklyProfile.0.interp_day, p1)
    self is WeeklyProfile
visit_node_references_mut(self~WeeklyProfile.0.meta.comment, p1)
    self is WeeklyProfile
visit_node_references_mut(self~WeeklyProfile.0.meta.tags, p1)
    self is WeeklyProfile
visit_node_references_mut(self~WeeklyProfile.0.values~Literal.values, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Literal
visit_node_references_mut(self~WeeklyProfile.0.values~Table.0.column, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
visit_node_references_mut(self~WeeklyProfile.0.values~Table.0.row, p1)
    self is WeeklyProfile; self~WeeklyProfile.0.values is Table
## <ConstantValue<T> as VisitMetrics>::visit_metrics
visit_metrics(self~Literal.value, p1)
    self is Literal
visit_metrics(self~Table.0.column, p1)
    self is Table
visit_metrics(self~Table.0.row, p1)
    self is Table
## <ConstantValue<T> as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self~Literal.value, p1)
    self is Literal
visit_metrics_mut(self~Table.0.column, p1)
    self is Table
visit_metrics_mut(self~Table.0.row, p1)
    self is Table
## <ConstantValue<T> as VisitPaths>::visit_paths
visit_paths(self~Literal.value, p1)
    self is Literal
visit_paths(self~Table.0.column, p1)
    self is Table
visit_paths(self~Table.0.row, p1)
    self is Table
## <ConstantValue<T> as VisitPaths>::visit_paths_mut
visit_paths_mut(self~Literal.value, p1)
    self is Literal
visit_paths_mut(self~Table.0.column, p1)
    self is Table
visit_paths_mut(self~Table.0.row, p1)
    self is Table
## <ConstantValue<T> as VisitNodeReferences>::visit_node_references
visit_node_references(self~Literal.value, p1)
    self is Literal
visit_node_references(self~Table.0.column, p1)
    self is Table
visit_node_references(self~Table.0.row, p1)
    self is Table
## <ConstantValue<T> as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Literal.value, p1)
    self is Literal
visit_node_references_mut(self~Table.0.column, p1)
    self is Table
visit_node_references_mut(self~Table.0.row, p1)
    self is Table
## <PandasTimeseries as VisitPaths>::visit_paths
call(p1, self.url)
## <PandasTimeseries as VisitPaths>::visit_paths_mut
call(p1, self.url)
## <PolarsTimeseries as VisitPaths>::visit_paths
call(p1, self.url)
## <PolarsTimeseries as VisitPaths>::visit_paths_mut
call(p1, self.url)
## <Timeseries as VisitPaths>::visit_paths
visit_paths(self~Pandas.0, p1)
    self is Pandas
visit_paths(self~Polars.0, p1)
    self is Polars
## <Timeseries as VisitPaths>::visit_paths_mut
visit_paths_mut(self~Pandas.0, p1)
    self is Pandas
visit_paths_mut(self~Polars.0, p1)
    self is Polars
## VisitMetrics::visit_metrics

## VisitMetrics::visit_metrics_mut

## <Metric as VisitMetrics>::visit_metrics
call(p1, self)
## <Metric as VisitMetrics>::visit_metrics_mut
call(p1, self)
## <IndexMetric as VisitMetrics>::visit_metrics

## <IndexMetric as VisitMetrics>::visit_metrics_mut

## <Option<T> as VisitMetrics>::visit_metrics
visit_metrics(self, p1)
    self is Some
## <Option<T> as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self, p1)
    self is Some
## <Vec<T> as VisitMetrics>::visit_metrics
visit_metrics(elem(self), p1)
## <Vec<T> as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(elem(self), p1)
## <(A, B) as VisitMetrics>::visit_metrics
visit_metrics(self.0, p1)
visit_metrics(self.1, p1)
## <(A, B) as VisitMetrics>::visit_metrics_mut
visit_metrics_mut(self.0, p1)
visit_metrics_mut(self.1, p1)
## <HashMap<K, V> as VisitMetrics>::visit_metrics
visit_metrics(elem(self), p1)
    for each(values(self))
## <HashMap<K, V> as VisitMetrics>::visit_metrics_mut
values_mut(self)
visit_metrics_mut(elem(self), p1)
    for each(values_mut(self))
## VisitPaths::visit_paths

## VisitPaths::visit_paths_mut

## <Option<T> as VisitPaths>::visit_paths
visit_paths(self, p1)
    self is Some
## <Option<T> as VisitPaths>::visit_paths_mut
visit_paths_mut(self, p1)
    self is Some
## <Vec<T> as VisitPaths>::visit_paths
visit_paths(elem(self), p1)
## <Vec<T> as VisitPaths>::visit_paths_mut
visit_paths_mut(elem(self), p1)
## <HashMap<K, V> as VisitPaths>::visit_paths
visit_paths(elem(self), p1)
    for each(values(self))
## <HashMap<K, V> as VisitPaths>::visit_paths_mut
values_mut(self)
visit_paths_mut(elem(self), p1)
    for each(values_mut(self))
## <(A, B) as VisitPaths>::visit_paths
visit_paths(self.0, p1)
visit_paths(self.1, p1)
## <(A, B) as VisitPaths>::visit_paths_mut
visit_paths_mut(self.0, p1)
visit_paths_mut(self.1, p1)
## <PathBuf as VisitPaths>::visit_paths
call(p1, self)
## <PathBuf as VisitPaths>::visit_paths_mut
call(p1, self)
## VisitNodeReferences::visit_node_references

## VisitNodeReferences::visit_node_references_mut

## <Metric as VisitNodeReferences>::visit_node_references
visit_node_references(self~Edge.0, p1)
    self is Edge
visit_node_references(self~Node.0, p1)
    self is Node
visit_node_references(self~VirtualNode.0, p1)
    self is VirtualNode
## <Metric as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Edge.0, p1)
    self is Edge
visit_node_references_mut(self~Node.0, p1)
    self is Node
visit_node_references_mut(self~VirtualNode.0, p1)
    self is VirtualNode
## <IndexMetric as VisitNodeReferences>::visit_node_references
visit_node_references(self~Node.0, p1)
    self is Node
## <IndexMetric as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self~Node.0, p1)
    self is Node
## <Option<T> as VisitNodeReferences>::visit_node_references
visit_node_references(self, p1)
    self is Some
## <Option<T> as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self, p1)
    self is Some
## <Vec<T> as VisitNodeReferences>::visit_node_references
visit_node_references(elem(self), p1)
## <Vec<T> as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(elem(self), p1)
## <HashMap<K, V> as VisitNodeReferences>::visit_node_references
visit_node_references(elem(self), p1)
    for each(values(self))
## <HashMap<K, V> as VisitNodeReferences>::visit_node_references_mut
values_mut(self)
visit_node_references_mut(elem(self), p1)
    for each(values_mut(self))
## <(A, B) as VisitNodeReferences>::visit_node_references
visit_node_references(self.0, p1)
visit_node_references(self.1, p1)
## <(A, B) as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(self.0, p1)
visit_node_references_mut(self.1, p1)
## <[Metric; N] as VisitNodeReferences>::visit_node_references
visit_node_references(elem(self), p1)
## <[Metric; N] as VisitNodeReferences>::visit_node_references_mut
visit_node_references_mut(elem(self), p1)
