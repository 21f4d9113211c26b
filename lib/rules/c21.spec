## <MultiNetworkTransferIndex as Deref>::deref
return self.0
## MultiNetworkTransferBuilder::new
return MultiNetworkTransferBuilder{}
return.from_metric p2
return.from_model p1
return.initial_value none
return.name p0
## MultiNetworkTransferBuilder::initial_value
return self
self.initial_value := p1
## MultiNetworkEntryBuilder::new
return MultiNetworkEntryBuilder{}
return.name p0
return.network p1
return.transfers new()
## MultiNetworkEntryBuilder::network_builder
return self.network
## MultiNetworkEntryBuilder::transfer
push(self.transfers, p1)
return self
## MultiNetworkModel::compute_inter_network_transfers
compute_inter_network_transfers(ts, elem(p3), split_first(split_at(self.networks, p1).1).0.transfers, split_first_mut(split_at_mut(p4, p1).1).0, split_at(self.networks, p1).0, split_at_mut(p4, p1).0, split_first(split_at(self.networks, p1).1).1, split_first_mut(split_at_mut(p4, p1).1).1)
## MultiNetworkModelBuilder::new
return MultiNetworkModelBuilder{}
return.domain p0
return.networks new()
## MultiNetworkModelBuilder::entry_builder
leave loop early()
    Eq(elem(self.networks).name, p1)
return elem(self.networks)
    Eq(elem(self.networks).name, p1)
return none
    !Eq(elem(self.networks).name, p1)
## MultiNetworkModelBuilder::network
push(self.networks, p1)
return self
## MultiNetworkModelBuilder::build
[accepts]
    !contains_key(list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)})), elem(elem(self.networks).transfers).name); !contains_key(list((elem(self.networks).name, idx(self.networks))), elem(self.networks).name)
return MultiNetworkModel{}
return.domain self.domain
return.networks list
return.networks[] MultiNetworkEntry{name: elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).0, network: elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).1, transfers: list(MultiNetworkTransfer{from_metric: resolve(elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_metric, list(build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).1)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model]], After), from_model_idx: Before{0: new((len(itself()) -list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model]))}, initial_value: elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).initial_value} if cmp(list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model], len(itself())) is 255, MultiNetworkTransfer{from_metric: resolve(elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_metric, list(build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).1)[list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model]], After), from_model_idx: After{0: new((-len(itself()) +list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model]))}, initial_value: elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).initial_value} if cmp(list((elem(self.networks).name, idx(self.networks)))[elem(elem(list((elem(self.networks).name, build(elem(self.networks).network, self.domain, list((elem(elem(self.networks).transfers).name, MultiNetworkTransferIndex{0: idx(elem(self.networks).transfers)}))).0, elem(self.networks).transfers))).2).from_model], len(itself())) is 1)}
## multi::compute_inter_network_transfers
elem(netstate.states[scen.core.index].inter_network_values) := flatten(elem(p2).initial_value)
    flatten(elem(p2).initial_value) is Some; is_first(ts)
elem(netstate.states[scen.core.index].inter_network_values) := flatten(none)
    !is_first(ts); flatten(none) is Some
elem(netstate.states[scen.core.index].inter_network_values) := get_value(elem(p2).from_metric, p4[(-elem(p2).from_model_idx~Before.0 +len(p5))].network, p5[(-elem(p2).from_model_idx~Before.0 +len(p5))].states[scen.core.index])
    !is_first(ts); elem(p2).from_model_idx is Before; flatten(none) is None
    elem(p2).from_model_idx is Before; flatten(elem(p2).initial_value) is None; is_first(ts)
elem(netstate.states[scen.core.index].inter_network_values) := get_value(elem(p2).from_metric, p6[(elem(p2).from_model_idx~After.0 -1)].network, p7[(elem(p2).from_model_idx~After.0 -1)].states[scen.core.index])
    !is_first(ts); elem(p2).from_model_idx is After; flatten(none) is None
    elem(p2).from_model_idx is After; flatten(elem(p2).initial_value) is None; is_first(ts)
