S="pywr-core/src/state/mod.rs"; G="pywr-core/src/state/storage.rs"
ALL="-C04,C05,C30,C29,C36,C01,C02,C26"
M=[
("r4-addflow-okor",ALL,S,"""        match self.node_states.get_mut(*from_node_index) {
            Some(s) => s.add_out_flow(flow, timestep),
            None => return Err(NetworkStateError::NodeIndexNotFound(from_node_index)),
        };
""","""        self.node_states
            .get_mut(*from_node_index)
            .ok_or(NetworkStateError::NodeIndexNotFound(from_node_index))?
            .add_out_flow(flow, timestep);
"""),
("r4-addflow-helper",ALL,S,"""    pub fn add_flow(&mut self, edge: &Edge, timestep: &Timestep, flow: f64) -> Result<(), NetworkStateError> {
        let from_node_index = edge.from_node_index();
        match self.node_states.get_mut(*from_node_index) {
            Some(s) => s.add_out_flow(flow, timestep),
            None => return Err(NetworkStateError::NodeIndexNotFound(from_node_index)),
        };

        let to_node_index = edge.to_node_index();
        match self.node_states.get_mut(*to_node_index) {
            Some(s) => s.add_in_flow(flow, timestep),
            None => return Err(NetworkStateError::NodeIndexNotFound(to_node_index)),
        };
""","""    fn node_state_mut(&mut self, idx: NodeIndex) -> Result<&mut NodeState, NetworkStateError> {
        match self.node_states.get_mut(*idx) {
            Some(s) => Ok(s),
            None => Err(NetworkStateError::NodeIndexNotFound(idx)),
        }
    }

    pub fn add_flow(&mut self, edge: &Edge, timestep: &Timestep, flow: f64) -> Result<(), NetworkStateError> {
        let (from, to) = (edge.from_node_index(), edge.to_node_index());
        self.node_state_mut(from)?.add_out_flow(flow, timestep);
        self.node_state_mut(to)?.add_in_flow(flow, timestep);
"""),
("r4-derived-continue",ALL,S,"""            if node.is_active(timestep) {
                let flow = node
                    .iter_nodes_with_factors()
                    .map(|(idx, factor)| match self.node_states.get(*idx.deref()) {
                        None => Err(NetworkStateError::NodeIndexNotFound(*idx)),
                        Some(s) => {
                            let node = model
                                .nodes()
                                .get(*idx.deref())
                                .ok_or(NetworkStateError::NodeIndexNotFound(*idx))?;
                            match node {
                                Node::Input(_) => Ok(factor * s.get_out_flow()),
                                Node::Output(_) => Ok(factor * s.get_in_flow()),
                                Node::Link(_) => Ok(factor * s.get_in_flow()),
                                Node::Storage(_) => panic!("Storage node not supported on virtual storage."),
                            }
                        }
                    })
                    .sum::<Result<f64, _>>()?;

                state.add_out_flow(flow, timestep);
            }
""","""            if !node.is_active(timestep) {
                continue;
            }
            let mut flow = 0.0;
            for (idx, factor) in node.iter_nodes_with_factors() {
                let s = self
                    .node_states
                    .get(*idx.deref())
                    .ok_or(NetworkStateError::NodeIndexNotFound(*idx))?;
                let node = model
                    .nodes()
                    .get(*idx.deref())
                    .ok_or(NetworkStateError::NodeIndexNotFound(*idx))?;
                let node_flow = match node {
                    Node::Input(_) => s.get_out_flow(),
                    Node::Output(_) | Node::Link(_) => s.get_in_flow(),
                    Node::Storage(_) => panic!("Storage node not supported on virtual storage."),
                };
                flow += factor * node_flow;
            }

            state.add_out_flow(flow, timestep);
"""),
("r4-derived-helper",ALL,S,"""                            match node {
                                Node::Input(_) => Ok(factor * s.get_out_flow()),
                                Node::Output(_) => Ok(factor * s.get_in_flow()),
                                Node::Link(_) => Ok(factor * s.get_in_flow()),
                                Node::Storage(_) => panic!("Storage node not supported on virtual storage."),
                            }
""","""                            let f = match node {
                                Node::Input(_) => s.get_out_flow(),
                                Node::Output(_) | Node::Link(_) => s.get_in_flow(),
                                Node::Storage(_) => panic!("Storage node not supported on virtual storage."),
                            };
                            Ok(factor * f)
"""),
("r4-finvol-letelse",ALL,S,"""        match self.node_states.get_mut(*node_index.deref()) {
            Some(s) => {
                s.finalise_volume(min_volume, max_volume);
                Ok(())
            }
            None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
        }
""","""        let Some(s) = self.node_states.get_mut(*node_index.deref()) else {
            return Err(NetworkStateError::NodeIndexNotFound(*node_index));
        };
        s.finalise_volume(min_volume, max_volume);
        Ok(())
"""),
("r4-getvol-flat",ALL,S,"""        match self.node_states.get(*node_index.deref()) {
            Some(s) => match s {
                NodeState::Storage(ss) => Ok(ss.volume()),
                NodeState::Flow(_) => Err(NetworkStateError::NodeHasNoVolume(*node_index)),
            },
            None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
        }
""","""        match self.node_states.get(*node_index.deref()) {
            Some(NodeState::Storage(ss)) => Ok(ss.volume()),
            Some(_) => Err(NetworkStateError::NodeHasNoVolume(*node_index)),
            None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
        }
"""),
("r4-getvol-helper",ALL,S,"""    pub fn get_node_volume(&self, node_index: &NodeIndex) -> Result<f64, NetworkStateError> {
        match self.node_states.get(*node_index.deref()) {
            Some(s) => match s {
                NodeState::Storage(ss) => Ok(ss.volume()),
                NodeState::Flow(_) => Err(NetworkStateError::NodeHasNoVolume(*node_index)),
            },
            None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
        }
    }
""","""    fn storage_state(&self, node_index: &NodeIndex) -> Result<&StorageState, NetworkStateError> {
        let state = self
            .node_states
            .get(*node_index.deref())
            .ok_or(NetworkStateError::NodeIndexNotFound(*node_index))?;
        match state {
            NodeState::Storage(ss) => Ok(ss),
            NodeState::Flow(_) => Err(NetworkStateError::NodeHasNoVolume(*node_index)),
        }
    }

    pub fn get_node_volume(&self, node_index: &NodeIndex) -> Result<f64, NetworkStateError> {
        self.storage_state(node_index).map(|ss| ss.volume())
    }
"""),
("r4-inflow-map",ALL,S,"""        match self.node_states.get(*node_index.deref()) {
            Some(s) => Ok(s.get_in_flow()),
            None => Err(NetworkStateError::NodeIndexNotFound(*node_index)),
        }
""","""        self.node_states
            .get(*node_index.deref())
            .map(|s| s.get_in_flow())
            .ok_or(NetworkStateError::NodeIndexNotFound(*node_index))
"""),
("r4-setgen-order",ALL,S,"""        let v = self
            .parameters_general_before
            .get_value_mut(*idx)
            .ok_or(SetStateError::IndexNotFound(idx))?;

        if value.is_nan() {
            return Err(SetStateError::NaNValue(idx));
        }

        *v = value;

        Ok(())
    }

    /// Set the "after" value of a general parameter.""","""        match self.parameters_general_before.get_value_mut(*idx) {
            None => Err(SetStateError::IndexNotFound(idx)),
            Some(_) if value.is_nan() => Err(SetStateError::NaNValue(idx)),
            Some(v) => {
                *v = value;
                Ok(())
            }
        }
    }

    /// Set the "after" value of a general parameter."""),
("r4-setgen-replace",ALL,S,"""        if value.is_nan() {
            return Err(SetStateError::NaNValue(idx));
        }

        *v = value;

        Ok(())
    }

    pub fn set_simple_parameter_f64(""","""        if !value.is_nan() {
            *v = value;
            Ok(())
        } else {
            Err(SetStateError::NaNValue(idx))
        }
    }

    pub fn set_simple_parameter_f64("""),
("r4-set-helper",ALL,S,"""        let v = self
            .parameters_simple
            .get_value_mut(*idx)
            .ok_or(SetStateError::IndexNotFound(idx))?;

        if value.is_nan() {
            return Err(SetStateError::NaNValue(idx));
        }

        *v = value;

        Ok(())
    }

    pub fn set_const_parameter_f64(""","""        let v = self
            .parameters_simple
            .get_value_mut(*idx)
            .ok_or(SetStateError::IndexNotFound(idx))?;
        Self::checked_store(v, value, idx)
    }

    /// Store a value after checking that it is a number.
    fn checked_store<I: std::fmt::Display + std::fmt::Debug>(slot: &mut f64, value: f64, idx: I) -> Result<(), SetStateError<I>>
    {
        if value.is_nan() {
            return Err(SetStateError::NaNValue(idx));
        }
        *slot = value;
        Ok(())
    }

    pub fn set_const_parameter_f64("""),
("r4-complete-filter",ALL,S,"""        for node in model.nodes().iter() {
            if let Node::Storage(storage) = node {
                let node_index = node.index();
                let min_volume = storage.get_min_volume(self)?;
                let max_volume = storage.get_max_volume(self)?;

                self.network.finalise_node_volume(&node_index, min_volume, max_volume)?;
            }
        }
""","""        for node in model.nodes().iter() {
            let Node::Storage(storage) = node else { continue };
            let max_volume = storage.get_max_volume(self)?;
            let min_volume = storage.get_min_volume(self)?;
            self.network
                .finalise_node_volume(&node.index(), min_volume, max_volume)?;
        }
"""),
("r4-complete-try",ALL,S,"""        for node in model.virtual_storage_nodes().iter() {
            let node_index = node.index();
            let min_volume = node.get_min_volume(self)?;
            let max_volume = node.get_max_volume(self)?;
            self.network
                .finalise_virtual_storage_node_volume(&node_index, min_volume, max_volume)?;
        }

        Ok(())
""","""        self.finalise_virtual_storages(model)
    }

    fn finalise_virtual_storages(&mut self, model: &Network) -> Result<(), StateError> {
        model.virtual_storage_nodes().iter().try_for_each(|node| {
            let min_volume = node.get_min_volume(self)?;
            let max_volume = node.get_max_volume(self)?;
            self.network
                .finalise_virtual_storage_node_volume(&node.index(), min_volume, max_volume)?;
            Ok(())
        })
"""),
("r4-hist-pop",ALL,S,"""        if self.flows.len() >= self.size.get() {
            self.flows
                .pop_front()
                .expect("Size is non-zero therefore pop_front should succeed.")
        } else {
            0.0
        }
""","""        if self.flows.len() < self.size.get() {
            return 0.0;
        }
        self.flows
            .pop_front()
            .expect("Size is non-zero therefore pop_front should succeed.")
"""),
("r4-hist-reset",ALL,S,"""        self.flows = vec![initial_flow; self.size.get()].into();
""","""        let n = self.size.get();
        self.flows = VecDeque::from(vec![initial_flow; n]);
"""),
("r4-vs-new",ALL,S,"""        Self {
            last_reset: None,
            storage: StorageState::new(initial_volume, max_volume),
            history: history_size.map(|size| VirtualStorageHistory::new(size, initial_volume / size.get() as f64)),
        }
""","""        let history = match history_size {
            Some(size) => {
                let initial_flow = initial_volume / size.get() as f64;
                Some(VirtualStorageHistory::new(size, initial_flow))
            }
            None => None,
        };
        Self {
            last_reset: None,
            storage: StorageState::new(initial_volume, max_volume),
            history,
        }
"""),
("r4-vs-recover",ALL,S,"""        if let Some(history) = self.history.as_mut() {
            self.storage.add_in_flow(history.pop_flow(), timestep);
        }
""","""        let Some(history) = &mut self.history else { return };
        let recovered = history.pop_flow();
        self.storage.add_in_flow(recovered, timestep);
"""),
("r4-vs-addout",ALL,S,"""        self.storage.add_out_flow(flow, timestep);
        if let Some(history) = self.history.as_mut() {
            history.add_flow(flow);
        }
""","""        if let Some(ref mut history) = self.history {
            history.add_flow(flow);
        }
        self.storage.add_out_flow(flow, timestep);
"""),
("r4-clamp",ALL,G,"""        self.volume = self.volume.clamp(min_volume, max_volume);
""","""        if self.volume < min_volume {
            self.volume = min_volume;
        } else if self.volume > max_volume {
            self.volume = max_volume;
        }
"""),
("r4-clamp2",ALL,G,"""        self.volume = self.volume.clamp(min_volume, max_volume);
""","""        self.volume = self.volume.max(min_volume).min(max_volume);
"""),
("r4-clamp3",ALL,G,"""        if (self.volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE {
            panic!(
                "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
                self.volume, min_volume
            );
        }
        if (self.volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE {
            panic!(
                "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
                self.volume, max_volume,
            );
        }
""","""        let volume = self.volume;
        assert!(
            !((volume - min_volume) < -STORAGE_MASS_BALANCE_TOLERANCE),
            "Mass-balance error detected. Volume ({}) is smaller than minimum volume ({}).",
            volume,
            min_volume
        );
        assert!(
            !((volume - max_volume) > STORAGE_MASS_BALANCE_TOLERANCE),
            "Mass-balance error detected. Volume ({}) is greater than maximum volume ({}).",
            volume,
            max_volume
        );
"""),
("r4-propvol",ALL,G,"""        if self.max_volume.is_zero() {
            1.0
        } else {
            self.volume / self.max_volume
        }
""","""        if self.max_volume == 0.0 {
            return 1.0;
        }
        self.volume / self.max_volume
"""),
("r4-propvol2",ALL,G,"""        if self.max_volume.is_zero() {
            1.0
        } else {
            self.volume / self.max_volume
        }
""","""        match self.max_volume.is_zero() {
            true => 1.0,
            false => self.volume / self.max_volume,
        }
"""),
("r4-addin",ALL,G,"""        self.flows.add_in_flow(flow);
        self.volume += flow * timestep.days();
""","""        let volume_change = timestep.days() * flow;
        self.volume = self.volume + volume_change;
        self.flows.add_in_flow(flow);
"""),
("r4-hasnan",ALL,S,"""        self.values.values().any(|&v| v.is_nan())
""","""        for v in self.values.values() {
            if v.is_nan() {
                return true;
            }
        }
        false
"""),
("r4-multi",ALL,S,"""        mv.get_value(key)
            .ok_or_else(|| SimpleParameterValuesError::SimpleMultiValueParameterKeyNotFound {
                index: idx,
                key: key.to_string(),
            })
            .copied()
""","""        match mv.get_value(key) {
            Some(value) => Ok(*value),
            None => Err(SimpleParameterValuesError::SimpleMultiValueParameterKeyNotFound {
                index: idx,
                key: key.to_string(),
            }),
        }
"""),
("r4-transfer",ALL,S,"""        match self.inter_network_values.get_mut(*idx.deref()) {
            Some(s) => {
                *s = value;
                Ok(())
            }
            None => Err(StateError::MultiNetworkTransferIndexNotFound(idx)),
        }
""","""        let slot = self
            .inter_network_values
            .get_mut(*idx.deref())
            .ok_or(StateError::MultiNetworkTransferIndexNotFound(idx))?;
        *slot = value;
        Ok(())
"""),
("r4-transfer2",ALL,S,"""        match self.inter_network_values.get_mut(*idx.deref()) {
            Some(s) => {
                *s = value;
                Ok(())
            }
            None => Err(StateError::MultiNetworkTransferIndexNotFound(idx)),
        }
""","""        let i = *idx.deref();
        if i >= self.inter_network_values.len() {
            return Err(StateError::MultiNetworkTransferIndexNotFound(idx));
        }
        self.inter_network_values[i] = value;
        Ok(())
"""),
("r4-reset",ALL,S,"""        match self {
            Self::Flow(s) => s.reset(),
            Self::Storage(s) => s.reset(),
        }
    }

    fn add_in_flow""","""        if let Self::Flow(s) = self {
            s.reset();
        } else if let Self::Storage(s) = self {
            s.reset();
        }
    }

    fn add_in_flow"""),
("r4-finalise-match",ALL,S,"""        if let Self::Storage(s) = self {
            s.finalise(min_volume, max_volume)
        }
""","""        match self {
            Self::Storage(s) => s.finalise(min_volume, max_volume),
            Self::Flow(_) => {}
        }
"""),
]
