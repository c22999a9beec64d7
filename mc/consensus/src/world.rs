//! Chains of one or more headers, and the rules of chain selection as the protocol's
//! specification words them.
use mina_consensus::common::ProtocolStateChain;
use mina_rs_base::consensus_state::*;
use mina_rs_base::global_slot::GlobalSlot;
use mina_rs_base::protocol_state::*;
use mina_rs_base::types::*;
use proof_systems::mina_hasher::Fp;
use std::sync::OnceLock;

/// The facts about the last block of a chain that selection depends on.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tip {
    pub length: u32,
    pub epoch: u32,
    pub slot: u32,
    pub per_epoch: u32,
    pub staking_lock: u8,
    pub next_lock: u8,
    pub min_density: u32,
    pub densities: Vec<u32>,
    pub vrf: Vec<u8>,
    pub hash: u64,
}

impl Default for Tip {
    fn default() -> Self {
        Tip { length: 100, epoch: 3, slot: 30_000, per_epoch: 7140, staking_lock: 1, next_lock: 2, min_density: 40, densities: vec![4; 11], vrf: vec![1, 2], hash: 5 }
    }
}

/// A header with a hash of our choosing.
#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub state: ConsensusState,
    pub constants: ProtocolConstants,
    pub hash: Fp,
}

impl ProtocolStateHeader for Head {
    fn get_height(&self) -> Length {
        self.state.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.state.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.state.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.state
    }
    fn constants(&self) -> &ProtocolConstants {
        &self.constants
    }
    fn state_hash_fp(&self) -> Fp {
        self.hash
    }
}

pub fn state(t: &Tip) -> ConsensusState {
    static D: OnceLock<ConsensusState> = OnceLock::new();
    let mut s = D.get_or_init(Default::default).clone();
    s.blockchain_length = Length(t.length);
    s.epoch_count = Length(t.epoch);
    s.curr_global_slot = GlobalSlot { slot_number: GlobalSlotNumber(t.slot), slots_per_epoch: Length(t.per_epoch) };
    s.staking_epoch_data.lock_checkpoint = [t.staking_lock; 32].into();
    s.next_epoch_data.lock_checkpoint = [t.next_lock; 32].into();
    s.min_window_density = Length(t.min_density);
    s.sub_window_densities = t.densities.iter().map(|d| Length(*d)).collect();
    s.last_vrf_output = VrfOutputTruncated(t.vrf.clone());
    s
}

pub fn head(t: &Tip) -> Head {
    Head { state: state(t), constants: Default::default(), hash: Fp::from(t.hash) }
}

pub type Chain = ProtocolStateChain<Head>;

/// Two blocks: one that must not matter, and the tip.
pub fn chain(t: &Tip) -> Chain {
    let mut below = t.clone();
    below.length = t.length.wrapping_sub(1);
    below.epoch = below.epoch.wrapping_add(7);
    below.vrf = vec![9; 3];
    below.hash = 77;
    below.staking_lock = 200;
    below.next_lock = 201;
    below.slot = 0;
    below.min_density = 1;
    below.densities.reverse();
    ProtocolStateChain(vec![head(&below), head(t)])
}

pub const SLOTS_PER_EPOCH: u32 = 7140;
pub const GRACE: u32 = 1440;
pub const SUB_WINDOWS: usize = 11;
pub const SLOTS_PER_SUB_WINDOW: u32 = 7;

/// Forks are short range when both tips know the same block as the last one that fixed the
/// seed of the epoch before theirs, in the terms of the earlier of both.
pub fn short_range(a: &Tip, b: &Tip) -> bool {
    if a.epoch == b.epoch {
        return a.staking_lock == b.staking_lock;
    }
    let (late, early) = if a.epoch > b.epoch { (a, b) } else { (b, a) };
    late.epoch - early.epoch == 1 && early.per_epoch != 0 && early.slot % early.per_epoch >= SLOTS_PER_EPOCH * 2 / 3 && late.staking_lock == early.next_lock
}

/// What longer chains are compared by.
pub fn rank(t: &Tip) -> (u32, Vec<u8>, u64) {
    (t.length, hashes::blake2b(32, &t.vrf), t.hash)
}

pub fn well_formed(t: &Tip) -> bool {
    t.densities.len() == SUB_WINDOWS && t.densities.iter().all(|d| *d <= SLOTS_PER_SUB_WINDOW)
}
