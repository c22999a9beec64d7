//! C24: selection among forks.
use crate::world::*;
use mc_core::*;
use mina_consensus::common::*;
use mina_rs_base::protocol_state::*;
use proof_systems::mina_hasher::Fp;

/// Whether a node that holds `a` has to move to `b`.
fn moves(a: (&Tip, &Chain), b: (&Tip, &Chain)) -> Result<bool, String> {
    let longer = rank(b.0) > rank(a.0);
    if short_range(a.0, b.0) {
        return Ok(longer);
    }
    if !well_formed(b.0) {
        return Ok(false);
    }
    let (da, db) = (a.1.relative_min_window_density(b.1).map_err(|e| e.to_string())?, b.1.relative_min_window_density(a.1).map_err(|e| e.to_string())?);
    Ok(db > da || db == da && longer)
}

struct Universe {
    tips: Vec<Tip>,
    chains: Vec<Chain>,
    moves: Vec<Vec<Result<bool, String>>>,
}

impl Universe {
    fn new(ctx: &Ctx, tips: Vec<Tip>) -> Universe {
        let chains: Vec<Chain> = tips.iter().map(chain).collect();
        let rows: Vec<_> = (0..tips.len()).map(|_| std::sync::Mutex::new(vec![])).collect();
        par_for(ctx, tips.len(), |i| {
            *rows[i].lock().unwrap() = (0..tips.len()).map(|j| guarded(&|| format!("densities of {:?} and {:?}", tips[i], tips[j]), || moves((&tips[i], &chains[i]), (&tips[j], &chains[j]))).done().unwrap_or(Err("panic".into()))).collect();
        });
        Universe { moves: rows.into_iter().map(|r| r.into_inner().unwrap()).collect(), tips, chains }
    }

    fn which(&self, c: &Chain) -> Option<usize> {
        self.chains.iter().position(|x| x == c)
    }

    /// The real selection from chain `i` among `candidates`, against the fold of the rule.
    fn select(&self, ctx: &Ctx, i: usize, candidates: &[usize]) -> usize {
        let mut want = i;
        let mut err = false;
        for j in candidates {
            match &self.moves[want][*j] {
                Ok(true) => want = *j,
                Ok(false) => {}
                Err(_) => {
                    err = true;
                    break;
                }
            }
        }
        let say = || format!("node with {:?} offered {:?}", self.tips[i], candidates.iter().map(|j| &self.tips[*j]).collect::<Vec<_>>());
        let got = guarded(&say, || {
            let mut c = self.chains[i].clone();
            let r = c.select_secure_chain(candidates.iter().map(|j| self.chains[*j].clone()).collect());
            (c, r.is_err())
        });
        match got {
            Outcome::Done((c, e)) if e == err && c == self.chains[want] => {}
            Outcome::Done((c, e)) => ctx.violate(|| format!("{}: ends with {:?} (error: {e}), expected {:?} (error: {err})", say(), self.which(&c).map(|i| &self.tips[i]), self.tips[want])),
            Outcome::Panic(p) => ctx.violate(|| format!("{}: panic: {p}", say())),
            _ => ctx.violate(|| format!("{}: {:?}", say(), got.done().map(|_| ()))),
        }
        want
    }
}

fn universe(ctx: &Ctx) -> Vec<Tip> {
    let mut v = vec![];
    let base = Tip::default();
    let full = vec![7; 11];
    let mut thin = vec![7; 11];
    thin[3] = 0;
    // short-range family: same epoch, same checkpoint
    for length in [99, 100, 101] {
        for vrf in [vec![], vec![1], vec![2]] {
            for hash in [1, 2] {
                v.push(Tip { length, vrf: vrf.clone(), hash, ..base.clone() });
            }
        }
    }
    // another checkpoint, next epoch in and out of the range of the seed update, two epochs on
    for (epoch, slot, staking_lock, next_lock) in [(3, 30_000, 8, 2), (4, 33_320, 2, 4), (4, 33_319, 8, 4), (5, 40_000, 4, 6), (2, 21_419, 1, 1), (2, 19_039, 1, 1), (2, 19_040, 1, 1), (3, 30_001, 8, 9), (3, 30_005, 8, 9)] {
        for length in [100, 101] {
            for (min_density, densities) in [(40, vec![4; 11]), (41, full.clone()), (77, full.clone()), (70, thin.clone())] {
                v.push(Tip { length, epoch, slot, staking_lock, next_lock, min_density, densities, ..base.clone() });
            }
        }
    }
    // within the grace period
    for (staking_lock, slot, min_density) in [(1, 1438, 70), (8, 1438, 71), (8, 1439, 70), (8, 1440, 77), (9, 1439, 77), (9, 1438, 3)] {
        v.push(Tip { epoch: 0, slot, staking_lock, min_density, densities: full.clone(), ..base.clone() });
    }
    // windows that are not those of any chain
    for staking_lock in [1, 8] {
        for densities in [vec![8; 11], { let mut d = full.clone(); d[10] = 8; d }, { let mut d = full.clone(); d[0] = u32::MAX; d }, vec![7; 10], vec![7; 12], vec![]] {
            for min_density in [77, 200] {
                v.push(Tip { length: 101, staking_lock, densities: densities.clone(), min_density, ..base.clone() });
            }
        }
    }
    v.push(Tip { length: u32::MAX, ..base.clone() });
    v.push(Tip { length: 0, ..base.clone() });
    v.push(Tip { epoch: u32::MAX, slot: u32::MAX, ..base.clone() });
    v.push(Tip { per_epoch: 0, epoch: 4, ..base.clone() });
    v.push(Tip { per_epoch: 0, epoch: 2, ..base.clone() });
    v.push(Tip { vrf: vec![0; 32], ..base.clone() });
    v.push(Tip { vrf: vec![0; 200], ..base.clone() });
    let _ = ctx;
    v
}

pub fn c24(ctx: &Ctx) {
    let u = Universe::new(ctx, universe(ctx));
    let n = u.tips.len();
    let deep = ctx.thorough();
    ctx.bound(format!("{n} tips (equal, longer, tied, short and long range, grace period, sparse, malformed and extreme ones): all nodes with all single candidates, all pairs{} of candidates; all orders of up to {} of the 18 short-range tips; all chains of up to 5 blocks over 6 heights for push and its queries; tie-breaks over {} VRF outputs", if deep { " and triples" } else { "" }, if deep { 4 } else { 3 }, if deep { 3000 } else { 700 }));
    ctx.assume("headers are stand-ins with hashes of our choosing; Blake2b is the reimplementation in stubs/hashes (checked against published vectors); relative densities are those the crate computes (C25)");
    par_for(ctx, n, |i| {
        let _e = ctx.enter(|| format!("candidates for {:?}", u.tips[i]));
        u.select(ctx, i, &[]);
        for j in 0..n {
            let w = u.select(ctx, i, &[j]);
            // two nodes that tell each other of their chains agree afterwards
            if well_formed(&u.tips[i]) && well_formed(&u.tips[j]) && rank(&u.tips[i]) != rank(&u.tips[j]) {
                let back = if u.moves[j][i] == Ok(true) { i } else { j };
                ctx.check(w == back, || format!("nodes with {:?} and {:?} do not agree", u.tips[i], u.tips[j]));
            }
            if ctx.stopped() {
                return;
            }
            for k in 0..n {
                if deep && n > 0 {
                    for l in (0..n).step_by(7) {
                        u.select(ctx, i, &[j, k, l]);
                    }
                }
                u.select(ctx, i, &[j, k]);
            }
        }
        let m = n as u64 * n as u64;
        ctx.add(m, 3 * m, m);
    });
    // any order of delivery gives the same chain when all forks are short range: the greatest
    let family = 18;
    par_for(ctx, family, |i| {
        let depth = if deep { 4 } else { 3 };
        let mut sets = vec![vec![i]];
        for _ in 0..depth {
            let next: Vec<Vec<usize>> = sets.iter().flat_map(|s| (0..family).map(move |j| [s.clone(), vec![j]].concat())).collect();
            for s in &next {
                let best = *s.iter().max_by_key(|k| rank(&u.tips[**k])).unwrap();
                let mut c = u.chains[i].clone();
                let r = c.select_secure_chain(s[1..].iter().map(|j| u.chains[*j].clone()).collect());
                if r.is_err() || c != u.chains[best] {
                    ctx.violate(|| format!("node with {:?} offered {:?} does not end with the greatest", u.tips[i], s[1..].iter().map(|j| &u.tips[*j]).collect::<Vec<_>>()));
                    return;
                }
            }
            ctx.add(next.len() as u64, next.len() as u64, next.len() as u64);
            sets = if next.len() > 400 && !deep { next.into_iter().step_by(1).collect() } else { next };
        }
    });
    // tie-breaks: the real comparison of VRF outputs
    let count = if deep { 3000u32 } else { 700 };
    let vrfs: Vec<Vec<u8>> = (0..count).map(|i| i.to_le_bytes()[..1 + (i > 255) as usize].to_vec()).collect();
    let tips: Vec<Tip> = vrfs.iter().map(|v| Tip { vrf: v.clone(), ..Tip::default() }).collect();
    let chains: Vec<Chain> = tips.iter().map(chain).collect();
    let ranks: Vec<_> = tips.iter().map(rank).collect();
    par_for(ctx, tips.len(), |i| {
        for j in 0..tips.len() {
            let mut c = chains[i].clone();
            let r = guarded(&|| format!("tie between {:?} and {:?}", tips[i].vrf, tips[j].vrf), || c.select_longer_chain(chains[j].clone()).is_ok());
            let want = if ranks[j] > ranks[i] { j } else { i };
            ctx.check(r == Outcome::Done(true) && c.0[1].state.last_vrf_output == chains[want].0[1].state.last_vrf_output && c.0.len() == 2, || format!("tie between VRF outputs {:?} and {:?}", tips[i].vrf, tips[j].vrf));
        }
        ctx.add(tips.len() as u64, tips.len() as u64, tips.len() as u64);
    });
    // empty chains
    let none: Chain = ProtocolStateChain(vec![]);
    let some = u.chains[0].clone();
    for (a, b) in [(&none, &none), (&none, &some), (&some, &none)] {
        let mut c = a.clone();
        let r = guarded(&|| "an empty chain".into(), || (c.select_secure_chain(vec![b.clone()]).is_err(), c.select_longer_chain(b.clone()).is_err()));
        ctx.add(1, 1, 1);
        ctx.check(!matches!(r, Outcome::Panic(_)) && (c == *a || c == *b), || format!("selection with an empty chain: {r:?}"));
        if a.0.len() == 2 {
            ctx.check(c == *a, || "a chain is given up for an empty one".into());
        }
    }
    push(ctx);
    whole(ctx);
    ctx.sample(|| format!("{:?} offered {:?}: moves {:?}", u.tips[0], u.tips[20], u.moves[0][20]));
}

/// Chains grow by one block at a time, and answer for their last block.
fn push(ctx: &Ctx) {
    let heights = [0, 1, 2, 3, u32::MAX - 1, u32::MAX];
    for code in 0..6usize.pow(5) {
        let hs: Vec<u32> = (0..5).map(|i| heights[code / 6usize.pow(i) % 6]).collect();
        let say = || format!("pushing heights {hs:?}");
        let r = guarded(&say, || {
            let mut c: Chain = ProtocolStateChain(vec![]);
            let mut model: Vec<(u32, u64)> = vec![];
            for (i, h) in hs.iter().enumerate() {
                let t = Tip { length: *h, hash: i as u64, slot: 100 + i as u32, vrf: vec![i as u8], ..Tip::default() };
                let fits = model.last().map_or(true, |(l, _)| *l as u64 + 1 == *h as u64);
                if c.push(head(&t)).is_ok() != fits {
                    return Some(format!("block {i}: accepted {}", !fits));
                }
                if fits {
                    model.push((*h, i as u64));
                }
                let (lh, li) = *model.last().unwrap();
                let ok = c.0.iter().map(|b| (b.state.blockchain_length.0, b.hash)).collect::<Vec<_>>() == model.iter().map(|(h, i)| (*h, Fp::from(*i))).collect::<Vec<_>>()
                    && c.top() == c.0.last()
                    && c.length() == lh as usize
                    && c.state_hash() == Some(Fp::from(li))
                    && c.genesis_block().map(|b| b.hash) == Some(Fp::from(model[0].1))
                    && c.global_slot().map(|s| s.slot_number.0) == Some(100 + li as u32)
                    && c.epoch_slot() == Some(100 + li as u32)
                    && c.consensus_state() == c.top().map(|t| t.consensus_state())
                    && c.last_vrf_hash_digest().ok() == Some(hashes::blake2b(32, &[li as u8]).iter().map(|b| format!("{b:02x}")).collect::<String>());
                if !ok {
                    return Some(format!("after block {i} the chain is {:?}, expected {model:?}", c.0.iter().map(|b| b.state.blockchain_length.0).collect::<Vec<_>>()));
                }
            }
            None
        });
        ctx.add(1, 5, 1);
        if r != Outcome::Done(None) {
            ctx.violate(|| format!("{}: {r:?}", say()));
            return;
        }
    }
    let none: Chain = ProtocolStateChain(vec![]);
    let ok = none.top().is_none() && none.length() == 0 && none.genesis_block().is_none() && none.global_slot().is_none() && none.epoch_slot().is_none() && none.state_hash().is_none() && none.last_vrf_hash_digest().is_err();
    ctx.check(ok, || "queries of an empty chain".into());
}

/// The same with the crate's own headers: the tie is broken by their state hashes.
fn whole(ctx: &Ctx) {
    let legacy: Vec<ProtocolStateLegacy> = (0..24u8)
        .map(|i| {
            let mut p = ProtocolStateLegacy::default();
            p.body.consensus_state = state(&Tip::default());
            p.previous_state_hash = [i; 32].into();
            p
        })
        .collect();
    let new: Vec<ProtocolState> = (0..24u8)
        .map(|i| {
            let mut p = ProtocolState::default();
            p.body.consensus_state = state(&Tip::default());
            p.previous_state_hash = [i; 32].into();
            p
        })
        .collect();
    fn all<T: ProtocolStateHeader + Clone + PartialEq>(ctx: &Ctx, ps: &[T], hashes: &[Fp]) {
        for i in 0..ps.len() {
            for j in 0..ps.len() {
                let mut c = ProtocolStateChain(vec![ps[i].clone()]);
                let r = c.select_secure_chain(vec![ProtocolStateChain(vec![ps[j].clone()])]);
                let want = if hashes[j] > hashes[i] { j } else { i };
                ctx.add(1, 1, 1);
                ctx.check(r.is_ok() && c.0.len() == 1 && c.0[0] == ps[want], || format!("tie between state hashes {i} and {j}"));
            }
        }
    }
    let h: Vec<Fp> = legacy.iter().map(|p| p.state_hash_fp()).collect();
    all(ctx, &legacy, &h);
    let h: Vec<Fp> = new.iter().map(|p| p.state_hash_fp()).collect();
    all(ctx, &new, &h);
}
