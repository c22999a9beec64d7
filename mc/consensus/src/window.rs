//! C25: how far forks reach back, and relative minimum window densities.
use crate::world::*;
use mc_core::*;
use mina_consensus::common::*;

/// The window's sub-windows that follow the tip's, one for each of `shift` steps, emptied.
fn density(t: &Tip, shift: u32, sub_window: u32) -> u32 {
    let mut w: Vec<u64> = t.densities.iter().map(|d| *d as u64).collect();
    for i in 0..shift.min(SUB_WINDOWS as u32) {
        w[((sub_window + 1 + i) as usize) % SUB_WINDOWS] = 0;
    }
    w.iter().sum::<u64>().min(t.min_density as u64) as u32
}

/// Specified: (max slot - slot - 1) steps from sub-window (slot / slots per sub-window).
fn specified(a: &Tip, b: &Tip) -> u32 {
    let max = a.slot.max(b.slot);
    if max < GRACE {
        return a.min_density;
    }
    density(a, (max - a.slot).saturating_sub(1), a.slot / SLOTS_PER_SUB_WINDOW % SUB_WINDOWS as u32)
}

/// What consensus/tests/density.rs pins: two steps more, from the sub-window computed with
/// 11 slots to the sub-window.
fn pinned(a: &Tip, b: &Tip) -> u32 {
    let max = a.slot.max(b.slot);
    if max < GRACE {
        return a.min_density;
    }
    density(a, max - a.slot.saturating_sub(1), a.slot / SUB_WINDOWS as u32 % SUB_WINDOWS as u32)
}

fn pair(ctx: &Ctx, a: &Tip, b: &Tip, ca: &Chain, cb: &Chain) {
    let say = || format!("relative minimum window density of {a:?} against {b:?}");
    let got = guarded(&say, || ca.relative_min_window_density(cb).map_err(|e| e.to_string()));
    let (s, p) = (specified(a, b), pinned(a, b));
    if got == Outcome::Done(Ok(s)) {
        return;
    }
    if got == Outcome::Done(Ok(p)) && ctx.known_finding("window-shift", || format!("{}: {p}, specified {s}", say())) {
        return;
    }
    ctx.violate(|| format!("{}: {got:?}, specified {s} (pinned by the tests: {p})", say()));
}

pub fn c25(ctx: &Ctx) {
    let span = if ctx.thorough() { 600 } else { 270 };
    ctx.bound(format!("fork range: all pairs of tips over 7 epochs, 3x3 checkpoints, 14 slots, 3 epoch lengths; densities: all pairs of slots within {span} of the end of the grace period and around powers of two, windows in which each sub-window has its own weight, minimum densities from 0 to 2^32-1; windows of 0 to 13 sub-windows and of overflowing sums for the absence of panics"));
    ctx.assume("the consensus constants are those of mainnet, the only ones the crate has");
    // fork range
    let mut tips = vec![];
    for epoch in [0, 1, 2, 3, 9, u32::MAX - 1, u32::MAX] {
        for (staking_lock, next_lock) in (0..9).map(|i| (i / 3, i % 3)) {
            for per_epoch in [7140, 10_000, 0] {
                for slot in [0, 1, 4758, 4759, 4760, 4761, 7139, 7140, 7140 + 4759, 7140 + 4760, 9999, 14_280, 25_000, u32::MAX] {
                    tips.push(Tip { epoch, slot, per_epoch, staking_lock, next_lock, ..Tip::default() });
                }
            }
        }
    }
    let chains: Vec<Chain> = tips.iter().map(chain).collect();
    par_for(ctx, tips.len(), |i| {
        let _e = ctx.enter(|| format!("fork range of {:?}", tips[i]));
        let (mut short, n) = (0, tips.len() as u64);
        for j in 0..tips.len() {
            let say = || format!("short range of {:?} and {:?}", tips[i], tips[j]);
            let got = guarded(&say, || chains[i].is_short_range(&chains[j]).map_err(|e| e.to_string()));
            let want = short_range(&tips[i], &tips[j]);
            short += want as u64;
            if got != Outcome::Done(Ok(want)) {
                ctx.violate(|| format!("{}: {got:?}, expected {want}", say()));
                return;
            }
        }
        let es = guarded(&|| format!("epoch slot of {:?}", tips[i]), || chains[i].epoch_slot());
        ctx.check(es == Outcome::Done(tips[i].slot.checked_rem(tips[i].per_epoch)), || format!("epoch slot of {:?}: {es:?}", tips[i]));
        ctx.add(n, n, n);
        ctx.outcomes_n("short range", short);
        ctx.outcomes_n("long range", n - short);
    });
    // densities: weights by which every set of emptied sub-windows has its own sum
    let mut slots: Vec<u32> = (GRACE - 15..GRACE + span).collect();
    slots.extend([0, 1, 2, 7, 10, 11, 12, 76, 77, 121, 700]);
    for k in 11..=31u32 {
        slots.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2, (1 << k) + 11, (1 << k) + 12]);
    }
    slots.extend([u32::MAX, u32::MAX - 1, u32::MAX - 12]);
    slots.sort_unstable();
    slots.dedup();
    let weights: Vec<u32> = (0..11).map(|i| 1 << i).collect();
    let kinds: Vec<(Vec<u32>, u32)> = vec![
        (weights.clone(), u32::MAX),
        (weights.iter().rev().cloned().collect(), 2047),
        (weights, 1000),
        (vec![7; 11], 77),
        (vec![4; 11], 40),
        (vec![0, 7, 0, 7, 3, 2, 1, 0, 7, 7, 7], 0),
        (vec![0, 7, 0, 7, 3, 2, 1, 0, 7, 7, 7], 11),
    ];
    par_for(ctx, kinds.len() * slots.len(), |c| {
        let (densities, min_density) = kinds[c % kinds.len()].clone();
        let a = Tip { slot: slots[c / kinds.len()], densities, min_density, ..Tip::default() };
        let ca = chain(&a);
        let _e = ctx.enter(|| format!("density of {a:?}"));
        for s in &slots {
            let b = Tip { slot: *s, densities: vec![1; 11], min_density: 5, ..Tip::default() };
            pair(ctx, &a, &b, &ca, &chain(&b));
            if ctx.stopped() {
                return;
            }
        }
        ctx.add(slots.len() as u64, slots.len() as u64, slots.len() as u64);
    });
    // malformed windows: an answer or an error, and never the wrong window length taken for the right one
    for n in 0..=13usize {
        for fill in [0, 7, 1 << 29, u32::MAX] {
            for (sa, sb) in [(2000, 2000), (2000, 2005), (2005, 2000), (0, 2000), (0, 0), (u32::MAX, 0), (0, u32::MAX)] {
                let a = Tip { slot: sa, densities: vec![fill; n], min_density: u32::MAX, ..Tip::default() };
                let b = Tip { slot: sb, ..Tip::default() };
                let (ca, cb) = (chain(&a), chain(&b));
                let say = || format!("relative density of {a:?} against slot {sb}");
                for (x, y) in [(&ca, &cb), (&cb, &ca)] {
                    let r = guarded(&say, || x.relative_min_window_density(y).map_err(|e| e.to_string()));
                    ctx.add(1, 1, 1);
                    ctx.check(!matches!(r, Outcome::Panic(_)), || format!("{}: {r:?}", say()));
                }
            }
        }
    }
    let none: Chain = ProtocolStateChain(vec![]);
    let some = chain(&Tip::default());
    for (x, y) in [(&none, &none), (&none, &some), (&some, &none)] {
        let r = guarded(&|| "empty chains".into(), || (x.is_short_range(y).is_err(), x.relative_min_window_density(y).is_err()));
        ctx.add(1, 2, 1);
        ctx.check(r == Outcome::Done((true, true)), || format!("an empty chain is compared: {r:?}"));
    }
    ctx.sample(|| format!("{:?}: density against a chain 5 slots ahead {}", kinds[3], specified(&Tip { slot: 2000, densities: vec![7; 11], min_density: 77, ..Tip::default() }, &Tip { slot: 2005, ..Tip::default() })));
}
