use crate::world::*;
use mc_core::*;
use mina_merkle::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Batch(usize),
    Root,
    ProofFirst,
    ProofLast,
    ProofMid,
}
const OPS: [Op; 9] = [Op::Add, Op::Batch(0), Op::Batch(2), Op::Batch(3), Op::Batch(5), Op::Root, Op::ProofFirst, Op::ProofLast, Op::ProofMid];

/// Runs one history; false if it leaves the domain (more leaves than fit).
fn history<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, limit: usize, ops: &[Op]) -> bool {
    let desc = || format!("{}, {}, created for {height}: {ops:?}", W::NAME, K::NAME);
    let r = guarded(&desc, || {
        let mut t = K::create(height);
        let mut leaves: Vec<u64> = vec![];
        let expect = |l: &[u64]| reference::<W>(K::expected_height(height, l.len()), l);
        let mut calls = 0;
        for (i, op) in ops.iter().enumerate() {
            let k = match op {
                Op::Add => 1,
                Op::Batch(k) => *k,
                _ => 0,
            };
            if leaves.len() + k > limit {
                return None;
            }
            calls += 1;
            match op {
                Op::Add => {
                    leaves.push(leaves.len() as u64 + 1);
                    t.add(Leaf(leaves.len() as u64));
                }
                Op::Batch(k) => {
                    let n = leaves.len() as u64;
                    leaves.extend(n + 1..=n + *k as u64);
                    t.add_batch((n + 1..=n + *k as u64).map(Leaf));
                }
                Op::Root => {
                    let (got, want) = (t.root(), expect(&leaves));
                    if got != want {
                        return Some(Err(format!("root after step {i}: {got:?}, expected {want:?}")));
                    }
                }
                _ if leaves.is_empty() => return None,
                _ => {
                    let i = match op {
                        Op::ProofFirst => 0,
                        Op::ProofLast => leaves.len() - 1,
                        _ => leaves.len() / 2,
                    };
                    let want = expect(&leaves);
                    let proof = t.proof(i);
                    if let (Some(p), Some(root)) = (&proof, &want) {
                        if !p.verify(root) {
                            return Some(Err(format!("proof of leaf {i} after step {i} does not verify")));
                        }
                    }
                }
            }
        }
        if t.count() != leaves.len() {
            return Some(Err(format!("count is {}, not {}", t.count(), leaves.len())));
        }
        let h = K::expected_height(height, leaves.len());
        if t.height() != h {
            return Some(Err(format!("height is {}, not {h}", t.height())));
        }
        for round in 0..2 {
            let (got, want) = (t.root(), expect(&leaves));
            if got != want {
                return Some(Err(format!("final root (asked {} times) of {} leaves: {got:?}, expected {want:?}", round + 1, leaves.len())));
            }
        }
        Some(Ok(calls + 4))
    });
    match r {
        Outcome::Done(None) => false,
        Outcome::Done(Some(Ok(n))) => {
            ctx.add(1, n, 1);
            true
        }
        Outcome::Done(Some(Err(e))) => {
            ctx.violate(|| format!("{}: {e}", desc()));
            false
        }
        Outcome::Panic(e) => {
            ctx.violate(|| format!("{}: panic: {e}", desc()));
            false
        }
    }
}

fn histories<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, limit: usize, depth: usize) {
    fn rec<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, limit: usize, depth: usize, ops: &mut Vec<Op>) {
        if ctx.stopped() || !history::<W, K>(ctx, height, limit, ops) || ops.len() == depth {
            return;
        }
        for op in OPS {
            ops.push(op);
            rec::<W, K>(ctx, height, limit, depth, ops);
            ops.pop();
        }
    }
    let n = OPS.len();
    history::<W, K>(ctx, height, limit, &[]);
    for op in OPS {
        history::<W, K>(ctx, height, limit, &[op]);
    }
    par_for(ctx, n * n, |i| {
        let mut ops = vec![OPS[i / n], OPS[i % n]];
        let _e = ctx.enter(|| format!("histories beginning with {ops:?}"));
        rec::<W, K>(ctx, height, limit, depth.max(2), &mut ops);
    });
}

/// One batch of n leaves, or n single ones with the root asked for in between, for all n.
fn growth<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, max: usize, single: usize) {
    par_for(ctx, max + 1, |n| {
        let _e = ctx.enter(|| format!("{n} leaves"));
        history::<W, K>(ctx, height, max, &[Op::Batch(n)]);
        history::<W, K>(ctx, height, max, &[Op::Batch(n / 2), Op::Root, Op::Batch(n - n / 2), Op::Root]);
        if n <= single {
            let ops: Vec<Op> = (0..2 * n).map(|i| if i % 2 == 0 { Op::Add } else { Op::Root }).collect();
            history::<W, K>(ctx, height, max, &ops);
            let ops: Vec<Op> = (0..2 * n).map(|i| if i % 2 == 0 { Op::Add } else { Op::ProofLast }).collect();
            history::<W, K>(ctx, height, max, &ops);
        }
    });
}

fn world<W: World>(ctx: &Ctx, depth: usize, fixed: &[u32], max: usize) {
    for h in fixed {
        histories::<W, Fixed<W>>(ctx, *h, 1 << h, depth);
    }
    for h in [0, 3] {
        histories::<W, Variable<W>>(ctx, h, 64, depth - (h as usize % 2));
    }
    growth::<W, Variable<W>>(ctx, 0, max, max / 4);
    growth::<W, Fixed<W>>(ctx, levels(max) + 2, max, max / 4);
}

pub fn c20(ctx: &Ctx) {
    let d = if ctx.thorough() { 8 } else { 6 };
    ctx.bound(format!("all histories of up to {d} operations out of add, batches of 0, 2, 3, 5 leaves, root, proof of the first, middle and last leaf, on trees of fixed height 0 to 5 (one operation less for mergers over the ideal hash) and of variable height; all numbers of leaves up to 300 in one batch, two batches, and one by one (up to 75) with the root or a proof asked for after each; six mergers"));
    ctx.assume("hashers and mergers depend on the item, the child hashes and the height of the node above the leaves only; a merger treats a missing child as it treats the hash of an empty subtree; Poseidon is replaced by an ideal hash");
    world::<Sparse>(ctx, d, &[0, 1, 2, 3, 5], 300);
    world::<Total>(ctx, d - 1, &[0, 2, 3, 4], 300);
    world::<Dup>(ctx, d - 1, &[3, 5], 300);
    world::<Full>(ctx, d - 1, &[2, 3], 300);
    world::<Legacy>(ctx, d - 2, &[3, 4, 20], 100);
    world::<Kimchi>(ctx, d - 2, &[3, 4, 35], 100);
    ctx.sample(|| format!("[Batch(5), Root, Add, Root] on a tree of variable height: {:?}", {
        let mut t = Variable::<Sparse>::new();
        t.add_batch((1..=5).map(Leaf));
        let a = t.root();
        t.add(Leaf(6));
        (a, t.root())
    }));
}

pub fn c22(ctx: &Ctx) {
    let near: u64 = if ctx.thorough() { 1 << 16 } else { 1 << 12 };
    let all: u64 = if ctx.thorough() { 1 << 27 } else { 1 << 21 };
    ctx.bound(format!("all node indices below {all}, and within {near} of every power of two up to 2^64; every tree height from the depth of the node up to 64"));
    let one = |index: u64| {
        // the nodes of depth d are those with the indices 2^d - 1 to 2^(d+1) - 2
        let d = (1..=64).find(|d| (index as u128) < (1u128 << d) - 1).unwrap() - 1;
        for h in if index < 1 << 12 || index > 1 << 22 { d..=64 } else { d..=d + 1 } {
            let r = guarded(&|| format!("metadata of node {index} in a tree of height {h}"), || {
                let m = MerkleTreeNodeMetadata::new(index as usize, h);
                (m.depth(), m.height())
            });
            ctx.add(1, 1, 1);
            if !ctx.check(r == Outcome::Done((d, h - d)), || format!("node {index} in a tree of height {h}: (depth, height) = {r:?}, expected ({d}, {})", h - d)) {
                return;
            }
        }
    };
    par_for(ctx, 64, |k| {
        let _e = ctx.enter(|| format!("indices, part {k}"));
        for i in (all / 64) * k as u64..(all / 64) * (k as u64 + 1) {
            one(i);
            if ctx.stopped() {
                return;
            }
        }
    });
    par_for(ctx, 65, |k| {
        let _e = ctx.enter(|| format!("indices around 2^{k}"));
        let p = 1u128 << k;
        let lo = p.saturating_sub(near as u128);
        // 2^64 - 1 itself would be of depth 64
        let hi = (p + near as u128).min(u64::MAX as u128 - 1);
        for i in lo..=hi {
            if i < 1 << 22 || i >= 1 << 23 || k == 22 {
                one(i as u64);
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.sample(|| format!("node 2^29 - 2 in a tree of height 28: {:?}", MerkleTreeNodeMetadata::new((1 << 29) - 2, 28)));
}
