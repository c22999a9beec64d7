use crate::world::*;
use mc_core::*;
use mina_merkle::*;
use std::marker::PhantomData;

type Proof<W> = DefaultMerkleProof<Leaf, <W as World>::H, <W as World>::Hasher, <W as World>::Merger>;

#[derive(Clone, Debug)]
struct Raw<H> {
    index: usize,
    item: u64,
    at: Vec<usize>,
    hashes: Vec<Option<H>>,
}
fn build<W: World>(r: &Raw<W::H>) -> Proof<W> {
    DefaultMerkleProof { index: r.index, item: Leaf(r.item), peer_indices: r.at.clone(), peer_hashes: r.hashes.clone(), _hasher: PhantomData, _merger: PhantomData }
}
fn raw<W: World>(p: &Proof<W>) -> Raw<W::H> {
    Raw { index: p.index, item: p.item.0, at: p.peer_indices.clone(), hashes: p.peer_hashes.clone() }
}

/// A tree of height h with n leaves numbered from 1, as it is by definition.
struct Model<W: World> {
    h: u32,
    leaves: Vec<u64>,
    /// hash of every node, by index from the root
    nodes: Vec<Option<W::H>>,
    root: Option<W::H>,
}
impl<W: World> Model<W> {
    fn new(h: u32, n: usize) -> Self {
        let leaves: Vec<u64> = (1..=n as u64).collect();
        let mut nodes = vec![];
        for d in 0..=h {
            for i in 0..1usize << d {
                let w = 1usize << (h - d);
                let part = &leaves[leaves.len().min(i * w)..leaves.len().min((i + 1) * w)];
                nodes.push(reference::<W>(h - d, part).or_else(|| W::missing(h - d)));
            }
        }
        let root = reference::<W>(h, &leaves);
        Model { h, leaves, nodes, root }
    }
    /// Whether the proof is the one of a leaf of the tree. `None`: undetermined.
    fn genuine(&self, r: &Raw<W::H>) -> bool {
        let first = (1usize << self.h) - 1;
        let mut i = r.index;
        if i < first || i - first >= self.leaves.len() || self.leaves[i - first] != r.item {
            return false;
        }
        if r.at.len() != self.h as usize || r.hashes.len() != self.h as usize {
            return false;
        }
        for (k, (at, hash)) in r.at.iter().zip(&r.hashes).enumerate() {
            let sibling = if i % 2 == 1 { i + 1 } else { i - 1 };
            let hash = hash.clone().or_else(|| W::missing(k as u32));
            if *at != sibling || hash != self.nodes[sibling] {
                return false;
            }
            i = (i - 1) / 2;
        }
        true
    }
    /// The verdict on a proof, compared with the model.
    fn judge(&self, ctx: &Ctx, r: &Raw<W::H>) {
        let root = self.root.clone().unwrap();
        let desc = || format!("{}: tree of height {} with {} leaves, proof {r:?}", W::NAME, self.h, self.leaves.len());
        let got = guarded(&desc, || {
            let p = build::<W>(r);
            let v = p.verify(&root);
            (v, p.root_hash().ok() == Some(root.clone()))
        });
        let want = self.genuine(r);
        ctx.check(got == Outcome::Done((want, want)), || format!("{}: {} the root, (verify, root_hash equal): {got:?}", desc(), if want { "proves" } else { "does not prove" }));
    }
}

/// Every leaf of every tree: the proof handed out is the genuine one.
fn complete<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, n: usize) {
    let h = K::expected_height(height, n);
    let m = Model::<W>::new(h, n);
    for ask in 0..3 {
        for i in 0..n {
            let desc = || format!("{}, {}, height {h}, {n} leaves, proof of leaf {i}, root asked for {ask} times before", W::NAME, K::NAME);
            let r = guarded(&desc, || {
                let mut t = K::create(height);
                t.add_batch((1..=n as u64).map(Leaf));
                for _ in 0..ask {
                    t.root();
                }
                let p = t.proof(i);
                let v = p.as_ref().map(|p| m.root.as_ref().map(|r| p.verify(r)));
                (p.map(|p| raw::<W>(&p)), v)
            });
            ctx.add(1, 1, 1);
            let ok = match &r {
                Outcome::Panic(_) => false,
                // without inner nodes there is no proof, without a root nothing to prove
                Outcome::Done((None, _)) => h == 0 || m.root.is_none(),
                Outcome::Done((Some(p), v)) => h > 0 && (m.root.is_none() || m.genuine(p) && *v == Some(Some(true))),
            };
            if !ctx.check(ok, || format!("{}: {r:?}", desc())) {
                return;
            }
        }
    }
}

/// All changes of one field, and all pairs of a changed index and a changed peer index.
fn changes<W: World, K: Kind<W>>(ctx: &Ctx, height: u32, n: usize, pairs: bool) {
    let h = K::expected_height(height, n);
    let m = Model::<W>::new(h, n);
    if m.root.is_none() || h == 0 {
        return;
    }
    let mut t = K::create(height);
    t.add_batch((1..=n as u64).map(Leaf));
    let mut pool: Vec<Option<W::H>> = vec![None, Some(W::fake())];
    for x in &m.nodes {
        if !pool.contains(x) {
            pool.push(x.clone());
        }
    }
    pool.truncate(40);
    let mut idx: Vec<usize> = (0..(2usize << h) + 3).collect();
    idx.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40]);
    let mut count = 0;
    for i in 0..n {
        let Outcome::Done(Some(p)) = guarded(&|| format!("proof {i} of {n}"), || t.proof(i)) else {
            ctx.violate(|| format!("{}, {}, height {h}, {n} leaves: no proof of leaf {i}", W::NAME, K::NAME));
            return;
        };
        let p = raw::<W>(&p);
        let mut go = |r: &Raw<W::H>| {
            count += 1;
            m.judge(ctx, r)
        };
        go(&p);
        for x in 0..n as u64 + 3 {
            let mut q = p.clone();
            q.item = x;
            go(&q);
            for j in &idx {
                let mut q = q.clone();
                q.index = *j;
                go(&q);
            }
        }
        for k in 0..h as usize {
            for x in &pool {
                let mut q = p.clone();
                q.hashes[k] = x.clone();
                go(&q);
                for l in 0..k {
                    q.hashes.swap(k, l);
                    go(&q);
                    q.hashes.swap(k, l);
                }
            }
            for j in &idx {
                let mut q = p.clone();
                q.at[k] = *j;
                go(&q);
                if pairs {
                    for j in &idx {
                        q.index = *j;
                        go(&q);
                    }
                }
            }
            for l in 0..k {
                let mut q = p.clone();
                q.at.swap(k, l);
                go(&q);
                q.hashes.swap(k, l);
                go(&q);
            }
        }
        // shapes: any numbers of peers, taken from the front or the back
        for a in 0..=h as usize {
            for b in 0..=h as usize {
                let mut q = p.clone();
                q.at.truncate(a);
                q.hashes.truncate(b);
                go(&q);
                let mut q = p.clone();
                q.at.drain(..a);
                q.hashes.drain(..b);
                go(&q);
                // the shortened path of an inner node
                for _ in 0..a {
                    q.index = q.index.saturating_sub(1) / 2;
                }
                go(&q);
            }
        }
        for extra in 1..70usize {
            let mut q = p.clone();
            for e in 0..extra {
                q.at.push(e);
                q.hashes.push(None);
            }
            go(&q);
            q.index = usize::MAX;
            go(&q);
        }
        if ctx.stopped() {
            break;
        }
    }
    ctx.add(count, count, count);
    ctx.outcomes_n("changed proofs judged", count);
}

/// Every proof that can be put together from the hashes of a small tree.
fn forge<W: World>(ctx: &Ctx, h: u32, n: usize, thorough: bool) {
    let nodes = (2usize << h) - 1;
    let mut idx: Vec<usize> = (0..nodes + if thorough { 3 } else { 1 }).collect();
    idx.push(usize::MAX);
    let items: Vec<u64> = (1..=n as u64 + 1).collect();
    par_for(ctx, idx.len() * items.len(), |k| {
        let (index, item) = (idx[k / items.len()], items[k % items.len()]);
        let _e = ctx.enter(|| format!("forged proofs of item {item} at {index}, height {h}"));
        // names of terms belong to a thread, so each task has its own model
        let m = Model::<W>::new(h, n);
        let mut pool: Vec<Option<W::H>> = vec![None, Some(W::fake())];
        for x in m.nodes.iter().chain(&[W::missing(0), W::missing(1)]) {
            if !pool.contains(x) {
                pool.push(x.clone());
            }
        }
        let mut r = Raw { index, item, at: vec![], hashes: vec![] };
        let mut count = 0;
        fn rec<W: World>(ctx: &Ctx, m: &Model<W>, idx: &[usize], pool: &[Option<W::H>], left: u32, r: &mut Raw<W::H>, count: &mut u64) {
            if ctx.stopped() {
                return;
            }
            *count += 1;
            m.judge(ctx, r);
            if left == 0 {
                return;
            }
            for at in idx {
                for x in pool {
                    r.at.push(*at);
                    r.hashes.push(x.clone());
                    rec(ctx, m, idx, pool, left - 1, r, count);
                    r.at.pop();
                    r.hashes.pop();
                }
            }
        }
        rec(ctx, &m, &idx, &pool, h, &mut r, &mut count);
        ctx.add(count, count, count);
        ctx.outcomes_n("forged proofs judged", count);
    });
}

fn world<W: World>(ctx: &Ctx, max: usize, mutate: usize, pairs: usize) {
    par_for(ctx, max, |n| {
        let n = n + 1;
        let _e = ctx.enter(|| format!("proofs of {n} leaves"));
        complete::<W, Variable<W>>(ctx, 0, n);
        for h in levels(n)..levels(n) + 3 {
            complete::<W, Fixed<W>>(ctx, h, n);
        }
        if n <= mutate {
            changes::<W, Variable<W>>(ctx, 0, n, n <= pairs);
            for h in levels(n)..levels(n) + 2 {
                changes::<W, Fixed<W>>(ctx, h, n, n <= pairs);
            }
        }
    });
}

pub fn c21(ctx: &Ctx) {
    let t = ctx.thorough();
    let (max, mutate, pairs) = if t { (140, 33, 17) } else { (70, 17, 9) };
    ctx.bound(format!("every leaf of every tree of 1 to {max} leaves, of variable height and of every fixed height up to two levels more; for trees up to {mutate} leaves all changes of one field of each proof, of item and index, of the number of peers, and (up to {pairs} leaves) of index and one peer index together; for trees of height 1 and 2 every proof that can be put together from all indices, items and hashes of the tree"));
    ctx.assume("hashers and mergers as for C20; Poseidon is replaced by an ideal hash; a peer hash left out stands for the empty subtree, as the mergers treat it");
    world::<Sparse>(ctx, max, mutate, pairs);
    world::<Total>(ctx, max, mutate, pairs);
    world::<Legacy>(ctx, max / 2, mutate.min(6), 3);
    world::<Kimchi>(ctx, max / 2, mutate.min(6), 3);
    // for these two mergers only the proofs handed out: a repeated child or a missing root are theirs
    par_for(ctx, max, |n| {
        complete_only::<Dup>(ctx, n + 1);
        complete_only::<Full>(ctx, n + 1);
    });
    for n in 1..=2 {
        forge::<Sparse>(ctx, 1, n, t);
        forge::<Total>(ctx, 1, n, t);
    }
    for n in 1..=4 {
        forge::<Sparse>(ctx, 2, n, t);
        forge::<Total>(ctx, 2, n, t);
    }
    if t {
        forge::<Legacy>(ctx, 1, 2, t);
    }
    ctx.sample(|| {
        let mut tr = Variable::<Sparse>::new();
        tr.add_batch((1..=3).map(Leaf));
        format!("proof of the third of three leaves: {:?}", tr.get_proof(2).map(|p| raw::<Sparse>(&p)))
    });
}

fn complete_only<W: World>(ctx: &Ctx, n: usize) {
    let _e = ctx.enter(|| format!("proofs of {n} leaves"));
    complete::<W, Variable<W>>(ctx, 0, n);
    complete::<W, Fixed<W>>(ctx, levels(n) + 1, n);
}
