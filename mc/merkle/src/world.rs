//! Hashers and mergers, each with an independent statement of what it computes.
use ark_ff::{BigInteger256, PrimeField};
use mina_hasher::{Fp, Hashable, ROInput};
use mina_merkle::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;

/// A leaf: just a number.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Leaf(pub u64);
impl Hashable for Leaf {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_u64(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("leaf".into())
    }
}

pub trait World: 'static {
    const NAME: &'static str;
    type H: Clone + PartialEq + Debug;
    type Hasher: MerkleHasher<Item = Leaf, Hash = Self::H>;
    type Merger: MerkleMerger<Hash = Self::H>;
    fn leaf(v: u64) -> Self::H;
    /// The hash of a node at height `h` > 0 (leaves are at height 0).
    fn node(h: u32, l: Option<Self::H>, r: Option<Self::H>) -> Option<Self::H>;
    /// The value a missing child at height `h` stands for, if it stands for one.
    fn missing(h: u32) -> Option<Self::H>;
    /// A hash that occurs in no tree.
    fn fake() -> Self::H;
}

/// The root of the tree of height `h` over `leaves[..n]`, by definition.
pub fn reference<W: World>(h: u32, leaves: &[u64]) -> Option<W::H> {
    if h == 0 {
        return leaves.first().map(|v| W::leaf(*v));
    }
    if leaves.is_empty() && h > 1 {
        // all empty: one node per height is enough
        let c = reference::<W>(h - 1, &[]);
        return W::node(h, c.clone(), c);
    }
    let half = 1usize << (h - 1);
    let (l, r) = leaves.split_at(leaves.len().min(half));
    W::node(h, reference::<W>(h - 1, l), reference::<W>(h - 1, r))
}

// ---- free terms: hashes are names of terms, so different terms never collide

thread_local! {
    static TERMS: RefCell<HashMap<(u8, u32, u64, u64), u64>> = RefCell::new(HashMap::new());
}
fn term(tag: u8, h: u32, a: u64, b: u64) -> u64 {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.len() as u64 + 1;
        *t.entry((tag, h, a, b)).or_insert(n)
    })
}
pub struct FreeHasher;
impl MerkleHasher for FreeHasher {
    type Item = Leaf;
    type Hash = u64;
    fn hash(item: &Leaf, m: MerkleTreeNodeMetadata) -> u64 {
        term(0, m.height(), item.0, 0)
    }
}
fn o(x: Option<u64>) -> u64 {
    x.unwrap_or(0)
}
pub struct FreeMerger<W>(PhantomData<W>);
impl<W: World<H = u64>> MerkleMerger for FreeMerger<W> {
    type Hash = u64;
    fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        W::node(m.height(), h[0], h[1])
    }
}
macro_rules! free {
    ($w:ident, $name:literal, |$h:ident, $l:ident, $r:ident| $e:expr, |$m:ident| $me:expr) => {
        pub struct $w;
        impl World for $w {
            const NAME: &'static str = $name;
            type H = u64;
            type Hasher = FreeHasher;
            type Merger = FreeMerger<$w>;
            fn leaf(v: u64) -> u64 {
                term(0, 0, v, 0)
            }
            fn node($h: u32, $l: Option<u64>, $r: Option<u64>) -> Option<u64> {
                $e
            }
            fn missing($m: u32) -> Option<u64> {
                $me
            }
            fn fake() -> u64 {
                term(9, 0, 0, 0)
            }
        }
    };
}
// nothing for an empty subtree
free!(Sparse, "no hash for empty subtrees", |h, l, r| if l.is_none() && r.is_none() { None } else { Some(term(1, h, o(l), o(r))) }, |_h| None);
// a missing child is the empty subtree of that height
free!(Total, "default hash for empty subtrees", |h, l, r| {
    let e = term(2, h - 1, 0, 0);
    match (l.unwrap_or(e), r.unwrap_or(e)) {
        (a, b) if a == e && b == e => Some(term(2, h, 0, 0)),
        (a, b) => Some(term(1, h, a, b)),
    }
}, |h| Some(term(2, h, 0, 0)));
// the last child is repeated
free!(Dup, "odd child repeated", |h, l, r| l.map(|l| term(1, h, l, r.unwrap_or(l))), |_h| None);
// only full subtrees have a hash
free!(Full, "hash for full subtrees only", |h, l, r| match (l, r) { (Some(l), Some(r)) => Some(term(1, h, l, r)), _ => None }, |_h| None);

// ---- Mina's own hashers and mergers over the ideal hash

fn decimal(s: &str) -> Fp {
    let b: BigInteger256 = num::BigUint::parse_bytes(s.as_bytes(), 10).unwrap().try_into().unwrap();
    Fp::from_repr(b).unwrap()
}
macro_rules! poseidon {
    ($w:ident, $name:literal, $kind:literal, $hasher:ident, $merger:ident, $empty:literal) => {
        pub struct $w;
        impl World for $w {
            const NAME: &'static str = $name;
            type H = Fp;
            type Hasher = $hasher<Leaf>;
            type Merger = $merger;
            fn leaf(v: u64) -> Fp {
                mina_hasher::ideal($kind, Some("leaf"), &[v.into()])
            }
            fn node(h: u32, l: Option<Fp>, r: Option<Fp>) -> Option<Fp> {
                let c = |x: Option<Fp>| x.unwrap_or_else(|| Self::missing(h - 1).unwrap());
                Some(mina_hasher::ideal($kind, Some(&format!("CodaMklTree{:03}", h - 1)), &[c(l), c(r)]))
            }
            fn missing(h: u32) -> Option<Fp> {
                if h == 0 {
                    Some(decimal($empty))
                } else {
                    Self::node(h, None, None)
                }
            }
            fn fake() -> Fp {
                7u64.into()
            }
        }
    };
}
poseidon!(Legacy, "Poseidon legacy", "legacy", MinaPoseidonMerkleHasherLegacy, MinaPoseidonMerkleMergerLegacy, "14604874247461951431777712543359658136906556694369689076707549712589474483312");
poseidon!(Kimchi, "Poseidon kimchi", "kimchi", MinaPoseidonMerkleHasher, MinaPoseidonMerkleMerger, "9572980593872981109373931329129826339992116007886182568766828232902813999143");

// ---- the two kinds of trees

pub trait Kind<W: World>: MerkleTree<Item = Leaf, Hash = W::H> + Sized {
    const NAME: &'static str;
    fn create(h: u32) -> Self;
    fn proof(&mut self, i: usize) -> Option<DefaultMerkleProof<Leaf, W::H, W::Hasher, W::Merger>>;
    /// The height of the tree with `n` leaves created with height `h`.
    fn expected_height(h: u32, n: usize) -> u32;
}
pub fn levels(n: usize) -> u32 {
    let mut h = 0;
    while (1usize << h) < n {
        h += 1;
    }
    h
}
pub type Fixed<W> = MinaMerkleTree<Leaf, <W as World>::H, <W as World>::Hasher, <W as World>::Merger, FixedHeightMode>;
pub type Variable<W> = MinaMerkleTree<Leaf, <W as World>::H, <W as World>::Hasher, <W as World>::Merger, VariableHeightMode>;
impl<W: World> Kind<W> for Fixed<W> {
    const NAME: &'static str = "fixed height";
    fn create(h: u32) -> Self {
        Fixed::<W>::new(h)
    }
    fn proof(&mut self, i: usize) -> Option<DefaultMerkleProof<Leaf, W::H, W::Hasher, W::Merger>> {
        self.get_proof(i)
    }
    fn expected_height(h: u32, _: usize) -> u32 {
        h
    }
}
impl<W: World> Kind<W> for Variable<W> {
    const NAME: &'static str = "variable height";
    fn create(h: u32) -> Self {
        if h % 2 == 0 {
            Variable::<W>::new()
        } else {
            Variable::<W>::with_capacity(h as usize)
        }
    }
    fn proof(&mut self, i: usize) -> Option<DefaultMerkleProof<Leaf, W::H, W::Hasher, W::Merger>> {
        self.get_proof(i)
    }
    fn expected_height(_: u32, n: usize) -> u32 {
        levels(n)
    }
}
