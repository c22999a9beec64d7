use crate::world::*;
use ark_ff::{BigInteger256, PrimeField};
use mc_core::*;
use mina_hasher::Fp;
use mina_merkle::*;
use num::BigUint;
use proof_systems::{fp_from_radix_10, FpJson};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Node {
    Left,
    Right,
    Both,
    Neither,
}
use Node::*;

fn hash_at(k: usize) -> Fp {
    (1000 + k as u64).into()
}

/// The root by definition: node k of the path, counted from the leaf, is at height k + 1.
fn fold<W: World<H = Fp>>(nodes: &[Node]) -> (Fp, usize) {
    let mut h = W::leaf(5);
    let mut index = 0usize;
    for (k, n) in nodes.iter().enumerate() {
        let (l, r) = if *n == Left { (h, hash_at(k)) } else { (hash_at(k), h) };
        index += ((*n == Right) as usize) << k;
        h = W::node(k as u32 + 1, Some(l), Some(r)).unwrap();
    }
    (h, ((1u128 << nodes.len()) - 1) as usize + index)
}

fn path<W: World<H = Fp>>(ctx: &Ctx, nodes: &[Node]) {
    let desc = || format!("{}: path {nodes:?}", W::NAME);
    let p = MerklePath(
        nodes
            .iter()
            .enumerate()
            .map(|(k, n)| MerklePathNode {
                left: matches!(n, Left | Both).then(|| FpJson(hash_at(k))),
                right: matches!(n, Right | Both).then(|| FpJson(hash_at(k))),
            })
            .collect(),
    );
    let r = guarded(&desc, || {
        let text = serde_json::to_string(&p).map_err(|e| e.to_string());
        let back: Result<MerklePath, String> = text.clone().and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string()));
        if back.as_ref() != Ok(&p) {
            return Err(format!("JSON {text:?} reads back as {back:?}"));
        }
        Ok(p.to_proof::<Leaf, W::Hasher, W::Merger>(Leaf(5)).ok().map(|q| (q.root_hash().ok(), q.index, q.peer_indices.len(), q.peer_hashes.clone())))
    });
    ctx.add(1, nodes.len() as u64 + 1, 1);
    let valid = !nodes.is_empty() && nodes.len() < 64 && nodes.iter().all(|n| matches!(n, Left | Right));
    let want = valid.then(|| {
        let (root, index) = fold::<W>(nodes);
        (Some(root), index, nodes.len(), (0..nodes.len()).map(|k| Some(hash_at(k))).collect::<Vec<_>>())
    });
    ctx.check(r == Outcome::Done(Ok(want.clone())), || format!("{}: (root, index, peers, hashes) {r:?}, expected {want:?}", desc()));
}

fn fp(ctx: &Ctx, s: &str) {
    let modulus: BigUint = BigUint::parse_bytes(b"28948022309329048855892746252171976963363056481941560715954676764349967630337", 10).unwrap();
    let plain = !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    let value = if plain { BigUint::parse_bytes(s.as_bytes(), 10).filter(|v| *v < modulus) } else { None };
    let big = |f: Fp| -> BigUint {
        let b: BigInteger256 = f.into();
        b.into()
    };
    let a = guarded(&|| format!("fp_from_radix_10({s:?})"), || fp_from_radix_10(s).ok().map(big));
    let text = serde_json::to_string(s).unwrap();
    let b = guarded(&|| format!("FpJson from {text}"), || serde_json::from_str::<FpJson>(&text).ok().map(|f| (big(f.0), serde_json::to_string(&f).unwrap())));
    ctx.add(1, 2, 2);
    let canonical = value.as_ref().map(|v| (v.clone(), format!("\"{v}\"")));
    // other spellings may or may not be numbers; they must not make the process fail
    let ok = if plain { a == Outcome::Done(value.clone()) && b == Outcome::Done(canonical) } else { !matches!(a, Outcome::Panic(_)) && !matches!(b, Outcome::Panic(_)) };
    ctx.check(ok, || format!("{s:?}: fp_from_radix_10 gives {a:?}, FpJson {b:?}, expected {value:?}"));
}

pub fn c23(ctx: &Ctx) {
    let len = if ctx.thorough() { 9 } else { 7 };
    ctx.bound(format!("all paths of up to {len} nodes, each with a left hash, a right hash, both or none; paths of up to 70 nodes in which at most two nodes differ in kind from the others; decimal numbers around 0, the field modulus and all powers of two and ten up to 2^300, and other texts"));
    ctx.assume("Poseidon is replaced by an ideal hash");
    const KINDS: [Node; 4] = [Left, Right, Both, Neither];
    for n in 0..=len as u32 {
        let total = 4usize.pow(n);
        par_for(ctx, total, |mut c| {
            let nodes: Vec<Node> = (0..n)
                .map(|_| {
                    let k = KINDS[c % 4];
                    c /= 4;
                    k
                })
                .collect();
            path::<Kimchi>(ctx, &nodes);
            if n < 6 {
                path::<Legacy>(ctx, &nodes);
            }
        });
    }
    par_for(ctx, 71, |n| {
        let _e = ctx.enter(|| format!("paths of {n} nodes"));
        for base in [Left, Right] {
            let all = vec![base; n];
            path::<Kimchi>(ctx, &all);
            path::<Kimchi>(ctx, &(0..n).map(|i| if (i % 2 == 0) == (base == Left) { Left } else { Right }).collect::<Vec<_>>());
            for i in 0..n {
                for k in KINDS {
                    let mut v = all.clone();
                    v[i] = k;
                    path::<Kimchi>(ctx, &v);
                    if n > 60 && n < 66 || ctx.thorough() && n < 30 {
                        for j in 0..i {
                            v[j] = Left;
                            path::<Kimchi>(ctx, &v);
                            v[j] = Right;
                            path::<Kimchi>(ctx, &v);
                            v[j] = base;
                        }
                    }
                }
            }
        }
    });
    let modulus = BigUint::from_slice(&[1, 0x992d30ed, 0x094cf91b, 0x224698fc, 0, 0, 0, 0x40000000]);
    let _: BigInteger256 = modulus.clone().try_into().unwrap();
    debug_assert!(Fp::from_repr(modulus.clone().try_into().unwrap()).is_none());
    let mut mids = vec![modulus.clone(), &modulus * 2u32, &modulus * 3u32];
    for k in 0..=300u32 {
        mids.push(BigUint::from(1u32) << k as usize);
        mids.push(BigUint::from(10u32).pow(k));
    }
    for m in mids {
        for d in 0..=200u32 {
            fp(ctx, &(&m + d).to_string());
            if m >= BigUint::from(d) {
                fp(ctx, &(&m - d).to_string());
            }
        }
        fp(ctx, &format!("000{m}"));
        fp(ctx, &format!("-{m}"));
        fp(ctx, &format!("+{m}"));
    }
    for s in ["", " ", "-", "+", "a", "0x1", "1 ", " 1", "1_0", "_", "1.0", "1e3", "NaN", "\u{0661}", "\u{0}", "-0"] {
        fp(ctx, s);
    }
    for j in ["null", "1", "-1", "{}", "[]", "true", "[1]", "1.5"] {
        let r = guarded(&|| format!("FpJson from {j}"), || serde_json::from_str::<FpJson>(j).is_ok());
        ctx.add(1, 1, 1);
        ctx.check(r == Outcome::Done(false), || format!("FpJson from {j}: {r:?}"));
    }
    ctx.sample(|| format!("path [Left, Right]: (root, index) = {:?}", fold::<Kimchi>(&[Left, Right])));
}
