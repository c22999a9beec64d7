//! C41: the elements and points of a proof, from text and to the prover.
use ark_ec::models::ModelParameters;
use ark_ec::short_weierstrass_jacobian::GroupAffine;
use ark_ff::{BigInteger256, PrimeField};
use mc_core::*;
use mina_crypto::prelude::*;
use mina_rs_base::protocol_state_proof::*;
use mina_rs_base::types::*;
use num::BigUint;
use proof_systems::mina_curves::pasta::{Fp, Fq};
use std::fmt::Debug;

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match mc_core::guarded(&|| "elements of a proof".into(), f) {
        Outcome::Done(t) => Ok(t),
        Outcome::Panic(m) => Err(format!("panics: {m}")),
    }
}

/// A base field that keeps the integer it was made of.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct Kept(BigInteger256);
impl From<BigInteger256> for Kept {
    fn from(v: BigInteger256) -> Self {
        Kept(v)
    }
}

trait Base: Copy + Default + Debug + PartialEq + Eq + From<BigInteger256> + Send + Sync + 'static {
    const NAME: &'static str;
    /// the number, and whether this field has it
    fn number(&self) -> BigUint;
    fn has(n: &BigUint) -> bool;
}
impl Base for Kept {
    const NAME: &'static str = "all 256-bit integers";
    fn number(&self) -> BigUint {
        self.0.into()
    }
    fn has(_: &BigUint) -> bool {
        true
    }
}
impl Base for Fp {
    const NAME: &'static str = "Fp";
    fn number(&self) -> BigUint {
        self.into_repr().into()
    }
    fn has(n: &BigUint) -> bool {
        *n < modulus("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
    }
}
impl Base for Fq {
    const NAME: &'static str = "Fq";
    fn number(&self) -> BigUint {
        self.into_repr().into()
    }
    fn has(n: &BigUint) -> bool {
        *n < modulus("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
    }
}
fn modulus(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

struct Curve<F>(std::marker::PhantomData<F>);
impl<F: Base> ModelParameters for Curve<F> {
    type BaseField = F;
    type ScalarField = F;
}
impl<F: Base> ark_ec::SWModelParameters for Curve<F> {}
type Affine<F> = GroupAffine<Curve<F>>;

/// x, y, and whether it is the point at infinity; coordinates of that point do not matter
type Seen = Option<(BigUint, BigUint)>;
fn seen<F: Base>(p: &Affine<F>) -> Seen {
    if p.infinity {
        None
    } else {
        Some((p.x.number(), p.y.number()))
    }
}

fn elem(n: &BigUint) -> FieldElement {
    let mut b = n.to_bytes_le();
    b.resize(32, 0);
    BigInt256(b.try_into().unwrap())
}

/// Numbers whose bytes all differ, at the ends of each limb, and next to the moduli.
fn numbers() -> Vec<BigUint> {
    let one = BigUint::from(1u8);
    let mut v: Vec<BigUint> = vec![BigUint::from(0u8), one.clone(), BigUint::from_bytes_le(&(1..=32).collect::<Vec<u8>>()), BigUint::from_bytes_le(&(0..32).map(|i| 0xff - i).collect::<Vec<u8>>())];
    for p in ["40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"] {
        let m = modulus(p);
        v.extend([&m - &one, m.clone(), &m + &one]);
    }
    for i in 0..256 {
        v.push(&one << i);
    }
    for i in [64, 128, 192, 255, 256] {
        v.push((&one << i) - &one);
    }
    v.sort();
    v.dedup();
    v
}

fn field<F: Base>(ctx: &Ctx) {
    let all: Vec<BigUint> = numbers().into_iter().filter(F::has).collect();
    let few: Vec<BigUint> = {
        let n = all.len();
        let distinct = BigUint::from_bytes_le(&(0..31).map(|i| 7 * i + 3).collect::<Vec<u8>>());
        vec![all[0].clone(), all[1].clone(), distinct, all[n - 1].clone()]
    };
    let of = |n: &BigUint, m: &BigUint| FiniteECPoint(elem(n), elem(m));
    // single elements and points: each number in each coordinate
    for n in &all {
        let got = guarded(|| F::from(BigInteger256::from(&elem(n))).number());
        ctx.add(1, 1, 1);
        ctx.check(got.as_ref().ok() == Some(n), || format!("{n:x} in {}: {got:?}", F::NAME));
        for m in &few {
            for (x, y) in [(n, m), (m, n)] {
                let p = of(x, y);
                let want: Seen = Some((x.clone(), y.clone()));
                let got = guarded(|| (seen::<F>(&(&p).into()), seen::<F>(&(&ECPoint::Finite(p.clone())).into())));
                ctx.add(1, 2, 1);
                ctx.check(got.as_ref().ok() == Some(&(want.clone(), want.clone())), || format!("the point ({x:x}, {y:x}) over {}: {got:?}", F::NAME));
            }
        }
    }
    let got = guarded(|| seen::<F>(&(&ECPoint::Infinite).into()));
    ctx.add(1, 1, 1);
    ctx.check(got == Ok(None), || format!("the point at infinity over {}: {got:?}", F::NAME));
    // vectors: all of up to a length over the few points
    let most = if ctx.thorough() { 7 } else { 5 };
    let points: Vec<(ECPoint, Seen)> = [(0, 1), (1, 0), (2, 3), (3, 3)].iter().map(|&(i, j)| (ECPoint::Finite(of(&few[i], &few[j])), Some((few[i].clone(), few[j].clone())))).chain([(ECPoint::Infinite, None)]).collect();
    for len in 0..=most {
        for code in 0..points.len().pow(len as u32) {
            let ix: Vec<usize> = (0..len).map(|k| code / points.len().pow(k as u32) % points.len()).collect();
            let want: Vec<Seen> = ix.iter().map(|&i| points[i].1.clone()).collect();
            let v = ECPointVec(ix.iter().map(|&i| points[i].0.clone()).collect());
            let got = guarded(|| <Vec<Affine<F>>>::from(&v).iter().map(seen).collect::<Vec<_>>());
            ctx.add(1, len as u64, 1);
            ctx.check(got.as_ref() == Ok(&want), || format!("{v:?} over {}: {got:?}", F::NAME));
            if ix.contains(&4) {
                continue;
            }
            let fin: Vec<FiniteECPoint> = ix.iter().map(|&i| match &points[i].0 { ECPoint::Finite(p) => p.clone(), _ => unreachable!() }).collect();
            let w = FiniteECPointVec(fin.clone());
            let got = guarded(|| <Vec<Affine<F>>>::from(&w).iter().map(seen).collect::<Vec<_>>());
            ctx.add(1, len as u64, 1);
            ctx.check(got.as_ref() == Ok(&want), || format!("{w:?} over {}: {got:?}", F::NAME));
            let e = FieldElementVec(ix.iter().map(|&i| elem(&few[i])).collect());
            let got = guarded(|| <Vec<F>>::from(&e).iter().map(Base::number).collect::<Vec<_>>());
            let want_e: Vec<BigUint> = ix.iter().map(|&i| few[i].clone()).collect();
            ctx.add(1, len as u64, 1);
            ctx.check(got.as_ref() == Ok(&want_e), || format!("{e:?} over {}: {got:?}", F::NAME));
            if len % 2 == 0 {
                let pairs = FiniteECPointPairVec(fin.chunks(2).map(|c| FiniteECPointPair(c[0].clone(), c[1].clone())).collect());
                let got = guarded(|| <Vec<(Affine<F>, Affine<F>)>>::from(&pairs).iter().flat_map(|(a, b)| [seen(a), seen(b)]).collect::<Vec<_>>());
                ctx.add(1, len as u64, 1);
                ctx.check(got.as_ref() == Ok(&want), || format!("{pairs:?} over {}: {got:?}", F::NAME));
            }
        }
    }
    ctx.bound(format!("over {}: {} numbers in either coordinate; all lists of up to {most} of 5 points", F::NAME, all.len()));
}

/// The elements a text stands for: an optional mark, then 64 digits for each.
fn read(t: &[u8]) -> Option<Vec<[u8; 32]>> {
    let t = match t {
        [b'0', b'x', r @ ..] | [b'\\', b'x', r @ ..] => r,
        _ => t,
    };
    if t.len() % 64 != 0 {
        return None;
    }
    let d: Option<Vec<u8>> = t.iter().map(|c| (*c as char).to_digit(16).map(|d| d as u8)).collect();
    Some(d?.chunks(64).map(|c| c.chunks(2).map(|p| p[0] << 4 | p[1]).collect::<Vec<u8>>().try_into().unwrap()).collect())
}

fn texts(ctx: &Ctx) {
    let e = |k: u8| BigInt256((0..32u8).map(|i| (i * 7).wrapping_add(k.wrapping_mul(41)).wrapping_add(5)).collect::<Vec<u8>>().try_into().unwrap());
    let mut n = 0u64;
    let mut judge = |t: &[u8]| {
        n += 1;
        let want = read(t);
        let got = guarded(|| FieldElementVec::try_from_hex(t).ok().map(|v| v.0.into_iter().map(|b| b.0).collect::<Vec<_>>()));
        ctx.add(1, t.len() as u64, 1);
        ctx.outcome(if want.is_some() { "elements" } else { "refused" });
        ctx.check(got.as_ref() == Ok(&want), || format!("{:?} as field elements: {got:?}, expected {want:?}", String::from_utf8_lossy(t)));
        if want.as_ref().map_or(true, |w| w.len() != 1) {
            let got = guarded(|| BigInt256::try_from_hex(t).is_ok());
            ctx.check(got == Ok(false), || format!("{:?} as a field element: {got:?}, expected a refusal", String::from_utf8_lossy(t)));
        }
    };
    let odd = [b'g', b' ', b'x', b'0', b'F', b'\\', 0xff, 0, b'/', b':', b'@', b'G', b'`', b'\n'];
    for len in 0..=if ctx.thorough() { 20 } else { 9u8 } {
        let v = FieldElementVec((0..len).map(e).collect());
        let want: String = v.0.iter().flat_map(|b| b.0).map(|b| format!("{b:02x}")).collect();
        let got = guarded(|| v.to_hex_string());
        ctx.add(1, 1, 1);
        ctx.check(got.as_ref() == Ok(&want), || format!("{v:?} in hexadecimal: {got:?}"));
        let t = want.into_bytes();
        for mark in [&b""[..], b"0x", b"\\x", b"0X", b"x", b"0", b"0x0x", b"\\x0x", b"\\\\x", b" ", b"1x"] {
            let s = [mark, &t].concat();
            judge(&s);
            judge(&s.to_ascii_uppercase());
            for cut in 0..s.len() {
                judge(&s[..cut]);
            }
        }
        for at in 0..=t.len() {
            for c in odd {
                let mut s = t.clone();
                s.insert(at, c);
                judge(&s);
                if at < t.len() {
                    let mut s = t.clone();
                    s[at] = c;
                    judge(&s);
                }
            }
            if at < t.len() {
                let mut s = t.clone();
                s.remove(at);
                judge(&s);
                for m in [&b"0x"[..], b"\\x"] {
                    let s = [&t[..at], m, &t[at..]].concat();
                    judge(&s);
                    if at + 2 <= t.len() {
                        let s = [&t[..at], m, &t[at + 2..]].concat();
                        judge(&s);
                    }
                }
            }
        }
    }
    ctx.bound(format!("{n} texts of field elements: marks, cuts, and each digit changed, removed or preceded by another"));
    // points from two and four texts
    let pool = [format!("0x{}", e(1).to_hex_string()), e(2).to_hex_string(), "\\x".to_string() + &e(3).to_hex_string(), e(4).to_hex_string().to_uppercase(), "00".into(), "0x".to_string() + &"g".repeat(64), String::new()];
    let value = |s: &str| read(s.as_bytes()).filter(|v| v.len() == 1).map(|v| BigInt256(v[0]));
    for a in &pool {
        for b in &pool {
            let want = value(a).and_then(|a| Some(FiniteECPoint(a, value(b)?)));
            let got = guarded(|| mina_rs_base::finite_ec_point!(a, b).ok());
            ctx.add(1, 2, 1);
            ctx.check(got.as_ref() == Ok(&want), || format!("the point of {a:?} and {b:?}: {got:?}"));
            for c in &pool {
                for d in &pool {
                    let want = want.clone().and_then(|p| Some(FiniteECPointPair(p, FiniteECPoint(value(c)?, value(d)?))));
                    let got = guarded(|| mina_rs_base::finite_ec_point_pair!(a, b, c, d).ok());
                    ctx.add(1, 4, 1);
                    ctx.check(got.as_ref() == Ok(&want), || format!("the points of {a:?}, {b:?}, {c:?}, {d:?}: {got:?}"));
                }
            }
        }
    }
}

macro_rules! each {
    ($t:expr, $($i:tt)*) => { vec![$(&$t.$i),*] };
}

/// Challenges are made of two 64-bit numbers each, in the order given.
fn challenges(ctx: &Ctx) {
    let two = |c: &BulletproofChallenge| match &c.prechallenge {
        BulletproofPreChallenge::ScalarChallenge(ScalarChallengeVector2(a, b, ())) => [a.0, b.0],
    };
    let mut pools: Vec<Vec<i64>> = vec![(0..36).map(|i| i * 1_000_003 + 1).collect(), (0..36).map(|i| if i % 2 == 0 { i64::MIN + i } else { i64::MAX - i }).collect(), vec![0; 36]];
    for at in 0..36 {
        for x in [1, -1, i64::MIN, i64::MAX] {
            let mut v = vec![0; 36];
            v[at] = x;
            pools.push(v);
        }
    }
    for v in &pools {
        let a: [i64; 34] = v[..34].try_into().unwrap();
        let got = guarded(|| {
            let t = BulletproofChallengeTuple17::new(a);
            each!(t, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16).into_iter().flat_map(two).collect::<Vec<i64>>()
        });
        ctx.add(1, 17, 1);
        ctx.check(got.as_deref() == Ok(&a[..]), || format!("17 challenges of {a:?}: {got:?}"));
        let a: [i64; 36] = v[..].try_into().unwrap();
        let got = guarded(|| {
            let t = BulletproofChallengeTuple18::new(a);
            each!(t, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17).into_iter().flat_map(two).collect::<Vec<i64>>()
        });
        ctx.add(1, 18, 1);
        ctx.check(got.as_deref() == Ok(&a[..]), || format!("18 challenges of {a:?}: {got:?}"));
    }
    let pool = [0, 1, -1, 2, i64::MIN, i64::MAX, 0x0123_4567_89ab_cdef];
    for a in pool {
        for b in pool {
            let got = guarded(|| (two(&BulletproofChallenge::new(a, b)), two(&BulletproofChallenge { prechallenge: BulletproofPreChallenge::scalar(a, b) }), { let v = ScalarChallengeVector2::new(a, b); [v.0 .0, v.1 .0] }));
            ctx.add(1, 3, 1);
            ctx.check(got == Ok(([a, b], [a, b], [a, b])), || format!("the challenge of {a} and {b}: {got:?}"));
        }
    }
    ctx.bound(format!("{} lists of 34 and 36 numbers", pools.len()));
}

pub fn c41(ctx: &Ctx) {
    field::<Kept>(ctx);
    field::<Fp>(ctx);
    field::<Fq>(ctx);
    texts(ctx);
    challenges(ctx);
}
