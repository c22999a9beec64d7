//! Values of the members of a structure, chosen by a vector of choices: a builder asks for the
//! members one by one; the choices are then varied one, two or three at a time.
use mc_core::*;
use num::BigUint;
use proof_systems::mina_hasher::Fp;
use proof_systems::mina_signer::CompressedPubKey;
use std::sync::Mutex;

pub const P: &str = "28948022309329048855892746252171976963363056481941560715954676764349967630337";

pub fn big(f: Fp) -> BigUint {
    let b: ark_ff::BigInteger256 = f.into();
    b.into()
}

pub fn le32(v: &BigUint) -> [u8; 32] {
    let mut o = [0; 32];
    let b = v.to_bytes_le();
    o[..b.len()].copy_from_slice(&b);
    o
}

pub struct Vals<'a> {
    choices: &'a [u8],
    used: usize,
    /// how many alternatives each member has
    pub arity: Vec<u8>,
}

/// Distinct for every member and choice.
fn mix(i: usize, c: usize, k: u64) -> u64 {
    let mut x = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (c as u64 + 3).wrapping_mul(0xd134_2543_de82_ef95) ^ k.wrapping_mul(0xa076_1d64_78bd_642f);
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^ x >> 29
}

impl<'a> Vals<'a> {
    pub fn new(choices: &'a [u8]) -> Self {
        Vals { choices, used: 0, arity: vec![] }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        let c = self.choices.get(self.used).copied().unwrap_or(0) as usize % n;
        self.used += 1;
        self.arity.push(n as u8);
        c
    }
    fn num(&mut self, bits: u32) -> u64 {
        let i = self.used;
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        match self.pick(5) {
            0 => mix(i, 0, 1) & max,
            1 => 0,
            2 => max,
            3 => 1,
            _ => 1 << (bits - 1),
        }
    }
    pub fn u32(&mut self) -> u32 {
        self.num(32) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.num(64)
    }
    pub fn u8(&mut self) -> u8 {
        self.num(8) as u8
    }
    pub fn bool(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// A field element.
    pub fn fp(&mut self) -> BigUint {
        let i = self.used;
        match self.pick(5) {
            0 => BigUint::from_bytes_le(&(0..31).map(|k| mix(i, 0, k) as u8).collect::<Vec<_>>()),
            1 => 0u32.into(),
            2 => P.parse::<BigUint>().unwrap() - 1u32,
            3 => 1u32.into(),
            _ => BigUint::from_bytes_le(&(0..31).map(|k| mix(i, 4, k) as u8).collect::<Vec<_>>()),
        }
    }
    pub fn hash(&mut self) -> [u8; 32] {
        le32(&self.fp())
    }
    /// 32 bytes, not of a field element.
    pub fn bytes(&mut self) -> [u8; 32] {
        let i = self.used;
        let mut o = [0; 32];
        let c = self.pick(5);
        for (k, b) in o.iter_mut().enumerate() {
            *b = match c {
                0 => mix(i, 0, k as u64) as u8,
                1 => 0,
                2 => 0xff,
                3 => (k == 31) as u8,
                _ => (k == 0) as u8 * 0x80,
            };
        }
        o
    }
    pub fn key(&mut self) -> CompressedPubKey {
        let x = self.fp();
        CompressedPubKey { x: Fp::from(ark_ff::BigInteger256::try_from(x).unwrap()), is_odd: self.bool() }
    }
}

/// Calls `f` with all choice vectors in which at most `k` members differ from a base vector, for
/// every base vector in which all members have the same choice.
pub fn vary(ctx: &Ctx, name: &str, arity: &[u8], k: usize, f: impl Fn(&[u8]) + Sync) {
    let bases = *arity.iter().max().unwrap_or(&1) as usize;
    let n = arity.len();
    par_for(ctx, bases * (n + 1), |job| {
        let _e = ctx.enter(|| format!("{name}, job {job}"));
        let base: Vec<u8> = arity.iter().map(|a| (job % bases) as u8 % a).collect();
        let first = job / bases;
        let mut count = 0;
        if first == n {
            f(&base);
            count += 1;
        } else {
            // the first member that differs is `first`
            let mut v = base.clone();
            rec(&mut v, &base, arity, first, k, &mut |v| {
                count += 1;
                f(v)
            });
        }
        ctx.add(count, count, count);
    });
}

fn rec(v: &mut Vec<u8>, base: &[u8], arity: &[u8], at: usize, k: usize, f: &mut dyn FnMut(&[u8])) {
    if k == 0 {
        return;
    }
    for c in 0..arity[at] {
        if c == base[at] {
            continue;
        }
        v[at] = c;
        f(v);
        for next in at + 1..v.len() {
            rec(v, base, arity, next, k - 1, f);
        }
    }
    v[at] = base[at];
}

/// Tells whether two different things were ever given the same name.
pub struct Distinct(Vec<Mutex<std::collections::HashMap<[u8; 32], Vec<u8>>>>);

impl Distinct {
    pub fn new() -> Self {
        Distinct((0..64).map(|_| Default::default()).collect())
    }
    /// The other thing that has this name, if any.
    pub fn clash(&self, name: &[u8], thing: &[u8]) -> Option<Vec<u8>> {
        let h = hashes::sha256(name);
        let mut m = self.0[h[0] as usize % 64].lock().unwrap();
        match m.get(&h) {
            Some(t) if t != thing => Some(t.clone()),
            Some(_) => None,
            None => {
                m.insert(h, thing.to_vec());
                None
            }
        }
    }
}
