//! C26: packing of chunked random oracle inputs.
use crate::vals::{big, P};
use mc_core::*;
use num::BigUint;
use proof_systems::mina_hasher::{Fp, ROInput};
use proof_systems::*;

const BITS: u32 = 255;

fn fp(v: &BigUint) -> Fp {
    Fp::from(ark_ff::BigInteger256::try_from(v.clone()).unwrap())
}

fn mask(n: u32) -> BigUint {
    (BigUint::from(1u32) << n as usize) - 1u32
}

/// Fields first; then the chunks, each put below those before it as long as all fit into less
/// than 255 bits.
pub fn reference(fields: &[BigUint], chunks: &[(BigUint, u32)]) -> Vec<BigUint> {
    let mut out = fields.to_vec();
    let mut open: Vec<&(BigUint, u32)> = vec![];
    let close = |open: &[&(BigUint, u32)]| open.iter().fold(BigUint::from(0u32), |s, (v, n)| (s << *n as usize) + v);
    for c in chunks {
        if open.iter().map(|(_, n)| n).sum::<u32>() + c.1 >= BITS {
            out.push(close(&open));
            open.clear();
        }
        open.push(c);
    }
    if open.iter().any(|(_, n)| *n > 0) {
        out.push(close(&open));
    }
    out
}

fn run(ctx: &Ctx, fields: &[BigUint], chunks: &[(BigUint, u32)]) {
    let say = || format!("fields {fields:?}, chunks (value, bits) {chunks:?}");
    let want = reference(fields, chunks);
    let got = guarded(&say, || {
        let mut i = ChunkedROInput::new();
        // fields and chunks may come in any order
        for k in 0..fields.len().max(chunks.len()) {
            if let Some(c) = chunks.get(k) {
                i = i.append_packed(fp(&c.0), c.1);
            }
            if let Some(f) = fields.get(k) {
                i = i.append_field(fp(f));
            }
        }
        let roi: ROInput = i.clone().into();
        (i.into_fields().into_iter().map(big).collect::<Vec<_>>(), roi.to_fields().into_iter().map(big).collect::<Vec<_>>())
    });
    ctx.check(got == Outcome::Done((want.clone(), want.clone())), || format!("{}: {got:?}, expected {want:?}", say()));
}

pub fn c26(ctx: &Ctx) {
    let depth = if ctx.thorough() { 7 } else { 5 };
    ctx.bound(format!("all sequences of up to {depth} chunks over 12 widths with all bits set or one bit set; runs of up to 600 chunks of each width from 1 to 254 bits; 0 to 3 fields; all appends of scalars over significant values; all byte strings of up to 2 bytes"));
    ctx.assume("chunk values fit their width, as every caller's do");
    let widths = [1, 2, 8, 31, 32, 64, 63, 126, 127, 128, 190, 254];
    par_for(ctx, widths.len() * widths.len(), |job| {
        let _e = ctx.enter(|| format!("chunk sequences starting {job}"));
        let mut n = 0;
        for len in 2..=depth {
            for code in 0..widths.len().pow(len - 2) {
                let mut ws = vec![widths[job % 12], widths[job / 12]];
                for k in 0..len - 2 {
                    ws.push(widths[code / 12usize.pow(k) % 12]);
                }
                let full: Vec<_> = ws.iter().map(|w| (mask(*w), *w)).collect();
                run(ctx, &[], &full);
                n += 1;
                if len < 5 {
                    for hot in 0..ws.len() {
                        for low in [true, false] {
                            let one: Vec<_> = ws.iter().enumerate().map(|(k, w)| (if k != hot { 0u32.into() } else if low { 1u32.into() } else { BigUint::from(1u32) << (*w - 1) as usize }, *w)).collect();
                            run(ctx, &[7u32.into()], &one);
                            n += 1;
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        ctx.add(n, n * depth as u64, n);
    });
    par_for(ctx, 254, |w| {
        let w = w as u32 + 1;
        let limit = if ctx.thorough() { 600 } else { 600 / w as usize + 40 };
        for len in 0..limit {
            let v: Vec<_> = (0..len).map(|k| ((BigUint::from(k as u32) * 0x9e37_79b9u32 + k as u32) & mask(w), w)).collect();
            let fields: Vec<BigUint> = (0..len % 4).map(|k| P.parse::<BigUint>().unwrap() - k as u32 - 1u32).collect();
            run(ctx, &fields, &v);
        }
        ctx.add(limit as u64, limit as u64, limit as u64);
    });
    scalars(ctx);
    bits(ctx);
    ctx.sample(|| format!("chunks (3,2 bits) (1,1 bit) (2^254-1,254 bits): {:?}", reference(&[], &[(3u32.into(), 2), (1u32.into(), 1), (mask(254), 254)])));
}

fn same(ctx: &Ctx, say: &str, got: Outcome<ChunkedROInput>, fields: &[BigUint], chunks: &[(BigUint, u32)]) {
    ctx.add(1, 1, 1);
    let got = got.done().map(|g| (g.fields.into_iter().map(big).collect::<Vec<_>>(), g.packed.into_iter().map(|(f, n)| (big(f), n)).collect::<Vec<_>>()));
    ctx.check(got.as_ref().map(|(f, p)| f == fields && p == chunks) == Some(true), || format!("{say}: {got:?}, expected {fields:?} {chunks:?}"));
}

fn scalars(ctx: &Ctx) {
    for k in 0..64u32 {
        for d in [0u64, 1, u64::MAX] {
            let v = (1u64 << k).wrapping_add(d);
            same(ctx, &format!("append_u64({v})"), guarded(&|| format!("append_u64({v})"), || ChunkedROInput::new().append_u64(v)), &[], &[(v.into(), 64)]);
            let w = v as u32;
            same(ctx, &format!("append_u32({w})"), guarded(&|| format!("append_u32({w})"), || ChunkedROInput::new().append_u32(w)), &[], &[(w.into(), 32)]);
        }
    }
    for b in [false, true] {
        same(ctx, &format!("append_bool({b})"), guarded(&|| format!("append_bool({b})"), || ChunkedROInput::new().append_bool(b)), &[], &[((b as u32).into(), 1)]);
    }
    let bits = |bytes: &[u8]| -> Vec<(BigUint, u32)> { bytes.iter().flat_map(|b| (0..8).map(move |i| ((*b as u32 >> i & 1).into(), 1))).collect() };
    for a in 0..=255u8 {
        same(ctx, &format!("append_bytes([{a}])"), guarded(&|| format!("append_bytes([{a}])"), || ChunkedROInput::new().append_bytes(&[a])), &[], &bits(&[a]));
        for b in 0..=255u8 {
            same(ctx, &format!("append_bytes([{a}, {b}])"), guarded(&|| format!("append_bytes([{a}, {b}])"), || ChunkedROInput::new().append_bytes(&[a, b])), &[], &bits(&[a, b]));
        }
    }
    for n in 0..70usize {
        let v: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        same(ctx, &format!("append_bytes of {n} bytes"), guarded(&|| format!("append_bytes of {n} bytes"), || ChunkedROInput::new().append_bytes(&v)), &[], &bits(&v));
    }
    // appending inputs to each other keeps all parts in order
    let part = |k: u32| -> ChunkedROInput { ChunkedROInput::new().append_field(Fp::from(k as u64)).append_packed(Fp::from(k as u64 + 100), 20 + k).append_field(Fp::from(k as u64 + 1000)) };
    for code in 0..5u32.pow(4) {
        let ks: Vec<u32> = (0..4).map(|i| code / 5u32.pow(i) % 5).filter(|k| *k > 0).collect();
        let got = guarded(&|| format!("parts {ks:?}"), || ks.iter().fold(ChunkedROInput::new(), |a, k| a.append(part(*k))));
        let fields: Vec<BigUint> = ks.iter().flat_map(|k| [(*k).into(), (k + 1000).into()]).collect();
        let chunks: Vec<(BigUint, u32)> = ks.iter().map(|k| ((k + 100).into(), 20 + k)).collect();
        same(ctx, &format!("parts {ks:?}"), got, &fields, &chunks);
    }
}

/// Bits, lowest first, as a number: the number if there are no more than 255 and it is a field
/// element, else an error.
pub fn bits(ctx: &Ctx) {
    use proof_systems::bitvec::prelude::BitVec;
    let p: BigUint = P.parse().unwrap();
    let mut values: Vec<BigUint> = vec![0u32.into(), p.clone(), &p - 1u32, &p + 1u32, mask(255), mask(256), mask(254)];
    values.extend((0..258usize).map(|k| BigUint::from(1u32) << k));
    for v in values {
        for n in 0..=258u64 {
            if v.bits() > n {
                continue;
            }
            let say = || format!("bits_to_fp of {v} in {n} bits");
            let got = guarded(&say, || {
                let mut b = BitVec::with_capacity(n as usize);
                (0..n).for_each(|i| b.push(v.bit(i)));
                ChunkedROInput::bits_to_fp(b).ok().map(big)
            });
            let want = if n <= 255 && v < p { Some(v.clone()) } else { None };
            ctx.add(1, n, 1);
            ctx.check(got == Outcome::Done(want.clone()), || format!("{}: {got:?}, expected {want:?}", say()));
        }
    }
}
