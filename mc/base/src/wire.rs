//! C35: bytes received as a block.
use crate::leaves::*;
use crate::vals::{le32, P};
use mc_core::*;
use mina_rs_base::protocol_state::ProtocolStateHeader;
use mina_rs_base::types::*;
use mina_rs_base::verifiable::Verifiable;
use mina_rs_base::BinProtSerializationType;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::ExternalTransitionV1;
use num::BigUint;
use proof_systems::mina_signer::{self, NetworkId};

fn encode(v: &ExternalTransitionV1) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    bin_prot::to_writer(&mut b, v).map_err(|e| e.to_string())?;
    Ok(b)
}

/// What bytes are taken for.
fn taken(ctx: &Ctx, bytes: &[u8], what: &dyn Fn() -> String) -> Option<ExternalTransitionV1> {
    let r = guarded(what, || {
        alloc::with_cap(64 * bytes.len() + (1 << 20), || bin_prot::from_reader_strict::<_, ExternalTransitionV1>(bytes)).map_err(|e| e.to_string())
    });
    match r {
        Outcome::Done(r) => r.ok(),
        Outcome::Panic(p) => {
            ctx.violate(|| format!("{}: {p}", what()));
            None
        }
    }
}

/// Bytes are refused, or they are the bytes of what they are taken for, but for numbers written
/// longer than they need be.
fn judge(ctx: &Ctx, bytes: &[u8], what: &dyn Fn() -> String) -> bool {
    let Some(v) = taken(ctx, bytes, what) else { return false };
    match encode(&v) {
        Err(e) => ctx.violate(|| format!("{}: read, but not written: {e}", what())),
        Ok(b) if b == bytes => (),
        Ok(b) => {
            ctx.check(b.len() < bytes.len(), || {
                let i = b.iter().zip(bytes).position(|(a, b)| a != b).unwrap_or(0);
                format!("{}: read as the block of other bytes ({} and {}), from {i} on: {:x?}, not {:x?}", what(), b.len(), bytes.len(), &b[i.saturating_sub(4)..b.len().min(i + 12)], &bytes[i.saturating_sub(4)..bytes.len().min(i + 12)])
            });
            let again = taken(ctx, &b, what);
            ctx.check(again.as_ref() == Some(&v), || format!("{}: what is read is written as another block", what()));
        }
    }
    true
}

/// Whatever was received can be handled.
fn handled(ctx: &Ctx, bytes: &[u8], hash: bool, what: &dyn Fn() -> String) -> bool {
    let r = guarded(what, || {
        let own = ExternalTransition::try_from_binprot(bytes).map_err(|e| e.to_string())?;
        let mut signing = mina_signer::create_legacy(NetworkId::MAINNET);
        let valid = own.verify(&mut signing);
        let json = ExternalTransitionJson::from(own.clone());
        let _ = serde_json::to_value(&json);
        let back: ExternalTransition = json.into();
        let same = back.protocol_state == own.protocol_state && back.staged_ledger_diff == own.staged_ledger_diff;
        if !same {
            return Err("differs when made into JSON and back".to_string());
        }
        Ok::<_, String>(valid)
    });
    match &r {
        Outcome::Panic(p) => ctx.violate(|| format!("{}: {p}", what())),
        Outcome::Done(Err(e)) if e.starts_with("differs") => ctx.violate(|| format!("{}: {e}", what())),
        Outcome::Done(Ok(_)) if hash => {
            let own = ExternalTransition::try_from_binprot(bytes).unwrap();
            let h = guarded(what, || own.protocol_state.state_hash_fp());
            if let Outcome::Panic(p) = h {
                if !ctx.known_finding("hash-not-a-field-element", || format!("{}: its state hash panics", what())) {
                    ctx.violate(|| format!("{}: {p}", what()));
                }
            }
        }
        _ => (),
    }
    matches!(r, Outcome::Done(Ok(_)))
}

/// The members of 32 bytes, by their content, which is unlike any other.
fn groups(leaves: &[(Path, Leaf)]) -> Vec<(Path, Vec<u8>)> {
    let mut out: Vec<(Path, Vec<u8>)> = vec![];
    for (p, l) in leaves {
        if let (Some(Part::Of(i, 32)), Leaf::Uint(b, 8)) = (p.last(), l) {
            if *i == 0 {
                out.push((p[..p.len() - 1].to_vec(), vec![]));
            }
            out.last_mut().unwrap().1.push(*b as u8);
        }
    }
    out.retain(|(_, b)| b.len() == 32);
    out
}

fn beyond(ctx: &Ctx, bytes: &[u8], leaves: &[(Path, Leaf)]) {
    let p: BigUint = P.parse().unwrap();
    let all = groups(leaves);
    par_for(ctx, all.len(), |i| {
        let (path, content) = &all[i];
        let _e = ctx.enter(|| format!("a block with another value at {}", show(path)));
        let at: Vec<usize> = (0..bytes.len() - 31).filter(|i| bytes[*i..i + 32] == content[..]).collect();
        for n in [BigUint::from(0u32), BigUint::from(1u32), &p - 1u32, p.clone(), &p + 1u32, &p * 2u32, &p * 3u32, BigUint::from(1u32) << 255, (BigUint::from(1u32) << 256) - 1u32] {
            for at in &at {
                let mut b = bytes.to_vec();
                b[*at..at + 32].copy_from_slice(&le32(&n));
                let what = || format!("a block with {n} at {} (byte {at})", show(path));
                let taken = judge(ctx, &b, &what);
                let name = path.iter().find_map(|c| match c {
                    Part::Name("protocol_state") => Some(true),
                    Part::Name("staged_ledger_diff" | "protocol_state_proof" | "delta_transition_chain_proof") => Some(false),
                    _ => None,
                });
                let used = handled(ctx, &b, name == Some(true), &what);
                ctx.check(used == taken, || format!("{}: taken: {taken}, usable: {used}", what()));
                ctx.check(n >= p || taken, || format!("{}: is refused", what()));
                ctx.add(1, 2, 2);
            }
        }
    });
    ctx.bound(format!("{} members of 32 bytes: 9 values around 0, the modulus, and 2^256", all.len()));
}

fn alterations(ctx: &Ctx, bytes: &[u8], deep: bool) {
    let n = bytes.len();
    // one byte another
    par_for(ctx, n, |i| {
        let _e = ctx.enter(|| format!("a block of {n} bytes, byte {i} changed"));
        let old = bytes[i];
        let some = [0u8, 1, 2, 3, 0x7e, 0x7f, 0x80, 0x81, 0xf7, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, old ^ 1, old ^ 0x80, old.wrapping_add(1), old.wrapping_sub(1)];
        let mut with: Vec<u8> = if deep { (0..=255).collect() } else { some.to_vec() };
        with.sort();
        with.dedup();
        let (mut cases, mut ok) = (0, 0);
        let mut b = bytes.to_vec();
        for v in with {
            if v == old {
                continue;
            }
            b[i] = v;
            cases += 1;
            let what = || format!("a block of {n} bytes with byte {i} {v:#x}, not {old:#x}");
            if judge(ctx, &b, &what) {
                ok += 1;
                if v & 7 == 7 || deep && v & 1 == 1 {
                    handled(ctx, &b, false, &what);
                }
            }
        }
        ctx.add(cases, cases + ok, cases);
        ctx.outcomes_n("altered byte, still a block", ok);
        ctx.outcomes_n("altered byte, refused", cases - ok);
    });
    // cut short, or longer
    par_for(ctx, n, |i| {
        let _e = ctx.enter(|| format!("a block of {n} bytes, cut after {i}"));
        let what = || format!("a block of {n} bytes cut after {i}");
        let read = taken(ctx, &bytes[..i], &what);
        ctx.check(read.is_none(), || format!("{}: is read", what()));
        let own = guarded(&what, || ExternalTransition::try_from_binprot(&bytes[..i]).is_err());
        ctx.check(own == Outcome::Done(true), || format!("{}: {own:?}", what()));
        // one byte missing, one byte more
        let mut b = bytes.to_vec();
        b.remove(i);
        judge(ctx, &b, &|| format!("a block of {n} bytes without byte {i}"));
        for v in if deep { vec![0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, bytes[i]] } else { vec![1, 0xfe] } {
            let mut b = bytes.to_vec();
            b.insert(i, v);
            judge(ctx, &b, &|| format!("a block of {n} bytes with {v:#x} before byte {i}"));
            ctx.add(1, 1, 1);
        }
        ctx.add(2, 2, 2);
    });
    for v in 0..=255u8 {
        let mut b = bytes.to_vec();
        b.push(v);
        let what = || format!("a block of {n} bytes and {v:#x} after it");
        let read = taken(ctx, &b, &what);
        ctx.check(read.is_none(), || format!("{}: is read", what()));
        ctx.add(1, 1, 1);
    }
    // lengths that are claimed
    if deep {
        par_for(ctx, n, |i| {
            let _e = ctx.enter(|| format!("a block of {n} bytes, a long number at {i}"));
            for head in [&[0xfe, 0xff, 0xff][..], &[0xfd, 0xff, 0xff, 0xff, 0x7f], &[0xfd, 0xff, 0xff, 0xff, 0xff], &[0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], &[0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]] {
                let b = [&bytes[..i], head, &bytes[i + 1..]].concat();
                judge(ctx, &b, &|| format!("a block of {n} bytes with {head:x?} for byte {i}"));
                ctx.add(1, 1, 1);
            }
        });
    }
}

pub fn c35(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.bound("one block with an element in each list (thorough: also one whose lists are empty): every byte changed to 16 (thorough: all) values, removed, preceded by others; every prefix; every byte after the end; thorough: long numbers in place of every byte");
    // numbers that can be read back (see C03), and the values of the fields
    let (_, leaves) = build::<ExternalTransitionV1>(&Map::new(), 1).unwrap();
    let mut m = Map::new();
    for (p, l) in &leaves {
        if let Leaf::Uint(n, 64) = l {
            m.insert(p.clone(), Leaf::Uint(n >> 1, 64));
        }
    }
    let (v, leaves) = build::<ExternalTransitionV1>(&m, 1).unwrap();
    let bytes = encode(&v).unwrap();
    let what = || "the block itself".to_string();
    ctx.check(taken(ctx, &bytes, &what).as_ref() == Some(&v), || "the block itself is not read from its bytes".into());
    ctx.check(handled(ctx, &bytes, true, &what), || "the block itself is not usable".into());
    beyond(ctx, &bytes, &leaves);
    alterations(ctx, &bytes, deep);
    if deep {
        let (v, _) = build::<ExternalTransitionV1>(&m, 0).unwrap();
        alterations(ctx, &encode(&v).unwrap(), deep);
    }
}
