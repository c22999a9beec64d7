//! C05: arbitrary input is answered by a value or an error.
use crate::drive::*;
use crate::dynser::*;
use crate::gen;
use crate::loose::{self, R};
use crate::model::*;
use crate::prefix::walk;
use crate::scalar::clip;
use bin_prot::Value;
use mc_core::*;
use serde::Deserialize;

/// Judge decoding of `b` against the model.
fn judge(ctx: &Ctx, ty: &Ty, b: &[u8]) -> bool {
    let mut c = Cur::new(b);
    let want = decode(ty, &mut c).map(|v| (v, b.len() - c.at));
    let got = dec(ty, b);
    let good = match (&want, &got) {
        (Ok((v, rest)), Outcome::Done(Ok((g, r)))) => v == g && rest == r,
        (Err(_), Outcome::Done(Err(_))) => true,
        _ => false,
    };
    ctx.check(good, || {
        let w = match &want {
            Ok(x) => clip(&format!("(value, bytes left) {x:?}")),
            Err(Stop::Invalid) => "an error (malformed)".into(),
            Err(_) => "an error (incomplete)".into(),
        };
        format!("decode {} from [{}]: {}, expected {w}", show(ty), hex(b), clip(&say(&got)))
    })
}

pub fn c05(ctx: &Ctx) {
    let all = gen::leaves();
    let two = gen::types_of_size(2, &all);
    let few = [Ty::Bool, Ty::Int(Int::I32), Ty::Str];
    let three = gen::types_of_size(3, &few);
    // every short byte string
    let mut small: Vec<(Ty, usize)> = all.iter().map(|t| (t.clone(), 3)).collect();
    small.extend(two.iter().map(|t| (t.clone(), if ctx.thorough() { 3 } else { 2 })));
    small.retain(|(t, _)| !has_poly(t));
    ctx.bound(format!("every byte string of up to 3 bytes for scalar types and up to 2 (thorough: 3) bytes for types of 2 constructors, {} types; the tree of inputs of up to 14 bytes over the significant bytes of each position for all {} types of up to 2 constructors and {} of 3; claimed lengths up to 2^64-1; live memory per call limited to 64 MiB and time to 120 s per type", small.len(), all.len() + two.len(), three.len()));
    ctx.assume("lists of elements that take no bytes, and types recursive to a depth the input controls, are left out");
    par_for(ctx, small.len(), |i| {
        let (ty, n) = &small[i];
        let _e = ctx.enter(|| show(ty));
        let (mut nodes, mut edges) = (1u64, 0u64);
        judge(ctx, ty, &[]);
        for len in 1..=*n {
            let mut b = vec![0u8; len];
            loop {
                nodes += 1;
                edges += 1;
                if !judge(ctx, ty, &b) {
                    return;
                }
                let mut k = len;
                let done = loop {
                    if k == 0 {
                        break true;
                    }
                    k -= 1;
                    b[k] = b[k].wrapping_add(1);
                    if b[k] != 0 {
                        break false;
                    }
                };
                if done || ctx.stopped() {
                    break;
                }
            }
        }
        ctx.add(nodes, edges, nodes);
    });
    let mut trees: Vec<(Ty, u8, u64)> = all.iter().map(|t| (t.clone(), 2, 400_000)).collect();
    trees.extend(two.iter().map(|t| (t.clone(), 1, 60_000)));
    trees.extend(three.iter().map(|t| (t.clone(), 1, if ctx.thorough() { 60_000 } else { 6_000 })));
    par_for(ctx, trees.len(), |i| {
        let (ty, rich, limit) = &trees[i];
        let _e = ctx.enter(|| show(ty));
        let model = |b: &[u8]| {
            let mut c = Cur::new(b);
            decode(ty, &mut c).map(|_| c.at)
        };
        let (n, e, _) = walk(&model, *rich, 14, *limit, &mut |node| {
            let ok = judge(ctx, ty, node.bytes);
            if let Some(Ok(_)) = node.want {
                ctx.outcomes_n("complete", 1);
            }
            ok && !ctx.stopped()
        });
        ctx.add(n, e, n);
        if i % 150 == 0 {
            ctx.sample(|| format!("{}: {n} inputs", show(ty)));
        }
    });
    loosely(ctx);
    others(ctx);
}

pub fn has_poly(t: &Ty) -> bool {
    match t {
        Ty::Poly(_) => true,
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) => has_poly(t),
        Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().any(has_poly),
        Ty::Enum(e) => e.bodies.iter().any(|b| b.tys().into_iter().any(has_poly)),
        _ => false,
    }
}

/// Layouts, also with rules that decoding does not support, in every position.
fn loosely(ctx: &Ctx) {
    let mut rules = vec![];
    for u in loose::UNSUPPORTED {
        let u = R::Unsupported(u);
        rules.push(u.clone());
        rules.extend(loose::unary(&u));
        rules.extend(loose::binary(&R::Bool, &u));
        rules.extend(loose::binary(&u, &R::Bool));
        rules.push(R::List(Box::new(R::Opt(Box::new(u.clone())))));
    }
    for r in loose::leaves() {
        rules.extend(loose::unary(&r));
        rules.push(r);
    }
    rules.extend(loose::specials());
    par_for(ctx, rules.len(), |i| {
        let r = &rules[i];
        let _e = ctx.enter(|| loose::show(r));
        let parsed = guarded(&|| format!("parse layout {}", loose::show(r)), || loose::rule(r));
        let rule = match parsed {
            Outcome::Done(x) => x,
            Outcome::Panic(m) => {
                ctx.violate(|| format!("layout {} cannot be loaded: {m}", loose::show(r)));
                return;
            }
        };
        let model = |b: &[u8]| {
            let mut c = Cur::new(b);
            loose::decode(r, &mut c).map(|_| c.at)
        };
        let (n, e, _) = walk(&model, 1, 14, 20_000, &mut |node| {
            let b = node.bytes;
            let got = guarded(&|| format!("decode [{}] by layout {}", hex(b), loose::show(r)), || Value::deserialize(&mut bin_prot::Deserializer::from_reader(b).with_layout(&rule)).is_ok());
            let want = matches!(node.want, Some(Ok(_)));
            ctx.check(got == Outcome::Done(want), || format!("decode [{}] by layout {}: {}, expected {}", hex(b), loose::show(r), match &got { Outcome::Done(true) => "a value".into(), Outcome::Done(false) => "an error".to_string(), Outcome::Panic(m) => format!("panic: {m}") }, if want { "a value" } else { "an error" })) && !ctx.stopped()
        });
        ctx.add(n, e, n);
    });
}

/// Other entry points that take untrusted input.
fn others(ctx: &Ctx) {
    // a loose value without a layout, and from another format
    let b = [1u8, 2, 3];
    let r = guarded(&|| "decode a loose value without a layout".into(), || bin_prot::from_reader::<_, Value>(&b[..]).is_err());
    ctx.check(r == Outcome::Done(true), || format!("decoding a loose value without a layout: {r:?}, expected an error"));
    for doc in ["\"abc\"", "\"\"", "true", "null", "-5", "1.5", "[1,\"x\"]", "{\"a\":\"b\"}", "\"\\u00e9\"", "[[[\"x\"]]]"] {
        let r = guarded(&|| format!("loose value from JSON {doc}"), || {
            let _ = serde_json::from_str::<Value>(doc);
        });
        ctx.add(1, 1, 1);
        ctx.check(r == Outcome::Done(()), || format!("loose value from JSON {doc}: {r:?}"));
    }
    // maps with claimed sizes
    use std::collections::{BTreeMap, HashMap};
    for code in [vec![0u8], vec![2], vec![0x7f], vec![0x80], vec![0xfe, 0xff, 0xff], vec![0xfd, 0xff, 0xff, 0xff, 0xff], vec![0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0xfc, 0, 0, 0, 0, 0, 0, 0, 0x40]] {
        for tail in [&[][..], &[1], &[1, 1, 1]] {
            let d = [&code[..], tail].concat();
            let r = guarded(&|| format!("map from [{}]", hex(&d)), || (bin_prot::from_reader::<_, BTreeMap<String, u8>>(&d[..]).is_ok(), bin_prot::from_reader::<_, HashMap<String, bool>>(&d[..]).is_ok()));
            ctx.add(1, 1, 2);
            let ok = matches!(r, Outcome::Done(_));
            ctx.check(ok, || format!("map from [{}]: {r:?}", hex(&d)));
        }
    }
    // borrowed and unsupported targets
    struct Ask(u8);
    impl<'de> serde::de::DeserializeSeed<'de> for Ask {
        type Value = ();
        fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            use serde::de::IgnoredAny as I;
            match self.0 {
                0 => d.deserialize_any(I).map(|_| ()),
                1 => d.deserialize_bytes(I).map(|_| ()),
                2 => d.deserialize_byte_buf(I).map(|_| ()),
                3 => d.deserialize_identifier(I).map(|_| ()),
                4 => d.deserialize_ignored_any(I).map(|_| ()),
                5 => d.deserialize_str(I).map(|_| ()),
                6 => d.deserialize_string(I).map(|_| ()),
                7 => d.deserialize_i128(I).map(|_| ()),
                8 => d.deserialize_u128(I).map(|_| ()),
                9 => d.deserialize_map(I).map(|_| ()),
                10 => d.deserialize_seq(I).map(|_| ()),
                _ => d.deserialize_unit(I).map(|_| ()),
            }
        }
    }
    use serde::de::DeserializeSeed;
    for k in 0..12 {
        for d in [&[][..], &[0], &[1, 1], &[0xff, 0xff], &[0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]] {
            let r = guarded(&|| format!("entry point {k} from [{}]", hex(d)), || {
                let _ = Ask(k).deserialize(&mut bin_prot::Deserializer::from_reader(d));
            });
            ctx.add(1, 1, 1);
            ctx.check(r == Outcome::Done(()), || format!("deserializer entry point {k} from [{}]: {r:?}", hex(d)));
        }
    }
    let _ = Seed(&Ty::Bool);
}
