//! C09: variants of sum types are chosen by their index. C10: polymorphic variants by the
//! hash of their label.
use crate::drive::*;
use crate::gen;
use crate::loose::{self, R};
use crate::model::*;
use crate::scalar::clip;
use bin_prot::{Value, WriteBinProtExt};
use mc_core::*;
use serde::{Deserialize, Serialize};

fn body(i: usize, flavour: usize) -> Body {
    match (i + flavour) % 5 {
        0 => Body::Unit,
        1 => Body::Newtype(Ty::Bool),
        2 => Body::Tuple(vec![Ty::U8, Ty::Char]),
        3 => Body::Struct(vec![Ty::Int(Int::I16)]),
        _ => Body::Newtype(Ty::Str),
    }
}

fn fill(b: &Body) -> Vec<Val> {
    b.tys()
        .into_iter()
        .map(|t| match t {
            Ty::Bool => Val::Bool(true),
            Ty::U8 => Val::Int(0xab),
            Ty::Char => Val::Char('q'),
            Ty::Int(_) => Val::Int(-300),
            _ => Val::Str("zz".into()),
        })
        .collect()
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy)]
enum Five {
    V0,
    V1,
    V2,
    V3,
    V4,
}

pub fn c09(ctx: &Ctx) {
    let most = 300usize;
    ctx.bound(format!("sum types of every size 1..={most} in 5 arrangements of unit, newtype, tuple and record variants, each variant encoded and each of the 256 index bytes decoded; layouts of up to 4 summands with all assignments of declared indices out of 9, with all 256 index bytes"));
    par_for(ctx, most, |k| {
        let n = k + 1;
        let names = gen::leak_names((0..n).map(|i| format!("V{i}")).collect());
        for flavour in 0..5 {
            let bodies: Vec<Body> = (0..n).map(|i| body(i, flavour)).collect();
            let ty = Ty::Enum(gen::enum_ty(names, bodies.clone()));
            let (mut s, mut t, mut bytes) = (0, 0, 0u64);
            // encoding
            for i in 0..n {
                // all of them for the larger flavours is redundant: sizes differ by one
                if i + 40 < n && i > 3 && !(250..260).contains(&i) {
                    continue;
                }
                let v = Val::Var(i, fill(&bodies[i]));
                let want = bytes_of(&ty, &v);
                let got = enc(&ty, &v);
                s += 1;
                bytes += want.as_ref().map_or(0, |w| w.len() as u64);
                let good = match (&want, &got) {
                    (Some(w), Outcome::Done(Ok(g))) => w == g,
                    (None, Outcome::Done(Err(_))) => true,
                    _ => false,
                };
                ctx.check(good, || format!("variant {i} of {n} ({:?}): written as {}, expected {:?} (a one-byte index; refused if it does not fit)", bodies[i], match &got { Outcome::Done(Ok(g)) => hex(g), o => say(o) }, want.as_ref().map(|w| hex(w))));
            }
            // decoding of every index byte, with each possible content after it
            for b in 0..=255u8 {
                let mut d = vec![b];
                if (b as usize) < n {
                    for (t, v) in bodies[b as usize].tys().into_iter().zip(fill(&bodies[b as usize])) {
                        encode(t, &v, &mut d).unwrap();
                    }
                } else {
                    d.extend([1, 1, 1, 1]);
                }
                let mut c = Cur::new(&d);
                let want = decode(&ty, &mut c);
                let got = dec(&ty, &d);
                t += 1;
                bytes += d.len() as u64;
                let good = match (&want, &got) {
                    (Ok(v), Outcome::Done(Ok((g, 0)))) => v == g,
                    (Err(_), Outcome::Done(Err(_))) => true,
                    _ => false,
                };
                ctx.check(good, || format!("index byte {b} in a sum of {n} variants, bytes [{}]: {}, expected {want:?}", hex(&d), clip(&say(&got))));
            }
            ctx.add(s + t, bytes, s + t);
            if ctx.stopped() {
                return;
            }
        }
    });
    // derived
    for b in 0..=255u8 {
        let r = guarded(&|| format!("derived enum from [{b:02x}]"), || bin_prot::from_reader::<_, Five>(&[b][..]).ok());
        let want = [Five::V0, Five::V1, Five::V2, Five::V3, Five::V4].get(b as usize).copied();
        ctx.add(1, 1, 1);
        ctx.check(r == Outcome::Done(want), || format!("index byte {b} of a derived enum of 5 variants: {r:?}, expected {want:?}"));
    }
    // layouts
    let idx = [0i32, 1, 2, 3, 127, 128, 255, 256, -1];
    let most = if ctx.thorough() { 4 } else { 3 };
    let mut combos: Vec<Vec<i32>> = vec![];
    for m in 1..=most {
        let mut v: Vec<Vec<i32>> = vec![vec![]];
        for _ in 0..m {
            v = v.into_iter().flat_map(|p| idx.iter().filter(|i| !p.contains(i)).map(|i| [&p[..], &[*i]].concat()).collect::<Vec<_>>()).collect();
        }
        combos.extend(v);
    }
    const NAMES: [&str; 4] = ["Alpha", "Beta", "Gamma", "Delta"];
    par_for(ctx, combos.len(), |k| {
        let r = R::Sum(combos[k].iter().enumerate().map(|(i, x)| (NAMES[i], *x, vec![R::Bool; i])).collect());
        let rule = loose::rule(&r);
        let mut n = 0;
        for b in 0..=255u8 {
            let d = [b, 1, 0, 1, 9];
            let mut c = Cur::new(&d);
            let want = loose::decode(&r, &mut c);
            let got = guarded(&|| format!("[{}] by layout {}", hex(&d), loose::show(&r)), || {
                let mut de = bin_prot::Deserializer::from_reader(&d[..]).with_layout(&rule);
                Value::deserialize(&mut de)
            });
            n += 1;
            let good = match (&want, &got) {
                (Ok(v), Outcome::Done(Ok(g))) => v == g,
                (Err(_), Outcome::Done(Err(_))) => true,
                _ => false,
            };
            ctx.check(good, || format!("index byte {b} by layout {}: {got:?}, expected {want:?}", loose::show(&r)));
        }
        ctx.add(n, 2 * n, n);
    });
}

pub fn c10(ctx: &Ctx) {
    ctx.bound("labels: every ASCII string of up to 3 characters, every identifier of 4 characters over 64 (thorough: all printable ASCII), 5..=8 characters over 3; tags: every declared label of sums of up to 300 variants, every one-bit change of a known tag");
    // hash of all short labels
    let chars: Vec<u8> = (1..128u8).collect();
    let ident: Vec<u8> = if ctx.thorough() { (33..127u8).collect() } else { (0..128u8).filter(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'\'').collect() };
    let hash = |l: &[u8]| -> bool {
        let s = std::str::from_utf8(l).unwrap();
        let want = label_hash(s);
        let wide = label_hash_wide(s) > u32::MAX as u128;
        let got = if wide { guarded(&|| format!("hash of {s:?}"), || bin_prot::caml_hash_variant(s)) } else { Outcome::Done(bin_prot::caml_hash_variant(s)) };
        match got {
            Outcome::Done(h) if h == want => true,
            // the hash is used as a 31-bit tag: what counts is the word on the wire
            Outcome::Done(h) if h & 0x7fff_ffff == want && !wide => true,
            Outcome::Panic(m) if wide && m.contains("overflow") => ctx.known_finding("label-hash-overflow", || format!("caml_hash_variant({s:?}) panics: {m}")),
            o => {
                ctx.violate(|| format!("hash of label {s:?}: {o:?}, OCaml computes {want}"));
                false
            }
        }
    };
    hash(b"");
    par_for(ctx, chars.len(), |i| {
        let a = chars[i];
        let mut n = 1u64;
        hash(&[a]);
        for &b in &chars {
            hash(&[a, b]);
            n += 1;
            for &c in &chars {
                n += 1;
                if !hash(&[a, b, c]) {
                    return;
                }
            }
        }
        ctx.add(n, 3 * n, n);
    });
    par_for(ctx, ident.len(), |i| {
        let a = ident[i];
        let mut n = 0u64;
        for &b in &ident {
            for &c in &ident {
                for &d in &ident {
                    n += 1;
                    if !hash(&[a, b, c, d]) {
                        return;
                    }
                }
            }
        }
        ctx.add(n, 4 * n, n);
    });
    // labels at the edge of 32 bits, and longer ones
    for a in 1..128u8 {
        for len in 5..=8usize {
            for c in [b'a', 0x7f, 1] {
                let mut l = vec![c; len];
                l[0] = a;
                hash(&l);
                ctx.add(1, 1, 1);
            }
        }
    }
    // words on the wire
    for bit in 0..31 {
        for t in [1u32 << bit, 0x7fff_ffff ^ (1 << bit), (1u32 << bit).wrapping_sub(1) & 0x7fff_ffff] {
            let r = guarded(&|| format!("tag {t}"), || {
                use bin_prot::ReadBinProtExt;
                let mut o = vec![];
                o.bin_write_polyvar_tag(t).map(|_| (o.clone(), (&o[..]).bin_read_polyvar_tag().ok()))
            });
            ctx.add(1, 2, 1);
            ctx.check(matches!(&r, Outcome::Done(Ok((b, Some(x)))) if *b == (t << 1 | 1).to_le_bytes() && *x == t), || format!("tag {t} is written and read back as {r:?}"));
        }
    }
    // dispatch
    let sets: Vec<Vec<String>> = {
        let mut v: Vec<Vec<String>> = vec![
            ["None", "One", "Two"].iter().map(|s| s.to_string()).collect(),
            ["Two", "One", "None", "A", "B", "C", "a", "b"].iter().map(|s| s.to_string()).collect(),
            ["X", "\u{e9}", "Y", "\u{20ac}", "Z"].iter().map(|s| s.to_string()).collect(),
            ["Ab", "bA", "A", "b", "AbA", "bAb"].iter().map(|s| s.to_string()).collect(),
            vec!["Solo".into()],
        ];
        for n in [2usize, 100, 255, 256, 257, 300] {
            v.push((0..n).map(|i| format!("{}{}", (b'A' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char)).collect());
        }
        // all orders of five labels
        let five = ["A", "Bb", "Ccc", "Dddd", "E"];
        let mut perms: Vec<Vec<String>> = vec![vec![]];
        for _ in 0..5 {
            perms = perms.into_iter().flat_map(|p| five.iter().filter(|x| !p.iter().any(|y| y == *x)).map(|x| [&p[..], &[x.to_string()]].concat()).collect::<Vec<_>>()).collect();
        }
        v.extend(perms);
        v
    };
    par_for(ctx, sets.len(), |k| {
        let names = gen::leak_names(sets[k].clone());
        let ascii: Vec<usize> = (0..names.len()).filter(|i| names[*i].is_ascii()).collect();
        for flavour in 0..5 {
            let bodies: Vec<Body> = (0..names.len()).map(|i| body(i, flavour)).collect();
            let ty = Ty::Poly(gen::enum_ty(names, bodies.clone()));
            let mut n = 0;
            for &i in &ascii {
                let v = Val::Var(i, fill(&bodies[i]));
                let want = bytes_of(&ty, &v).unwrap();
                let got = enc(&ty, &v);
                ctx.check(matches!(&got, Outcome::Done(Ok(g)) if *g == want), || format!("polyvar `{} ({:?}) of {} labels: written as {}, expected [{}]", names[i], bodies[i], names.len(), match &got { Outcome::Done(Ok(g)) => hex(g), o => say(o) }, hex(&want)));
                let back = dec(&ty, &want);
                ctx.check(matches!(&back, Outcome::Done(Ok((g, 0))) if *g == v), || format!("polyvar `{} of {} labels from [{}]: {}, expected {v:?}", names[i], names.len(), hex(&want), clip(&say(&back))));
                n += 2;
                // neighbours of a known tag are other labels' or nobody's
                if names.len() < 20 {
                    for bit in 0..32 {
                        let mut d = want.clone();
                        let w = u32::from_le_bytes(d[..4].try_into().unwrap()) ^ (1 << bit);
                        d[..4].copy_from_slice(&w.to_le_bytes());
                        let mut c = Cur::new(&d);
                        let m = decode(&ty, &mut c);
                        let got = dec(&ty, &d);
                        n += 1;
                        let good = match (&m, &got) {
                            (Ok(v), Outcome::Done(Ok((g, _)))) => v == g,
                            (Err(_), Outcome::Done(Err(_))) => true,
                            _ => false,
                        };
                        ctx.check(good, || format!("tag word {w:#x} among labels {names:?}: {}, expected {m:?}", clip(&say(&got))));
                    }
                }
            }
            ctx.add(n, n, n);
        }
    });
    // the same through layouts, by the hash declared there
    par_for(ctx, sets.len(), |k| {
        let names = gen::leak_names(sets[k].clone());
        let r = R::Poly(names.iter().enumerate().map(|(i, n)| (*n, label_hash(n), vec![R::Bool; i % 3])).collect());
        let rule = loose::rule(&r);
        for (i, n) in names.iter().enumerate() {
            let mut d = (label_hash(n) << 1 | 1).to_le_bytes().to_vec();
            d.extend([1, 0].iter().take(i % 3));
            let mut c = Cur::new(&d);
            let want = loose::decode(&r, &mut c).unwrap();
            let got = guarded(&|| format!("[{}]", hex(&d)), || Value::deserialize(&mut bin_prot::Deserializer::from_reader(&d[..]).with_layout(&rule)));
            ctx.add(1, 1, 1);
            ctx.check(matches!(&got, Outcome::Done(Ok(g)) if *g == want), || format!("[{}] by a layout of labels {:?}: {got:?}, expected {want:?}", hex(&d), &names[..names.len().min(8)]));
            for bit in 0..32 {
                let w = (label_hash(n) << 1 | 1) ^ (1 << bit);
                if bit > 0 && names.iter().any(|m| label_hash(m) == w >> 1) || names.len() > 20 {
                    continue;
                }
                let d = w.to_le_bytes();
                let got = guarded(&|| format!("[{}]", hex(&d)), || Value::deserialize(&mut bin_prot::Deserializer::from_reader(&d[..]).with_layout(&rule)).is_err());
                ctx.add(1, 1, 1);
                ctx.check(got == Outcome::Done(true), || format!("unknown tag word {w:#x} by a layout of labels {names:?}: {got:?}, expected an error"));
            }
        }
    });
}
