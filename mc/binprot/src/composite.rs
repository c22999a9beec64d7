//! C02: composite values are laid out as the format prescribes.
//! C03: decoding is the inverse of encoding.
use crate::drive::*;
use crate::dynser::*;
use crate::gen;
use crate::model::*;
use crate::scalar::clip;
use mc_core::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};

// Types as a user derives them, with their place in the model.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Inner {
    pub w: i64,
    pub x: Option<u16>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Meters(pub f64);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Marker;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pair(pub char, pub i8);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Choice {
    Nothing,
    One(Inner),
    Many(Vec<bool>, String),
    Named { first: (), second: Box<Meters>, third: Pair },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename = "Polyvar")]
pub enum Tagged {
    #[serde(rename = "None")]
    Nothing,
    One(u32),
    #[serde(rename = "Two")]
    Second { a: Marker, b: [u8; 3] },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Outer {
    pub choice: Choice,
    pub tag: Tagged,
    pub list: Vec<(i32, Option<Choice>)>,
    pub nested: Option<Option<bool>>,
}

fn rec(v: Vec<Val>) -> Val {
    Val::Rec(v)
}
fn opt(v: Option<Val>) -> Val {
    match v {
        None => Val::None,
        Some(v) => Val::Some(Box::new(v)),
    }
}

trait Modelled: Serialize + for<'a> Deserialize<'a> + Clone + PartialEq + std::fmt::Debug {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    fn all() -> Vec<Self>;
}
impl Modelled for Inner {
    fn ty() -> Ty {
        Ty::Struct(vec![Ty::Int(Int::I64), Ty::Opt(Box::new(Ty::Int(Int::U16)))])
    }
    fn val(&self) -> Val {
        rec(vec![Val::Int(self.w as i128), opt(self.x.map(|x| Val::Int(x as i128)))])
    }
    fn all() -> Vec<Self> {
        let mut v = vec![];
        for w in [0, -1, 127, 128, -129, i64::MIN, i64::MAX] {
            for x in [None, Some(0), Some(127), Some(128), Some(65535)] {
                v.push(Inner { w, x });
            }
        }
        v
    }
}
impl Modelled for Pair {
    fn ty() -> Ty {
        Ty::TupleStruct(vec![Ty::Char, Ty::Int(Int::I8)])
    }
    fn val(&self) -> Val {
        rec(vec![Val::Char(self.0), Val::Int(self.1 as i128)])
    }
    fn all() -> Vec<Self> {
        vec![Pair('a', 0), Pair('\u{ff}', -128), Pair('\0', 127)]
    }
}
fn leak(e: EnumTy) -> &'static EnumTy {
    Box::leak(Box::new(e))
}
impl Modelled for Choice {
    fn ty() -> Ty {
        Ty::Enum(leak(EnumTy {
            names: &["Nothing", "One", "Many", "Named"],
            bodies: vec![
                Body::Unit,
                Body::Newtype(Inner::ty()),
                Body::Tuple(vec![Ty::Seq(Box::new(Ty::Bool)), Ty::Str]),
                Body::Struct(vec![Ty::Unit, Ty::Newtype(Box::new(Ty::F64)), Pair::ty()]),
            ],
        }))
    }
    fn val(&self) -> Val {
        match self {
            Choice::Nothing => Val::Var(0, vec![]),
            Choice::One(i) => Val::Var(1, vec![i.val()]),
            Choice::Many(b, s) => Val::Var(2, vec![Val::Seq(b.iter().map(|b| Val::Bool(*b)).collect()), Val::Str(s.clone())]),
            Choice::Named { second, third, .. } => Val::Var(3, vec![Val::Unit, rec(vec![Val::F64(second.0.to_bits())]), third.val()]),
        }
    }
    fn all() -> Vec<Self> {
        let mut v = vec![Choice::Nothing];
        v.extend(Inner::all().into_iter().take(8).map(Choice::One));
        for b in [vec![], vec![true], vec![false, true]] {
            for s in ["", "x", "\u{e9}"] {
                v.push(Choice::Many(b.clone(), s.to_string()));
            }
        }
        for p in Pair::all() {
            v.push(Choice::Named { first: (), second: Box::new(Meters(-0.5)), third: p });
        }
        v
    }
}
impl Modelled for Tagged {
    fn ty() -> Ty {
        Ty::Poly(leak(EnumTy {
            names: &["None", "One", "Two"],
            bodies: vec![Body::Unit, Body::Newtype(Ty::Int(Int::U32)), Body::Struct(vec![Ty::UnitStruct, Ty::Tuple(vec![Ty::U8, Ty::U8, Ty::U8])])],
        }))
    }
    fn val(&self) -> Val {
        match self {
            Tagged::Nothing => Val::Var(0, vec![]),
            Tagged::One(n) => Val::Var(1, vec![Val::Int(*n as i128)]),
            Tagged::Second { b, .. } => Val::Var(2, vec![Val::Unit, rec(b.iter().map(|x| Val::Int(*x as i128)).collect())]),
        }
    }
    fn all() -> Vec<Self> {
        vec![Tagged::Nothing, Tagged::One(0), Tagged::One(128), Tagged::One(u32::MAX), Tagged::Second { a: Marker, b: [0, 0x80, 0xff] }]
    }
}
impl Modelled for Outer {
    fn ty() -> Ty {
        Ty::Struct(vec![
            Choice::ty(),
            Tagged::ty(),
            Ty::Seq(Box::new(Ty::Tuple(vec![Ty::Int(Int::I32), Ty::Opt(Box::new(Choice::ty()))]))),
            Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::Bool)))),
        ])
    }
    fn val(&self) -> Val {
        rec(vec![
            self.choice.val(),
            self.tag.val(),
            Val::Seq(self.list.iter().map(|(n, c)| rec(vec![Val::Int(*n as i128), opt(c.as_ref().map(|c| c.val()))])).collect()),
            opt(self.nested.map(|o| opt(o.map(Val::Bool)))),
        ])
    }
    fn all() -> Vec<Self> {
        let mut v = vec![];
        for choice in Choice::all() {
            for tag in Tagged::all() {
                for nested in [None, Some(None), Some(Some(true))] {
                    for n in 0..3usize {
                        let list = Choice::all().into_iter().rev().take(n).map(|c| (n as i32 * -200, if n == 1 { None } else { Some(c) })).collect();
                        v.push(Outer { choice: choice.clone(), tag: tag.clone(), list, nested });
                    }
                }
            }
        }
        v
    }
}

fn derived_layout<T: Modelled>(ctx: &Ctx) {
    let ty = T::ty();
    for t in T::all() {
        let want = bytes_of(&ty, &t.val()).unwrap();
        let got = guarded(&|| format!("{t:?}"), || {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &t).map(|_| o)
        });
        ctx.add(1, want.len() as u64, 1);
        ctx.check(matches!(&got, Outcome::Done(Ok(b)) if *b == want), || format!("derived value {t:?}: written {}, the format prescribes [{}]", say(&got), hex(&want)));
    }
}

fn derived_trip<T: Modelled>(ctx: &Ctx) {
    for t in T::all() {
        let got = guarded(&|| format!("{t:?}"), || -> bin_prot::error::Result<(T, T)> {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &t)?;
            Ok((bin_prot::from_reader(&o[..])?, bin_prot::from_reader_strict(&o[..])?))
        });
        ctx.add(1, 2, 2);
        ctx.check(matches!(&got, Outcome::Done(Ok((a, b))) if *a == t && *b == t), || format!("derived value {t:?} came back as {}", say(&got)));
    }
}

pub fn c02(ctx: &Ctx) {
    let types = gen::universe(ctx.thorough());
    ctx.bound(format!("{} types: every type of up to 3 constructors over all 15 scalar types, of 4 constructors over bool, i64 and string (thorough: 5 over i64), with all combinations of boundary member values", types.len()));
    ctx.bound("strings of every length 0..=66000 and lists of every length 0..=1100 and around 2^13..2^16; derived structs and enums");
    par_for(ctx, types.len(), |i| {
        let (ty, rich) = &types[i];
        let _e = ctx.enter(|| show(ty));
        let (mut n, mut b) = (0, 0);
        for v in gen::vals(ty, *rich) {
            let want = bytes_of(ty, &v);
            // a u64 beyond the signed range is out of this model
            if has_big_u64(ty, &v) {
                continue;
            }
            let got = enc(ty, &v);
            n += 1;
            b += want.as_ref().map_or(0, |w| w.len() as u64);
            let good = match (&want, &got) {
                (Some(w), Outcome::Done(Ok(g))) => w == g,
                (None, Outcome::Done(Err(_))) => true,
                _ => false,
            };
            if !ctx.check(good, || format!("{} value {}: written {}, the format prescribes {:?}", show(ty), clip(&format!("{v:?}")), match &got { Outcome::Done(Ok(g)) => hex(g), o => say(o) }, want.as_ref().map(|w| hex(w)))) {
                return;
            }
        }
        ctx.add(n, b, n);
        if i % 977 == 0 {
            ctx.sample(|| {
                let v = gen::vals(ty, *rich).pop().unwrap();
                format!("{} value {}: [{}]", show(ty), clip(&format!("{v:?}")), bytes_of(ty, &v).map(|b| hex(&b)).unwrap_or_default())
            });
        }
    });
    derived_layout::<Inner>(ctx);
    derived_layout::<Pair>(ctx);
    derived_layout::<Choice>(ctx);
    derived_layout::<Tagged>(ctx);
    derived_layout::<Outer>(ctx);
    lengths(ctx, |ty, v| {
        let want = bytes_of(ty, v).unwrap();
        let got = enc(ty, v);
        ctx.add(1, want.len() as u64, 1);
        ctx.check(matches!(&got, Outcome::Done(Ok(g)) if *g == want), || format!("{} of length {}: bytes differ from the format's", show(ty), count(v)));
    });
    // a sequence of unknown length cannot be laid out
    struct NoLen;
    impl Serialize for NoLen {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeSeq;
            s.serialize_seq(None)?.end()
        }
    }
    let mut o = vec![];
    let r = guarded(&|| "sequence of unknown length".into(), || bin_prot::to_writer(&mut o, &NoLen).is_err());
    ctx.check(r == Outcome::Done(true), || "a sequence of unknown length was not refused".into());
}

fn count(v: &Val) -> usize {
    match v {
        Val::Str(s) => s.len(),
        Val::Seq(s) => s.len(),
        _ => 0,
    }
}

fn has_big_u64(ty: &Ty, v: &Val) -> bool {
    match (ty, v) {
        (Ty::Int(Int::U64), Val::Int(n)) => *n > i64::MAX as i128,
        (Ty::Opt(t), Val::Some(v)) => has_big_u64(t, v),
        (Ty::Newtype(t), Val::Rec(v)) => has_big_u64(t, &v[0]),
        (Ty::Seq(t), Val::Seq(v)) => v.iter().any(|v| has_big_u64(t, v)),
        (Ty::Tuple(ts), Val::Rec(vs)) | (Ty::TupleStruct(ts), Val::Rec(vs)) | (Ty::Struct(ts), Val::Rec(vs)) => ts.iter().zip(vs).any(|(t, v)| has_big_u64(t, v)),
        (Ty::Enum(e), Val::Var(i, vs)) | (Ty::Poly(e), Val::Var(i, vs)) => e.bodies[*i].tys().into_iter().zip(vs).any(|(t, v)| has_big_u64(t, v)),
        _ => false,
    }
}

/// Strings and lists of all lengths up to past the 16-bit limit.
fn lengths(ctx: &Ctx, f: impl Fn(&Ty, &Val) + Sync) {
    let seqs: Vec<usize> = (0..=1100usize).chain((13..=16).flat_map(|k| (1usize << k) - 6..=(1 << k) + 6)).collect();
    par_for(ctx, 66_001 / 50 + 1, |blk| {
        for n in blk * 50..((blk + 1) * 50).min(66_001) {
            if ctx.stopped() {
                return;
            }
            f(&Ty::Str, &Val::Str((0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect()));
        }
    });
    par_for(ctx, seqs.len(), |i| {
        let n = seqs[i];
        f(&Ty::Seq(Box::new(Ty::U8)), &Val::Seq((0..n).map(|i| Val::Int((i % 256) as i128)).collect()));
        f(&Ty::Seq(Box::new(Ty::Int(Int::I32))), &Val::Seq((0..n).map(|i| Val::Int(i as i128 * 37 - 9000)).collect()));
        f(
            &Ty::Seq(Box::new(Ty::Opt(Box::new(Ty::Bool)))),
            &Val::Seq((0..n).map(|i| if i % 3 == 0 { Val::None } else { Val::Some(Box::new(Val::Bool(i % 2 == 0))) }).collect()),
        );
    });
    if ctx.thorough() {
        for n in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1] {
            f(&Ty::Str, &Val::Str("q".repeat(n)));
        }
    }
}

pub fn c03(ctx: &Ctx) {
    let types = gen::universe(ctx.thorough());
    ctx.bound(format!("{} types (every type of up to 3 constructors over all 15 scalar types, 4 over three; thorough: 5 over one) with all combinations of boundary member values, one by one and back to back in one stream; strings of every length 0..=66000", types.len()));
    ctx.bound("i8..u16: every value; wider integers: 2^k +- 2000 for every k; every byte char; floats by bit pattern");
    par_for(ctx, types.len(), |i| {
        let (ty, rich) = &types[i];
        let _e = ctx.enter(|| show(ty));
        trip_all(ctx, ty, gen::vals(ty, *rich));
    });
    for k in Int::ALL {
        let mut v: Vec<i128> = (-66000..=66000).collect();
        for s in 16..=64u32 {
            for d in -2000..=2000 {
                v.push((1i128 << s) + d);
                v.push(-(1i128 << s) + d);
            }
        }
        v.retain(|x| k.fits(*x));
        v.sort();
        v.dedup();
        let chunks: Vec<Vec<Val>> = v.chunks(4096).map(|c| c.iter().map(|n| Val::Int(*n)).collect()).collect();
        par_for(ctx, chunks.len(), |i| trip_all(ctx, &Ty::Int(k), chunks[i].clone()));
    }
    derived_trip::<Inner>(ctx);
    derived_trip::<Pair>(ctx);
    derived_trip::<Choice>(ctx);
    derived_trip::<Tagged>(ctx);
    derived_trip::<Outer>(ctx);
    lengths(ctx, |ty, v| {
        let got = guarded(&|| format!("{} of length {}", show(ty), count(v)), || {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &Dyn(ty, v)).and_then(|_| dec_with(ty, &o[..]))
        });
        ctx.add(1, 1, 1);
        ctx.check(matches!(&got, Outcome::Done(Ok((g, 0))) if g == v), || format!("{} of length {} did not come back", show(ty), count(v)));
    });
    // fields with an explicit integer encoding
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    struct Explicit {
        #[serde(with = "bin_prot::integers::integer")]
        a: i32,
        #[serde(with = "bin_prot::integers::nat0")]
        b: u64,
    }
    for e in [Explicit { a: -5, b: 0 }, Explicit { a: 300, b: 70000 }] {
        let r = guarded(&|| format!("{e:?}"), || -> bin_prot::error::Result<Explicit> {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &e)?;
            bin_prot::from_reader(&o[..])
        });
        let ok = matches!(&r, Outcome::Done(Ok(x)) if *x == e);
        let refused = matches!(&r, Outcome::Done(Err(bin_prot::error::Error::WontImplement)));
        if !ok && !(refused && ctx.known_finding("with-attribute-decode", || format!("{e:?} with #[serde(with = integer/nat0)] fields encodes but decoding is refused: {}", say(&r)))) {
            ctx.violate(|| format!("{e:?} with explicit integer encodings came back as {}", say(&r)));
        }
    }
}

fn trip_all(ctx: &Ctx, ty: &Ty, vals: Vec<Val>) {
    let (mut n, mut t) = (0u64, 0u64);
    let mut stream = vec![];
    let mut kept = vec![];
    for v in &vals {
        let e = match enc(ty, v) {
            Outcome::Done(Ok(e)) => e,
            o => {
                ctx.violate(|| format!("{} value {}: cannot be encoded: {}", show(ty), clip(&format!("{v:?}")), say(&o)));
                return;
            }
        };
        let got = dec(ty, &e);
        n += 1;
        t += 2;
        let good = matches!(&got, Outcome::Done(Ok((g, 0))) if g == v);
        if !good {
            let refused = matches!(&got, Outcome::Done(Err(_)));
            if refused && has_big_u64(ty, v) && ctx.known_finding("u64-above-i64-max", || format!("{} value {} is written as [{}], which is refused on reading", show(ty), clip(&format!("{v:?}")), hex(&e))) {
                continue;
            }
            ctx.violate(|| format!("{} value {} was written as [{}] and came back as {} (value, bytes left)", show(ty), clip(&format!("{v:?}")), hex(&e), clip(&say(&got))));
            return;
        }
        // the two one-shot entry points agree
        if n <= 64 {
            let r = guarded(&|| format!("from_reader {} [{}]", show(ty), hex(&e)), || {
                with_type(ty, || (bin_prot::from_reader::<_, Any>(&e[..]).map(|a| a.0), bin_prot::from_reader_strict::<_, Any>(&e[..]).map(|a| a.0)))
            });
            t += 2;
            let good = matches!(&r, Outcome::Done((Ok(a), Ok(b))) if a == v && b == v);
            if !ctx.check(good, || format!("{} value {} from [{}] via from_reader and from_reader_strict: {:?}", show(ty), clip(&format!("{v:?}")), hex(&e), r)) {
                return;
            }
        }
        stream.extend(&e);
        kept.push(v);
    }
    // back to back: one deserializer reads the whole sequence of values
    let r = guarded(&|| format!("{} values of {} back to back", kept.len(), show(ty)), || -> bin_prot::error::Result<Option<usize>> {
        let mut de = bin_prot::Deserializer::from_reader(&stream[..]);
        for (i, v) in kept.iter().enumerate() {
            if Seed(ty).deserialize(&mut de)? != **v {
                return Ok(Some(i));
            }
        }
        Ok(if u8::deserialize(&mut de).is_ok() { Some(kept.len()) } else { None })
    });
    t += 1;
    ctx.check(matches!(r, Outcome::Done(Ok(None))), || format!("{} values of {} written back to back: reading them in sequence ended with {:?}", kept.len(), show(ty), say(&r)));
    ctx.add(n, stream.len() as u64, t);
}
