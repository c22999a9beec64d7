//! Enumeration of types and values.
use crate::model::*;

pub fn leak_names(v: Vec<String>) -> &'static [&'static str] {
    let v: Vec<&'static str> = v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect();
    Box::leak(v.into_boxed_slice())
}

pub fn enum_ty(names: &'static [&'static str], bodies: Vec<Body>) -> &'static EnumTy {
    assert_eq!(names.len(), bodies.len());
    Box::leak(Box::new(EnumTy { names, bodies }))
}

pub fn leaves() -> Vec<Ty> {
    let mut v = vec![Ty::Unit, Ty::UnitStruct, Ty::Bool];
    v.extend(Int::ALL.map(Ty::Int));
    v.extend([Ty::U8, Ty::F32, Ty::F64, Ty::Char, Ty::Str]);
    v
}

const AB: &[&str] = &["A", "B"];
const ABC: &[&str] = &["A", "B", "C"];
const OT: &[&str] = &["One", "Two"];
const NOT: &[&str] = &["None", "One", "Two"];

/// Every one-argument type constructor.
pub fn unary(t: &Ty) -> Vec<Ty> {
    let t = || t.clone();
    let mut v = vec![
        Ty::Opt(Box::new(t())),
        Ty::Newtype(Box::new(t())),
        Ty::Struct(vec![t()]),
        Ty::Tuple(vec![t()]),
        Ty::Enum(enum_ty(AB, vec![Body::Unit, Body::Newtype(t())])),
        Ty::Enum(enum_ty(AB, vec![Body::Tuple(vec![t(), Ty::Bool]), Body::Unit])),
        Ty::Enum(enum_ty(AB, vec![Body::Struct(vec![t()]), Body::Unit])),
        Ty::Poly(enum_ty(OT, vec![Body::Unit, Body::Newtype(t())])),
        Ty::Poly(enum_ty(OT, vec![Body::Struct(vec![Ty::Bool, t()]), Body::Unit])),
    ];
    if takes_bytes(&t()) {
        v.push(Ty::Seq(Box::new(t())));
    }
    v
}

/// Every two-argument type constructor.
pub fn binary(a: &Ty, b: &Ty) -> Vec<Ty> {
    let (a, b) = (|| a.clone(), || b.clone());
    vec![
        Ty::Tuple(vec![a(), b()]),
        Ty::TupleStruct(vec![a(), b()]),
        Ty::Struct(vec![a(), b()]),
        Ty::Enum(enum_ty(ABC, vec![Body::Newtype(a()), Body::Unit, Body::Newtype(b())])),
        Ty::Enum(enum_ty(AB, vec![Body::Struct(vec![a(), b()]), Body::Tuple(vec![b(), a()])])),
        Ty::Poly(enum_ty(NOT, vec![Body::Newtype(a()), Body::Unit, Body::Tuple(vec![b(), a()])])),
    ]
}

/// All types of exactly `n` constructors, over the given leaves.
pub fn types_of_size(n: usize, leaves: &[Ty]) -> Vec<Ty> {
    let mut by: Vec<Vec<Ty>> = vec![vec![], leaves.to_vec()];
    for s in 2..=n {
        let mut v = vec![];
        for t in &by[s - 1] {
            v.extend(unary(t));
        }
        for l in 1..s - 1 {
            let r = s - 1 - l;
            for a in &by[l] {
                for b in &by[r] {
                    v.extend(binary(a, b));
                }
            }
        }
        by.push(v);
    }
    by.pop().unwrap()
}

/// The composite types an exploration covers: size 2 and 3 over every leaf, larger sizes
/// over a small set of leaves, and a few fixed larger ones.
pub fn universe(thorough: bool) -> Vec<(Ty, u8)> {
    let all = leaves();
    let few = [Ty::Bool, Ty::Int(Int::I64), Ty::Str];
    let mut v: Vec<(Ty, u8)> = vec![];
    v.extend(all.iter().map(|t| (t.clone(), 2)));
    v.extend(types_of_size(2, &all).into_iter().map(|t| (t, 2)));
    v.extend(types_of_size(3, &all).into_iter().map(|t| (t, 1)));
    v.extend(types_of_size(4, &few).into_iter().map(|t| (t, 0)));
    if thorough {
        v.extend(types_of_size(5, &few[1..2]).into_iter().map(|t| (t, 0)));
    }
    v.push((Ty::Tuple(vec![]), 1));
    v.push((Ty::Struct(vec![Ty::Bool, Ty::Tuple(vec![]), Ty::Bool]), 1));
    v.push((Ty::Struct(vec![Ty::U8, Ty::Int(Int::I16), Ty::Bool, Ty::Char, Ty::Int(Int::I32), Ty::Unit]), 1));
    v
}

pub fn ints(k: Int, rich: u8) -> Vec<i128> {
    let mut v: Vec<i128> = match rich {
        0 => vec![5, 300, -3],
        1 => vec![0, 127, 128, -1, -129, 40000, -70000, 1 << 33, -(1 << 40)],
        _ => {
            let mut v = vec![];
            for s in [0u32, 1, 4, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 30, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63, 64] {
                for d in [-2i128, -1, 0, 1, 2] {
                    v.push((1i128 << s) + d);
                    v.push(-(1i128 << s) + d);
                }
            }
            v.extend([0x12, 0x1234, 0x1234_5678, 0x1234_5678_9abc_def0, -0x1234_5678]);
            v
        }
    };
    let (lo, hi) = k.range();
    if rich > 0 {
        v.extend([lo, hi]);
    }
    v.retain(|x| k.fits(*x));
    v.sort();
    v.dedup();
    v
}

pub fn vals(ty: &Ty, rich: u8) -> Vec<Val> {
    let less = rich.saturating_sub(1);
    match ty {
        Ty::Unit | Ty::UnitStruct => vec![Val::Unit],
        Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Ty::Int(k) => ints(*k, rich).into_iter().map(Val::Int).collect(),
        Ty::U8 => match rich {
            0 => vec![1, 0x80],
            1 => vec![0, 0x7f, 0x80, 0xfd, 0xff],
            _ => (0..256).collect(),
        }
        .into_iter()
        .map(Val::Int)
        .collect(),
        Ty::F32 => match rich {
            0 => vec![0x3f80_0001],
            1 => vec![0, 0x8000_0000, 0x3f80_0001, 0x7f80_0000],
            _ => vec![0, 0x8000_0000, 1, 0x007f_ffff, 0x0080_0000, 0x3f80_0000, 0x4049_0fdb, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_1234],
        }
        .into_iter()
        .map(Val::F32)
        .collect(),
        Ty::F64 => match rich {
            0 => vec![0x3ff0_0000_0000_0001],
            1 => vec![0, 1 << 63, 0x3ff0_0000_0000_0001, 0x7ff0_0000_0000_0000],
            _ => vec![0, 1 << 63, 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x3ff0_0000_0000_0000, 0x4009_21fb_5444_2d18, 0x7fef_ffff_ffff_ffff, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_1234],
        }
        .into_iter()
        .map(Val::F64)
        .collect(),
        Ty::Char => match rich {
            0 => vec!['a', '\u{ff}'],
            1 => vec!['\0', 'z', '\u{80}', '\u{ff}'],
            _ => (0u8..=255).map(|b| b as char).collect(),
        }
        .into_iter()
        .map(Val::Char)
        .collect(),
        Ty::Str => match rich {
            0 => vec!["".to_string(), "\u{e9}x".into()],
            1 => vec!["".into(), "a".into(), "\0\u{7f}".into(), "\u{20ac}".into(), "y".repeat(128)],
            _ => vec!["".into(), "a".into(), "\0".into(), "\u{e9}".into(), "\u{1f600}z".into(), "k".repeat(127), "k".repeat(128), "k".repeat(255), "k".repeat(256), "k".repeat(300)],
        }
        .into_iter()
        .map(Val::Str)
        .collect(),
        Ty::Opt(t) => {
            let mut v = vec![Val::None];
            v.extend(vals(t, rich).into_iter().map(|x| Val::Some(Box::new(x))));
            v
        }
        Ty::Newtype(t) => vals(t, rich).into_iter().map(|x| Val::Rec(vec![x])).collect(),
        Ty::Seq(t) => {
            let e = vals(t, less);
            let mut v = vec![Val::Seq(vec![])];
            v.extend(vals(t, rich).into_iter().map(|x| Val::Seq(vec![x])));
            let two: Vec<&Val> = e.iter().take(if rich == 0 { 2 } else { 4 }).collect();
            for a in &two {
                for b in &two {
                    v.push(Val::Seq(vec![(*a).clone(), (*b).clone()]));
                }
            }
            if rich > 1 {
                for n in [3usize, 127, 128, 129, 255, 256, 257, 300] {
                    v.push(Val::Seq((0..n).map(|i| e[i % e.len()].clone()).collect()));
                }
            }
            v
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            product(&ts.iter().collect::<Vec<_>>(), rich).into_iter().map(Val::Rec).collect()
        }
        Ty::Enum(e) | Ty::Poly(e) => {
            let mut v = vec![];
            for (i, b) in e.bodies.iter().enumerate() {
                v.extend(product(&b.tys(), rich).into_iter().map(|x| Val::Var(i, x)));
            }
            v
        }
    }
}

/// All combinations of member values; with several members each takes fewer values.
fn product(ts: &[&Ty], rich: u8) -> Vec<Vec<Val>> {
    let r = if ts.len() > 1 { rich.min(1) } else { rich };
    let mut out: Vec<Vec<Val>> = vec![vec![]];
    for t in ts {
        let vs = vals(t, r);
        let mut next = Vec::with_capacity(out.len() * vs.len());
        for o in &out {
            for v in &vs {
                let mut o = o.clone();
                o.push(v.clone());
                next.push(o);
            }
        }
        out = next;
    }
    out
}

/// Continuations to try at a byte of the given role.
pub fn alphabet(r: &Role, rich: u8) -> Vec<u8> {
    match (r, rich) {
        (Role::Flag, _) => vec![0, 1, 2, 0x80, 0xff],
        (Role::IntCode, 2) => (0..=255).collect(),
        (Role::IntCode, _) => vec![0, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff],
        (Role::NatCode, 2) => (0..=255).collect(),
        (Role::NatCode, _) => vec![0, 1, 2, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff],
        (Role::Pay(_, 1), 2) => (0..=255).collect(),
        (Role::Pay(_, 2), 2) => vec![0, 1, 0x34, 0x7f, 0x80, 0x81, 0xab, 0xfe, 0xff],
        (Role::Pay(i, 8), 2) if *i < 5 => vec![0, 0xff],
        (Role::Pay(_, 8), 2) => vec![0, 1, 0x7f, 0x80, 0xff],
        (Role::Pay(_, _), 2) => vec![0, 1, 0x7f, 0x80, 0xff],
        (Role::Pay(i, n), _) if i + 1 == *n => vec![0, 0x7f, 0x80, 0xff],
        (Role::Pay(i, n), _) if *n > 2 && *i > 0 => vec![0xff],
        (Role::Pay(_, _), _) => vec![0, 0x80],
        (Role::NatPay(i, n), _) if i + 1 == *n => vec![0, 0x01, 0x7f, 0x80, 0xff],
        (Role::NatPay(0, _), _) => vec![0, 1, 2, 0xff],
        (Role::NatPay(_, n), 2) if *n <= 4 => vec![0, 1, 0xff],
        (Role::NatPay(_, _), _) => vec![0, 0xff],
        (Role::Text(_), 2) => vec![b'a', 0, 0x80, 0xc3, 0xa9, 0xff],
        (Role::Text(_), _) => vec![b'a', 0xff],
        (Role::FloatByte(i, n), _) if *i + 2 >= *n => vec![0, 0x7f, 0xf0, 0xff],
        (Role::FloatByte(0, _), _) => vec![1],
        (Role::FloatByte(_, _), _) => vec![0x5a],
        (Role::Byte, 2) => (0..=255).collect(),
        (Role::Byte, _) => vec![0, 0x41, 0x80, 0xff],
        (Role::Variant(_), 2) => (0..=255).collect(),
        (Role::Variant(n), _) => {
            let mut v: Vec<u8> = (0..(*n).min(8) as u16).map(|x| x as u8).collect();
            v.extend([*n as u8, (*n + 1) as u8, 0x80, 0xff]);
            v.sort();
            v.dedup();
            v
        }
        (Role::Tag(i, tags), _) => {
            let mut v: Vec<u8> = tags.iter().map(|t| (t << 1 | 1).to_le_bytes()[*i]).collect();
            v.extend(if *i == 0 { [0x00u8, 0x01, 0xfe, 0xff] } else { [0x00u8, 0xff, 0x00, 0xff] });
            v.sort();
            v.dedup();
            v
        }
    }
}
