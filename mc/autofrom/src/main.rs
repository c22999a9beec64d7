//! C16: derived conversions.
use mc_core::*;
use mina_serialization_types_macros::AutoFrom;
use std::fmt::Debug;
use versioned::*;

#[allow(dead_code, clippy::all)]
mod programs;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

/// Counterpart of i64 in target types.
#[derive(Debug, Clone, PartialEq)]
pub struct W(pub i64);
impl From<i64> for W {
    fn from(n: i64) -> W {
        W(n)
    }
}
impl From<W> for i64 {
    fn from(w: W) -> i64 {
        w.0
    }
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(SubW)]
pub struct Sub {
    s: i64,
    t: i64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SubW {
    t: W,
    s: W,
}

pub trait Make: Clone + PartialEq + Debug {
    const VARIANTS: usize = 1;
    const MEMBERS: usize;
    /// the value of variant `v` whose members have the given numbers
    fn make(v: usize, x: &[usize]) -> Self;
}

pub fn pair<L, R>(ctx: &Ctx, name: &str)
where
    L: Make + From<R> + From<Versioned<R, 2>> + From<Versioned<Versioned<R, 2>, 3>> + From<Versioned<Versioned<Versioned<R, 2>, 3>, 4>> + From<Versioned<Versioned<Versioned<Versioned<R, 2>, 3>, 4>, 5>>,
    R: Make + From<L>,
    Versioned<R, 2>: From<L>,
    Versioned<Versioned<R, 2>, 3>: From<L>,
    Versioned<Versioned<Versioned<R, 2>, 3>, 4>: From<L>,
    Versioned<Versioned<Versioned<Versioned<R, 2>, 3>, 4>, 5>: From<L>,
{
    const DOMAIN: usize = 4;
    for v in 0..L::VARIANTS {
        for code in 0..DOMAIN.pow(L::MEMBERS as u32) {
            let x: Vec<usize> = (0..L::MEMBERS).map(|i| code / DOMAIN.pow(i as u32) % DOMAIN).collect();
            let (l, r) = (L::make(v, &x), R::make(v, &x));
            let there: R = l.clone().into();
            let back: L = r.clone().into();
            ctx.add(1, 10, 10);
            let ok = ctx.check(there == r, || format!("{name}: {l:?} converts to {there:?}, expected {r:?}")) && ctx.check(back == l, || format!("{name}: {r:?} converts back to {back:?}, expected {l:?}"));
            if !ok {
                return;
            }
            let v1: Versioned<R, 2> = l.clone().into();
            let v2: Versioned<Versioned<R, 2>, 3> = l.clone().into();
            let v3: Versioned<Versioned<Versioned<R, 2>, 3>, 4> = l.clone().into();
            let v4: Versioned<Versioned<Versioned<Versioned<R, 2>, 3>, 4>, 5> = l.clone().into();
            let good = (v1.version, &v1.t) == (2, &r) && (v2.version, v2.t.version, &v2.t.t) == (3, 2, &r) && (v3.version, v3.t.version, v3.t.t.version, &v3.t.t.t) == (4, 3, 2, &r) && (v4.version, v4.t.version, v4.t.t.version, v4.t.t.t.version, &v4.t.t.t.t) == (5, 4, 3, 2, &r);
            ctx.check(good, || format!("{name}: versioned conversions of {l:?}: {v1:?} {v2:?} {v3:?} {v4:?}"));
            let all: [L; 4] = [v1.into(), v2.into(), v3.into(), v4.into()];
            ctx.check(all.iter().all(|a| *a == l), || format!("{name}: versioned conversions of {l:?} and back: {all:?}"));
            if ctx.stopped() {
                return;
            }
        }
    }
}

fn c16(ctx: &Ctx) {
    let n = programs::all(ctx);
    pair2(ctx);
    ctx.bound(format!("{n} pairs of types: records and tuple structs of up to 3 members over plain, Vec, Option, Box and nested derived members (some of 4, some with path-qualified names, some with two targets), enums over unit, tuple and record variants of the same; targets declare fields and variants in another order; all combinations of 4 values per member; plain and 1 to 4 levels of version wrappers"));
}

fn pair2(ctx: &Ctx) {
    for s in 0..4 {
        for t in 0..4 {
            let l = Sub { s, t };
            let r: SubW = l.clone().into();
            let b: Sub = r.clone().into();
            ctx.add(1, 2, 2);
            ctx.check(r.s == W(s) && r.t == W(t) && b == l, || format!("{l:?} converts to {r:?} and back to {b:?}"));
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C16" => c16(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
