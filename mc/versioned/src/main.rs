//! C15: version wrappers.
use mc_core::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use versioned::*;

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

// ---------------------------------------------------------------- C15

/// A version number is a variable-length integer.
fn put(n: u16, out: &mut Vec<u8>) {
    match n {
        0..=0x7f => out.push(n as u8),
        0x80..=0x7fff => {
            out.push(0xfe);
            out.extend(n.to_le_bytes());
        }
        _ => {
            out.push(0xfd);
            out.extend((n as u32).to_le_bytes());
        }
    }
}

trait Content: Clone + PartialEq + Debug + Serialize + for<'a> Deserialize<'a> + Default {
    fn all() -> Vec<(Self, Vec<u8>)>;
}
impl Content for i32 {
    fn all() -> Vec<(i32, Vec<u8>)> {
        vec![(0, vec![0]), (-1, vec![0xff, 0xff]), (300, vec![0xfe, 0x2c, 1])]
    }
}
impl Content for String {
    fn all() -> Vec<(String, Vec<u8>)> {
        vec![("".into(), vec![0]), ("ab".into(), vec![2, b'a', b'b'])]
    }
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
struct Own {
    a: bool,
    b: Option<u16>,
}
impl Content for Own {
    fn all() -> Vec<(Own, Vec<u8>)> {
        vec![(Own { a: true, b: None }, vec![1, 0]), (Own { a: false, b: Some(5) }, vec![0, 1, 5])]
    }
}
impl_from_versioned!(Own);

#[derive(Clone, PartialEq, Debug)]
struct Wrapped(i64);
type WrappedV = Versioned<i64, 77>;
impl_from_for_newtype!(Wrapped, WrappedV);

// original <-> versioned <-> json-like
#[derive(Clone, PartialEq, Debug)]
struct Orig(i64);
#[derive(Clone, PartialEq, Debug)]
struct Mid(i64);
type MidV = Versioned<Mid, 9>;
#[derive(Clone, PartialEq, Debug)]
struct Json(i64);
impl From<Orig> for MidV {
    fn from(t: Orig) -> MidV {
        Mid(t.0 * 2).into()
    }
}
impl From<MidV> for Orig {
    fn from(t: MidV) -> Orig {
        Orig(t.t.0 / 2)
    }
}
impl From<Json> for MidV {
    fn from(t: Json) -> MidV {
        Mid(t.0 - 1).into()
    }
}
impl From<MidV> for Json {
    fn from(t: MidV) -> Json {
        Json(t.t.0 + 1)
    }
}
impl_from_with_proxy!(Orig, MidV, Json);

#[derive(Clone, PartialEq, Debug)]
struct Left(i64);
#[derive(Clone, PartialEq, Debug)]
struct Inner(i64);
impl From<Left> for Inner {
    fn from(t: Left) -> Inner {
        Inner(t.0 + 1000)
    }
}
impl From<Inner> for Left {
    fn from(t: Inner) -> Left {
        Left(t.0 - 1000)
    }
}
type LeftV1 = Versioned<Inner, 3>;
type LeftV2 = Versioned<Versioned<Inner, 4>, 5>;
type LeftV3 = Versioned<Versioned<Versioned<Inner, 6>, 7>, 8>;
impl_from_for_versioned_with_proxy!(Left, Inner, LeftV1);
impl_from_for_versioned_with_proxy!(Left, Inner, LeftV2);
impl_from_for_generic_with_proxy!(Left, Inner, LeftV3);

fn wrapped<T: Content, W: Clone + PartialEq + Debug + Serialize + for<'a> Deserialize<'a> + From<T>>(ctx: &Ctx, versions: &[u16], versions_of: impl Fn(&W) -> Vec<u16>, back: impl Fn(W) -> T)
where
    W: Default,
{
    // outermost version first
    let mut head = vec![];
    for v in versions {
        put(*v, &mut head);
    }
    for (t, enc) in T::all() {
        let w: W = t.clone().into();
        let want = [&head[..], &enc].concat();
        let mut got = vec![];
        let r = guarded(&|| format!("{w:?}"), || bin_prot::to_writer(&mut got, &w).is_ok());
        ctx.add(1, versions.len() as u64, 3);
        ctx.check(versions_of(&w) == versions, || format!("{t:?} wrapped with versions {versions:?} carries {:?}", versions_of(&w)));
        ctx.check(r == Outcome::Done(true) && got == want, || format!("{t:?} wrapped with versions {versions:?} is written as {got:02x?}, expected {want:02x?}"));
        ctx.check(back(w.clone()) == t, || format!("{t:?} wrapped with versions {versions:?} and unwrapped is {:?}", back(w.clone())));
        let de = guarded(&|| format!("{want:02x?}"), || bin_prot::from_reader_strict::<_, W>(&want[..]).ok());
        ctx.check(de == Outcome::Done(Some(w.clone())), || format!("{want:02x?} is read as {de:?}, expected {w:?}"));
        // every prefix is refused
        for cut in 0..want.len() {
            let de = guarded(&|| format!("{want:02x?}"), || bin_prot::from_reader::<_, W>(&want[..cut]).is_err());
            ctx.add(1, 1, 1);
            ctx.check(de == Outcome::Done(true), || format!("{:02x?} is read as {de:?}, it is not complete", &want[..cut]));
        }
        // another version has another format: it is refused, at whatever level it stands
        for at in 0..versions.len() {
            for other in (0..=260u16).chain([32767, 32768, 40000, 65535]) {
                if other == versions[at] {
                    continue;
                }
                let mut head = vec![];
                for (i, v) in versions.iter().enumerate() {
                    put(if i == at { other } else { *v }, &mut head);
                }
                let b = [&head[..], &enc].concat();
                let r = guarded(&|| format!("{b:02x?}"), || bin_prot::from_reader_strict::<_, W>(&b[..]).is_err());
                ctx.add(1, 1, 1);
                ctx.check(r == Outcome::Done(true), || format!("{b:02x?}, of version {other} where {} is expected, is read ({r:?})", versions[at]));
            }
        }
    }
    let d = W::default();
    ctx.add(1, 1, 1);
    ctx.check(versions_of(&d) == versions && back(d.clone()) == T::default(), || format!("the default wrapped with versions {versions:?} is {d:?}"));
}

fn level1<T: Content, const A: u16>(ctx: &Ctx) {
    wrapped::<T, Versioned<T, A>>(ctx, &[A], |w| vec![w.version()], |w| <(T,)>::from(w).0);
    for (t, _) in T::all() {
        let w = Versioned::<T, A>::new(t.clone());
        ctx.check(w.version() == A && w.version == A && w.clone().inner() == t && w.t == t, || format!("new({t:?}) with version {A} is {w:?}"));
        ctx.check(w == t.clone().into(), || format!("new and from differ for {t:?}"));
    }
}
fn level2<T: Content, const A: u16, const B: u16>(ctx: &Ctx) {
    wrapped::<T, Versioned<Versioned<T, A>, B>>(ctx, &[B, A], |w| vec![w.version(), w.t.version()], |w| <(T,)>::from(w).0);
    wrapped::<T, Versioned<Versioned<T, A>, B>>(ctx, &[B, A], |w| vec![w.version(), w.t.version()], |w| w.inner().inner());
}
fn level3<T: Content, const A: u16, const B: u16, const C: u16>(ctx: &Ctx) {
    wrapped::<T, Versioned<Versioned<Versioned<T, A>, B>, C>>(ctx, &[C, B, A], |w| vec![w.version(), w.t.version(), w.t.t.version()], |w| <(T,)>::from(w).0);
}
fn level4<T: Content, const A: u16, const B: u16, const C: u16, const D: u16>(ctx: &Ctx) {
    wrapped::<T, Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D>>(ctx, &[D, C, B, A], |w| vec![w.version(), w.t.version(), w.t.t.version(), w.t.t.t.version()], |w| <(T,)>::from(w).0);
}

macro_rules! versions {
    ($ctx:expr, $t:ty, [$($a:literal)*]) => { $( level1::<$t, $a>($ctx); versions!(@2 $ctx, $t, $a, [1 2 300]); )* };
    (@2 $ctx:expr, $t:ty, $a:literal, [$($b:literal)*]) => { $( level2::<$t, $a, $b>($ctx); versions!(@3 $ctx, $t, $a, $b, [1 2 300]); )* };
    (@3 $ctx:expr, $t:ty, $a:literal, $b:literal, [$($c:literal)*]) => { $( level3::<$t, $a, $b, $c>($ctx); versions!(@4 $ctx, $t, $a, $b, $c, [1 2 300]); )* };
    (@4 $ctx:expr, $t:ty, $a:literal, $b:literal, $c:literal, [$($d:literal)*]) => { $( level4::<$t, $a, $b, $c, $d>($ctx); )* };
}

fn c15(ctx: &Ctx) {
    ctx.bound("one to four levels of wrapping; inner version out of 0, 1, 2, 127, 128, 255, 256, 32768, 65535, outer ones out of 1, 2, 300, all combinations, around three content types; every proper prefix of each encoding; each version replaced by 4 others on reading; the conversion macros of the crate");
    versions!(ctx, i32, [0 1 2 127 128 255 256 32768 65535]);
    versions!(ctx, Own, [0 1 2 300 65535]);
    versions!(ctx, String, [1 2]);
    for (t, _) in Own::all() {
        let a: Own = Versioned::<Own, 4>::new(t.clone()).into();
        let b: Own = Versioned::<Versioned<Own, 4>, 5>::from(t.clone()).into();
        ctx.add(1, 2, 2);
        ctx.check(a == t && b == t, || format!("{t:?} unwrapped to {a:?} and {b:?}"));
    }
    for n in [-3i64, 0, 1, 9_999_999] {
        let w: WrappedV = Wrapped(n).into();
        let back: Wrapped = w.clone().into();
        ctx.check(w.version == 77 && w.t == n && back == Wrapped(n), || format!("newtype {n}: {w:?}, {back:?}"));
        let j: Json = Orig(n).into();
        let o: Orig = j.clone().into();
        ctx.check(j == Json(2 * n + 1) && o == Orig(n), || format!("proxy conversion of {n}: {j:?}, {o:?}"));
        let (a, b, c): (LeftV1, LeftV2, LeftV3) = (Left(n).into(), Left(n).into(), Left(n).into());
        let good = a.version == 3 && a.t == Inner(n + 1000) && b.version == 5 && b.t.version == 4 && b.t.t == Inner(n + 1000) && c.version == 8 && c.t.version == 7 && c.t.t.version == 6 && c.t.t.t == Inner(n + 1000);
        ctx.check(good, || format!("versioned proxies of {n}: {a:?} {b:?} {c:?}"));
        let (x, y, z): (Left, Left, Left) = (a.into(), b.into(), c.into());
        ctx.add(1, 8, 8);
        ctx.check(x == Left(n) && y == Left(n) && z == Left(n), || format!("versioned proxies of {n} and back: {x:?} {y:?} {z:?}"));
    }
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C15" => c15(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
