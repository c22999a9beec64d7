//! Readers and writers under a controlled environment: every call of `read` or `write` is a
//! choice point (how much is transferred, interruption, failure).
use crate::dynser::*;
use crate::gen;
use crate::loose::{self, R};
use crate::model::*;
use crate::scalar::clip;
use bin_prot::error::{Error, Result};
use bin_prot::{ReadBinProtExt, Value, WriteBinProtExt};
use mc_core::*;
use serde::de::DeserializeSeed;
use serde::Deserialize;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};

/// Which behaviours of the environment are explored.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Env {
    /// every partition of the data into transfers
    Chunks,
    /// transfers in full, except for a bounded number of deviations: partial transfer (each
    /// size), interruption, failure (for a while or for good)
    Faults,
}

pub struct Source<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub env: Env,
    pub ch: &'a RefCell<&'a mut Chooser>,
    /// bytes delivered before the first hard error
    pub failed_at: Option<usize>,
    pub sticky: bool,
    pub log: Vec<String>,
    pub record: bool,
}

const KINDS: [ErrorKind; 3] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], env: Env, ch: &'a RefCell<&'a mut Chooser>) -> Self {
        Source { data, at: 0, env, ch, failed_at: None, sticky: false, log: vec![], record: false }
    }
    fn note(&mut self, s: impl FnOnce() -> String) {
        if self.record {
            let s = s();
            self.log.push(s)
        }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.sticky {
            return Err(ErrorKind::Other.into());
        }
        let most = buf.len().min(self.data.len() - self.at);
        let n = match self.env {
            Env::Chunks => {
                if most > 1 {
                    // the default is a single byte
                    1 + self.ch.borrow_mut().choose(most)
                } else {
                    most
                }
            }
            Env::Faults => {
                // 0: in full; 1: interrupted; 2..=7: failure; then each shorter size
                let sizes = most.saturating_sub(1).min(12);
                match self.ch.borrow_mut().deviate(8 + sizes) {
                    0 => most,
                    1 => {
                        self.note(|| "interrupted".into());
                        return Err(ErrorKind::Interrupted.into());
                    }
                    k @ 2..=7 => {
                        self.sticky = k >= 5;
                        self.failed_at.get_or_insert(self.at);
                        self.note(|| format!("failure {:?}", KINDS[(k - 2) % 3]));
                        return Err(KINDS[(k - 2) % 3].into());
                    }
                    k => k - 7,
                }
            }
        };
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        self.note(|| format!("{n} bytes"));
        Ok(n)
    }
}

pub struct Sink<'a> {
    pub got: Vec<u8>,
    pub env: Env,
    pub ch: &'a RefCell<&'a mut Chooser>,
    pub failed_at: Option<usize>,
    pub zero: bool,
    pub sticky: bool,
}

impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.sticky {
            return Err(ErrorKind::Other.into());
        }
        let n = match self.env {
            Env::Chunks => {
                if buf.len() > 1 {
                    1 + self.ch.borrow_mut().choose(buf.len())
                } else {
                    1
                }
            }
            Env::Faults => {
                let sizes = (buf.len() - 1).min(12);
                match self.ch.borrow_mut().deviate(9 + sizes) {
                    0 => buf.len(),
                    1 => return Err(ErrorKind::Interrupted.into()),
                    k @ 2..=7 => {
                        self.sticky = k >= 5;
                        self.failed_at.get_or_insert(self.got.len());
                        return Err(KINDS[(k - 2) % 3].into());
                    }
                    8 => {
                        self.zero = true;
                        return Ok(0);
                    }
                    k => k - 8,
                }
            }
        };
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Values whose transfer is explored, smallest types first.
fn cases(thorough: bool) -> Vec<(Ty, Val)> {
    let few = [Ty::Bool, Ty::Int(Int::I64), Ty::Str, Ty::F64, Ty::Char];
    let mut v = vec![];
    for t in gen::leaves() {
        for x in gen::vals(&t, 1) {
            v.push((t.clone(), x));
        }
    }
    let mut more = gen::types_of_size(2, &gen::leaves());
    more.extend(gen::types_of_size(3, &few));
    if thorough {
        more.extend(gen::types_of_size(3, &gen::leaves()));
    }
    for t in more {
        let vs = gen::vals(&t, 0);
        let n = vs.len();
        let keep = if thorough { 24 } else { 6 };
        for (i, x) in vs.into_iter().enumerate() {
            // the last ones have the richest contents
            if i + keep >= n {
                v.push((t.clone(), x));
            }
        }
    }
    v.retain(|(t, x)| matches!(bytes_of(t, x), Some(b) if b.len() <= 24) && !has_refused(t, x));
    v
}

/// u64 values beyond the signed range (see the known finding of C03).
fn has_refused(t: &Ty, x: &Val) -> bool {
    let b = bytes_of(t, x).unwrap();
    decode(t, &mut Cur::new(&b)).as_ref() != Ok(x)
}

enum Via {
    Plain,
    OneShot,
    Strict,
}

fn read_via(ty: &Ty, src: &mut Source, via: &Via) -> Result<Val> {
    match via {
        Via::Plain => {
            let mut de = bin_prot::Deserializer::from_reader(src);
            Seed(ty).deserialize(&mut de)
        }
        Via::OneShot => with_type(ty, || bin_prot::from_reader::<_, Any>(src).map(|a| a.0)),
        Via::Strict => with_type(ty, || bin_prot::from_reader_strict::<_, Any>(src).map(|a| a.0)),
    }
}

/// Explore all behaviours of the reader while `f` decodes `data`; `want` judges the result
/// given the number of bytes delivered before a failure (or None).
fn sources<T: std::fmt::Debug>(
    ctx: &Ctx,
    what: &dyn Fn() -> String,
    data: &[u8],
    env: Env,
    bound: u32,
    f: &dyn Fn(&mut Source) -> Result<T>,
    judge: &dyn Fn(&Result<T>, Option<usize>) -> std::result::Result<(), String>,
) {
    let (mut errs, mut oks) = (0u64, 0u64);
    let x = explore(bound, |ch| {
        let choices;
        let (r, failed) = {
            let cell = RefCell::new(&mut *ch);
            let mut src = Source::new(data, env, &cell);
            let r = guarded(&|| format!("{} from [{}]", what(), hex(data)), || f(&mut src));
            (r, src.failed_at)
        };
        choices = ch.choices();
        let verdict = match &r {
            Outcome::Done(r) => {
                if r.is_ok() {
                    oks += 1
                } else {
                    errs += 1
                }
                judge(r, failed)
            }
            Outcome::Panic(m) => Err(format!("panic: {m}")),
        };
        if let Err(why) = verdict {
            // run once more to tell what the reader did
            let mut again = Chooser::replay(choices, bound);
            let cell = RefCell::new(&mut again);
            let mut src = Source::new(data, env, &cell);
            src.record = true;
            let _ = guarded(&what, || f(&mut src).is_ok());
            let log = src.log.join(", ");
            ctx.violate(|| format!("{} from [{}], reader delivers {}: {}", what(), hex(data), log, why));
            return false;
        }
        !ctx.stopped()
    });
    ctx.add(x.nodes, x.choices, x.runs);
    ctx.outcomes_n("ok", oks);
    ctx.outcomes_n("error", errs);
}

/// Decoding of a value: right result if the data delivered hold it, error otherwise.
fn judge_value<T: PartialEq + std::fmt::Debug>(want: &Option<(T, usize)>, r: &Result<T>, failed: Option<usize>, same: &dyn Fn(&T, &T) -> bool) -> std::result::Result<(), String> {
    let enough = |used: usize| failed.map_or(true, |f| f >= used);
    match (want, r) {
        (Some((v, used)), Ok(g)) if enough(*used) => {
            if same(v, g) {
                Ok(())
            } else {
                Err(format!("decoded to {}, the bytes stand for {}", clip(&format!("{g:?}")), clip(&format!("{v:?}"))))
            }
        }
        (Some((v, used)), Err(e)) if enough(*used) => match failed {
            // a failure after the value: reading ahead may or may not have met it
            Some(_) => Ok(()),
            None => Err(format!("refused with \"{e}\", the bytes stand for {}", clip(&format!("{v:?}")))),
        },
        (_, Ok(g)) => Err(format!("decoded to {} though the data delivered are incomplete or malformed", clip(&format!("{g:?}")))),
        (_, Err(_)) => Ok(()),
    }
}

pub fn c06(ctx: &Ctx) {
    let cases = cases(ctx.thorough());
    let full = if ctx.thorough() { 16 } else { 13 };
    let bound = if ctx.thorough() { 4 } else { 3 };
    ctx.bound(format!("{} values of types of up to 3 constructors with encodings of up to 24 bytes; every partition into transfers for encodings of up to {full} bytes; every placement of up to {bound} deviations (partial transfer of each size, interruption, one of 3 failures, passing or lasting) for all; the same for every proper prefix (end of stream at every point)", cases.len()));
    let eq = |a: &Val, b: &Val| a == b;
    par_for(ctx, cases.len(), |i| {
        let (ty, v) = &cases[i];
        let data = bytes_of(ty, v).unwrap();
        let _e = ctx.enter(|| format!("{} [{}]", show(ty), hex(&data)));
        for cut in (0..=data.len()).rev() {
            let d = &data[..cut];
            let want = if cut == data.len() { Some((v.clone(), cut)) } else { None };
            let what = || format!("decode {}", show(ty));
            for via in [Via::Plain, Via::OneShot] {
                if d.len() <= full && (cut == data.len() || d.len() <= full - 3) {
                    sources(ctx, &what, d, Env::Chunks, 0, &|s| read_via(ty, s, &via), &|r, f| judge_value(&want, r, f, &eq));
                }
                let b = if cut == data.len() { bound } else { 1 };
                sources(ctx, &what, d, Env::Faults, b, &|s| read_via(ty, s, &via), &|r, f| judge_value(&want, r, f, &eq));
                if ctx.stopped() {
                    return;
                }
            }
        }
        if i % 401 == 0 {
            ctx.sample(|| format!("{} [{}]: all readers within the bounds", show(ty), hex(&data)));
        }
    });
    direct(ctx, full, bound);
    loosely(ctx, full, bound);
    buffer_edge(ctx);
}

/// The reader extension methods on an unbuffered reader.
fn direct(ctx: &Ctx, full: usize, bound: u32) {
    type F = fn(&mut Source) -> Result<Val>;
    let ops: Vec<(&str, Ty, F)> = vec![
        ("bin_read_unit", Ty::Unit, |s| s.bin_read_unit().map(|_| Val::Unit)),
        ("bin_read_bool", Ty::Bool, |s| s.bin_read_bool().map(Val::Bool)),
        ("bin_read_char", Ty::Char, |s| s.bin_read_char().map(Val::Char)),
        ("bin_read_integer::<i64>", Ty::Int(Int::I64), |s| s.bin_read_integer::<i64>().map(|n| Val::Int(n as i128))),
        ("bin_read_integer::<u16>", Ty::Int(Int::U16), |s| s.bin_read_integer::<u16>().map(|n| Val::Int(n as i128))),
        ("bin_read_variant_index", Ty::U8, |s| s.bin_read_variant_index().map(|n| Val::Int(n as i128))),
        ("bin_read_string", Ty::Str, |s| s.bin_read_string().map(Val::Str)),
        ("bin_read_bytes", Ty::Str, |s| s.bin_read_bytes().map(|b| Val::Str(String::from_utf8(b).unwrap_or_default()))),
    ];
    let eq = |a: &Val, b: &Val| a == b;
    par_for(ctx, ops.len(), |i| {
        let (name, ty, f) = &ops[i];
        for v in gen::vals(ty, 1) {
            let data = bytes_of(ty, &v).unwrap();
            if data.len() > 24 {
                continue;
            }
            for cut in 0..=data.len() {
                let d = &data[..cut];
                let want = if cut == data.len() { Some((v.clone(), cut)) } else { None };
                let what = || name.to_string();
                if cut <= full {
                    sources(ctx, &what, d, Env::Chunks, 0, f, &|r, x| judge_value(&want, r, x, &eq));
                }
                sources(ctx, &what, d, Env::Faults, bound, f, &|r, x| judge_value(&want, r, x, &eq));
            }
        }
    });
    // nat0 and tags
    for n in [0u64, 127, 128, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, u64::MAX] {
        let mut d = vec![];
        put_nat0(n, &mut d);
        for cut in 0..=d.len() {
            let want = if cut == d.len() { Some((n, cut)) } else { None };
            sources(ctx, &|| "bin_read_nat0".into(), &d[..cut], Env::Chunks, 0, &|s| s.bin_read_nat0::<u64>(), &|r, x| judge_value(&want, r, x, &|a, b| a == b));
            sources(ctx, &|| "bin_read_nat0".into(), &d[..cut], Env::Faults, bound, &|s| s.bin_read_nat0::<u64>(), &|r, x| judge_value(&want, r, x, &|a, b| a == b));
        }
    }
    for t in [0u32, 1, 0x123456, 0x7fff_ffff] {
        let d = (t << 1 | 1).to_le_bytes();
        for cut in 0..=4 {
            let want = if cut == 4 { Some((t, 4)) } else { None };
            sources(ctx, &|| "bin_read_polyvar_tag".into(), &d[..cut], Env::Chunks, 0, &|s| s.bin_read_polyvar_tag(), &|r, x| judge_value(&want, r, x, &|a, b| a == b));
            sources(ctx, &|| "bin_read_polyvar_tag".into(), &d[..cut], Env::Faults, bound, &|s| s.bin_read_polyvar_tag(), &|r, x| judge_value(&want, r, x, &|a, b| a == b));
        }
    }
}

/// Layout-driven decoding.
fn loosely(ctx: &Ctx, full: usize, bound: u32) {
    let mut cs: Vec<(R, Vec<u8>)> = vec![];
    let int = || R::Int("Int");
    for (r, bs) in [
        (int(), vec![vec![5u8], vec![0xff, 0x80], vec![0xfe, 0x34, 0x12], vec![0xfd, 1, 2, 3, 4], vec![0xfc, 1, 2, 3, 4, 5, 6, 7, 8]]),
        (R::Float, vec![vec![1, 2, 3, 4, 5, 6, 0xf0, 0x3f]]),
        (R::Str, vec![vec![0], vec![3, b'a', 0xff, b'c'], vec![0xfe, 2, 0, b'x', b'y']]),
        (R::List(Box::new(int())), vec![vec![0], vec![2, 1, 0xfe, 0, 1], vec![0xfe, 1, 0, 7]]),
        (R::Opt(Box::new(R::Char)), vec![vec![0], vec![1, 0xe9]]),
        (R::Rec(vec![("a", R::Bool), ("b", R::Tuple(vec![R::Char, R::Unit]))]), vec![vec![1, 0x41, 0]]),
        (R::Sum(vec![("A", 1, vec![int(), R::Bool]), ("B", 0, vec![])]), vec![vec![0], vec![1, 0xff, 0xff, 1]]),
        (R::Poly(vec![("One", label_hash("One"), vec![R::Bool]), ("Two", label_hash("Two"), vec![])]), vec![[(label_hash("One") << 1 | 1).to_le_bytes().to_vec(), vec![1]].concat(), (label_hash("Two") << 1 | 1).to_le_bytes().to_vec()]),
        (R::Vector(loose::VECTORS[1].0, 2, Box::new(R::Bool)), vec![vec![1, 0, 0]]),
        (R::Big(loose::BIGS[0]), vec![(1..33).collect()]),
    ] {
        for b in bs {
            cs.push((r.clone(), b));
        }
    }
    par_for(ctx, cs.len(), |i| {
        let (r, data) = &cs[i];
        let rule = loose::rule(r);
        for cut in 0..=data.len() {
            let d = &data[..cut];
            let want: Option<(Value, usize)> = if cut == data.len() {
                let mut c = Cur::new(d);
                let v = loose::decode(r, &mut c).expect("test data");
                assert_eq!(c.at, cut);
                Some((v, cut))
            } else {
                None
            };
            let f = |s: &mut Source| Value::deserialize(&mut bin_prot::Deserializer::from_reader(s).with_layout(&rule));
            let what = || format!("decode by layout {}", loose::show(r));
            if d.len() <= full {
                sources(ctx, &what, d, Env::Chunks, 0, &f, &|r, x| judge_value(&want, r, x, &loose::same));
            }
            sources(ctx, &what, d, Env::Faults, bound, &f, &|r, x| judge_value(&want, r, x, &loose::same));
        }
    });
}

/// A value after padding that brings it to every position around the buffer size of the
/// deserializer (8 KiB), delivered in full, with partial transfers and in fixed-size pieces.
fn buffer_edge(ctx: &Ctx) {
    ctx.bound("values placed at every offset around the 8 KiB and 16 KiB buffer edges, delivered in pieces of each of 9 sizes");
    let inner = [
        (Ty::Int(Int::I64), Val::Int(0x0102_0304_0506_0708)),
        (Ty::F64, Val::F64(0x4009_21fb_5444_2d18)),
        (Ty::Poly(gen::enum_ty(&["One", "Two"], vec![Body::Unit, Body::Newtype(Ty::Int(Int::I32))])), Val::Var(1, vec![Val::Int(-70000)])),
        (Ty::Str, Val::Str("0123456789abcdef".into())),
        (Ty::Seq(Box::new(Ty::Int(Int::I16))), Val::Seq(vec![Val::Int(300), Val::Int(-300), Val::Int(5)])),
    ];
    struct Pieces<'a>(&'a [u8], usize);
    impl Read for Pieces<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let n = buf.len().min(self.0.len()).min(self.1);
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let pads: Vec<usize> = (8160..8200).chain(16350..16390).collect();
    par_for(ctx, pads.len(), |i| {
        for (t, v) in &inner {
            let ty = Ty::Tuple(vec![Ty::Str, t.clone(), Ty::U8]);
            let val = Val::Rec(vec![Val::Str("p".repeat(pads[i])), v.clone(), Val::Int(0xa5)]);
            let data = bytes_of(&ty, &val).unwrap();
            for piece in [1usize, 2, 3, 7, 4095, 4096, 8191, 8192, 100_000] {
                for cut in [0usize, 1, 2] {
                    let d = &data[..data.len() - cut];
                    let r = guarded(&|| format!("{} after {} bytes", show(t), pads[i]), || Seed(&ty).deserialize(&mut bin_prot::Deserializer::from_reader(Pieces(d, piece))));
                    ctx.add(1, 1, 1);
                    let good = match &r {
                        Outcome::Done(Ok(g)) => cut == 0 && *g == val,
                        Outcome::Done(Err(_)) => cut > 0,
                        _ => false,
                    };
                    ctx.check(good, || format!("{} after a string of {} bytes, delivered in pieces of {piece} bytes, {cut} bytes missing: {}", show(t), pads[i], clip(&crate::drive::say(&r))));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- writers

fn sinks(ctx: &Ctx, what: &dyn Fn() -> String, want: &[u8], env: Env, bound: u32, f: &dyn Fn(&mut Sink) -> std::result::Result<(), String>) {
    let (mut errs, mut oks) = (0u64, 0u64);
    let x = explore(bound, |ch| {
        let (r, got, failed, zero) = {
            let cell = RefCell::new(&mut *ch);
            let mut w = Sink { got: vec![], env, ch: &cell, failed_at: None, zero: false, sticky: false };
            let r = guarded(&|| what(), || f(&mut w));
            (r, w.got, w.failed_at, w.zero)
        };
        let verdict = match &r {
            Outcome::Panic(m) => Err(format!("panic: {m}")),
            Outcome::Done(Ok(())) => {
                oks += 1;
                if failed.is_some() {
                    Err("success reported though the writer failed".to_string())
                } else if got != want {
                    Err(format!("success reported, the writer received [{}], the encoding is [{}]", hex(&got), hex(want)))
                } else {
                    Ok(())
                }
            }
            Outcome::Done(Err(e)) => {
                errs += 1;
                if !want.starts_with(&got) {
                    Err(format!("failed, the writer received [{}], not a prefix of the encoding [{}]", hex(&got), hex(want)))
                } else if failed.map_or(false, |n| got.len() > n) {
                    Err("went on writing after the writer failed".to_string())
                } else if failed.is_none() && !zero {
                    Err(format!("refused with \"{e}\" though the writer did not fail"))
                } else {
                    Ok(())
                }
            }
        };
        if let Err(why) = verdict {
            let c = ch.choices();
            ctx.violate(|| format!("{}, writer behaviour {:?} ({env:?}): {}", what(), c, why));
            return false;
        }
        !ctx.stopped()
    });
    ctx.add(x.nodes, x.choices, x.runs);
    ctx.outcomes_n("ok", oks);
    ctx.outcomes_n("error", errs);
}

pub fn c07(ctx: &Ctx) {
    let cases = cases(ctx.thorough());
    let bound = if ctx.thorough() { 4 } else { 3 };
    ctx.bound(format!("{} values of types of up to 3 constructors with encodings of up to 24 bytes; every partition of each write into partial writes (multi-byte writes), every placement of up to {bound} deviations (partial write of each size, interruption, zero-length write, one of 3 failures, passing or lasting)", cases.len()));
    par_for(ctx, cases.len(), |i| {
        let (ty, v) = &cases[i];
        let data = bytes_of(ty, v).unwrap();
        let _e = ctx.enter(|| format!("{} [{}]", show(ty), hex(&data)));
        let what = || format!("encode {} value {:?}", show(ty), v);
        let f = |w: &mut Sink| bin_prot::to_writer(w, &Dyn(ty, v)).map_err(|e| e.to_string());
        if data.len() <= 12 {
            sinks(ctx, &what, &data, Env::Chunks, 0, &f);
        }
        sinks(ctx, &what, &data, Env::Faults, bound, &f);
        if i % 401 == 0 {
            ctx.sample(|| format!("{} [{}]: all writers within the bounds", show(ty), hex(&data)));
        }
    });
    // the writer extension methods, which also report a byte count
    type F = fn(&mut Sink) -> io::Result<usize>;
    let mut ops: Vec<(String, Vec<u8>, Box<dyn Fn(&mut Sink) -> io::Result<usize> + Sync>)> = vec![];
    let _: Option<F> = None;
    for n in gen::ints(Int::I64, 1) {
        let mut d = vec![];
        put_int(n, &mut d);
        ops.push((format!("bin_write_integer({n})"), d, Box::new(move |w| w.bin_write_integer(n as i64))));
    }
    for n in [0u64, 127, 128, 255, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, u64::MAX] {
        let mut d = vec![];
        put_nat0(n, &mut d);
        ops.push((format!("bin_write_nat0({n})"), d, Box::new(move |w| w.bin_write_nat0(n))));
    }
    ops.push(("bin_write_float32".into(), 1.5f32.to_le_bytes().to_vec(), Box::new(|w| w.bin_write_float32(&1.5))));
    ops.push(("bin_write_float64".into(), 2.7f64.to_le_bytes().to_vec(), Box::new(|w| w.bin_write_float64(&2.7))));
    ops.push(("bin_write_polyvar_tag".into(), (0x1234567u32 << 1 | 1).to_le_bytes().to_vec(), Box::new(|w| w.bin_write_polyvar_tag(0x1234567))));
    ops.push(("bin_write_variant_index".into(), vec![9], Box::new(|w| w.bin_write_variant_index(9))));
    ops.push(("bin_write_char".into(), vec![0xe9], Box::new(|w| w.bin_write_char('\u{e9}'))));
    ops.push(("bin_write_bool".into(), vec![1], Box::new(|w| w.bin_write_bool(true).map(|_| 1))));
    ops.push(("bin_write_unit".into(), vec![0], Box::new(|w| w.bin_write_unit().map(|_| 1))));
    par_for(ctx, ops.len(), |i| {
        let (name, data, f) = &ops[i];
        let g = |w: &mut Sink| match f(w) {
            Ok(n) if n == data.len() => Ok(()),
            Ok(n) => {
                ctx.violate(|| format!("{name} reports {n} bytes written, the encoding has {}", data.len()));
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        };
        sinks(ctx, &|| name.clone(), data, Env::Chunks, 0, &g);
        sinks(ctx, &|| name.clone(), data, Env::Faults, bound + 1, &g);
    });
    // loosely typed values
    let vals = [
        Value::Tuple(vec![Value::Int(-70000), Value::Float(1.25), Value::Char(0xe9)]),
        Value::List(vec![Value::Int(300), Value::Int(3)]),
        Value::String(b"ab\xff".to_vec()),
        Value::Record(vec![("a".into(), Value::Option(Some(Box::new(Value::Bool(true))))), ("b".into(), Value::Unit)]),
        Value::Sum { name: "A".into(), index: 3, value: Box::new(Value::Tuple(vec![Value::Int(5)])) },
        Value::Polyvar { name: "P".into(), tag: 0x12_3456, value: Box::new(Value::Tuple(vec![Value::Bool(false)])) },
    ];
    par_for(ctx, vals.len(), |i| {
        let data = loose::bytes(&vals[i]);
        let f = |w: &mut Sink| bin_prot::to_writer(w, &vals[i]).map_err(|e| e.to_string());
        sinks(ctx, &|| format!("encode {:?}", vals[i]), &data, Env::Chunks, 0, &f);
        sinks(ctx, &|| format!("encode {:?}", vals[i]), &data, Env::Faults, bound, &f);
    });
}

pub fn c08(ctx: &Ctx) {
    let cases = cases(ctx.thorough());
    let full = if ctx.thorough() { 16 } else { 13 };
    let bound = if ctx.thorough() { 4 } else { 3 };
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0x80], vec![0xff], vec![0, 0], vec![7, 8, 9]];
    ctx.bound(format!("{} values followed by each of {} tails; every partition into transfers up to {full} bytes, every placement of up to {bound} deviations otherwise; tails after values that end around the 8 KiB buffer edge", cases.len(), tails.len()));
    par_for(ctx, cases.len(), |i| {
        let (ty, v) = &cases[i];
        let data = bytes_of(ty, v).unwrap();
        let _e = ctx.enter(|| format!("{} [{}]", show(ty), hex(&data)));
        for tail in &tails {
            let mut d = data.clone();
            d.extend(tail);
            let judge = |r: &Result<Val>, failed: Option<usize>| match r {
                Ok(g) if failed.is_some() => Err(format!("accepted ({}) though the reader failed before the end of the stream", clip(&format!("{g:?}")))),
                Ok(g) if !tail.is_empty() => Err(format!("accepted ({}) with {} bytes left over", clip(&format!("{g:?}")), tail.len())),
                Ok(g) if g != v => Err(format!("decoded to {}", clip(&format!("{g:?}")))),
                Ok(_) => Ok(()),
                Err(e) if failed.is_none() && tail.is_empty() => Err(format!("a fully consumed stream was refused: {e}")),
                Err(_) => Ok(()),
            };
            let what = || format!("strictly decode {}", show(ty));
            if d.len() <= full {
                sources(ctx, &what, &d, Env::Chunks, 0, &|s| read_via(ty, s, &Via::Strict), &judge);
            }
            let b = if tail.len() <= 1 { bound } else { 1 };
            sources(ctx, &what, &d, Env::Faults, b, &|s| read_via(ty, s, &Via::Strict), &judge);
            if ctx.stopped() {
                return;
            }
        }
    });
    // around the buffer edge
    let pads: Vec<usize> = (8170..8200).chain(16360..16390).collect();
    par_for(ctx, pads.len(), |i| {
        let ty = Ty::Str;
        let val = Val::Str("p".repeat(pads[i]));
        for tail in 0..4usize {
            let mut d = bytes_of(&ty, &val).unwrap();
            d.extend(vec![0u8; tail]);
            let judge = |r: &Result<Val>, failed: Option<usize>| match r {
                Ok(_) if failed.is_some() => Err("accepted though the reader failed".into()),
                Ok(g) if tail > 0 || *g != val => Err(format!("a string of {} bytes with {tail} bytes left over was accepted", pads[i])),
                Ok(_) => Ok(()),
                Err(e) if failed.is_none() && tail == 0 => Err(format!("refused: {e}")),
                Err(_) => Ok(()),
            };
            sources(ctx, &|| format!("strictly decode a string of {} bytes", pads[i]), &d, Env::Faults, 2, &|s| read_via(&ty, s, &Via::Strict), &judge);
        }
    });
    let _: Option<Error> = None;
}
