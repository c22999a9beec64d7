//! C01: scalars are written byte for byte as the format prescribes.
//! C04: integers are read to exactly their value or refused.
use crate::drive::*;
use crate::gen;
use crate::model::*;
use bin_prot::{ReadBinProtExt, WriteBinProtExt};
use mc_core::*;
use serde::{Deserialize, Serialize};

/// Values to sweep for a 64-bit domain: every power of two and its neighbourhood, and every
/// value with at most two bytes that differ from an all-zeros or all-ones background.
fn wide(radius: i128, f: &mut dyn FnMut(i128)) {
    for s in 0..=64u32 {
        for d in -radius..=radius {
            f((1i128 << s) + d);
            f(-(1i128 << s) + d);
        }
    }
    for bg in [0u64, u64::MAX] {
        for i in 0..8 {
            for j in 0..i {
                for a in 0..=255u64 {
                    for b in 0..=255u64 {
                        let m = !(0xffu64 << (8 * i)) & !(0xffu64 << (8 * j));
                        let v = (bg & m) | a << (8 * i) | b << (8 * j);
                        f(v as i128);
                        f(v as i64 as i128);
                    }
                }
            }
        }
    }
}

trait Width: Serialize + Copy + std::fmt::Debug {
    const K: Int;
    fn of(v: i128) -> Self;
}
macro_rules! width {
    ($($t:ty, $k:ident);*) => { $(impl Width for $t { const K: Int = Int::$k; fn of(v: i128) -> Self { v as $t } })* };
}
width!(i8, I8; i16, I16; i32, I32; i64, I64; u16, U16; u32, U32; u64, U64);

#[derive(Serialize)]
struct AsInteger<T: Into<i64> + Copy>(#[serde(with = "bin_prot::integers::integer")] T);
#[derive(Serialize)]
struct AsNat<T: Into<u64> + Copy>(#[serde(serialize_with = "nat_ser")] T);
fn nat_ser<T: Into<u64> + Copy, S: serde::Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
    let v: u64 = (*t).into();
    bin_prot::integers::nat0::serialize(&v, s)
}
impl<'de, T: Into<i64> + Copy> Deserialize<'de> for AsInteger<T> {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        unimplemented!()
    }
}

/// Reused buffers for the sweeps.
struct Sweep<'a> {
    ctx: &'a Ctx,
    out: Vec<u8>,
    want: Vec<u8>,
    n: u64,
    calls: u64,
    bytes: u64,
}

impl<'a> Sweep<'a> {
    fn new(ctx: &'a Ctx) -> Self {
        Sweep { ctx, out: Vec::with_capacity(64), want: Vec::with_capacity(64), n: 0, calls: 0, bytes: 0 }
    }
    fn int<T: Width>(&mut self, v: i128) {
        self.out.clear();
        self.want.clear();
        // u64 beyond the signed range goes out as the 64-bit pattern of the same bits
        put_int(if T::K == Int::U64 { v as u64 as i64 as i128 } else { v }, &mut self.want);
        let r = bin_prot::to_writer(&mut self.out, &T::of(v));
        self.n += 1;
        self.bytes += self.out.len() as u64;
        if r.is_err() || self.out != self.want {
            let (o, w) = (hex(&self.out), hex(&self.want));
            self.ctx.violate(|| format!("{:?} value {v}: written [{o}] ({:?}), the format prescribes [{w}]", T::K, r.is_ok()));
        }
    }
    fn via_writer(&mut self, what: &str, v: i128, nat: bool, f: impl FnOnce(&mut Vec<u8>) -> std::io::Result<usize>) {
        self.out.clear();
        self.want.clear();
        if nat {
            put_nat0(v as u64, &mut self.want)
        } else {
            put_int(v, &mut self.want)
        }
        let r = f(&mut self.out);
        self.calls += 1;
        self.bytes += self.out.len() as u64;
        if self.out != self.want || r.as_ref().ok() != Some(&self.want.len()) {
            let (o, w) = (hex(&self.out), hex(&self.want));
            self.ctx.violate(|| format!("{what} value {v}: written [{o}], reported {:?}, the format prescribes [{w}]", r));
        }
    }
    fn done(self) {
        self.ctx.add(self.n, self.bytes, self.n + self.calls);
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.bound("i8, i16, u8, u16: every value; i32, u32 and 32-bit naturals: every value (all 2^32); 64-bit: 2^k +- 70000 for every k and every value that differs from 00..00 or ff..ff in at most two bytes");
    ctx.bound("char: every Unicode scalar value; f32/f64: every sign/exponent with boundary mantissas (thorough: every f32)");
    // narrow widths, complete
    let mut s = Sweep::new(ctx);
    for v in i16::MIN as i128..=u16::MAX as i128 {
        if Int::I8.fits(v) {
            s.int::<i8>(v);
        }
        if Int::I16.fits(v) {
            s.int::<i16>(v);
        }
        if Int::U16.fits(v) {
            s.int::<u16>(v);
        }
    }
    for b in 0..=255u8 {
        s.out.clear();
        let ok = bin_prot::to_writer(&mut s.out, &b).is_ok() && s.out == [b];
        s.n += 1;
        ctx.check(ok, || format!("u8 {b}: written [{}]", hex(&s.out)));
    }
    s.done();
    // 32 bit, complete, in blocks
    const BLK: u64 = 1 << 22;
    par_for(ctx, (1u64 << 32).div_euclid(BLK) as usize, |i| {
        let mut s = Sweep::new(ctx);
        let r = guarded(&|| format!("32-bit sweep, block {i}"), || {
            for v in i as u64 * BLK..(i as u64 + 1) * BLK {
                s.int::<i32>(v as u32 as i32 as i128);
                s.int::<u32>(v as i128);
                if v < (1 << 26) || (v & 0xffff) < 0x10 || (v & 0xffff) > 0xfff0 {
                    s.via_writer("bin_write_nat0(u32)", v as i128, true, |o| o.bin_write_nat0(v as u32));
                    s.via_writer("bin_write_integer(i32)", v as u32 as i32 as i128, false, |o| o.bin_write_integer(v as u32 as i32));
                }
            }
        });
        if let Outcome::Panic(m) = r {
            ctx.violate(|| format!("32-bit integer: panic {m}"));
        }
        s.done();
    });
    if ctx.stopped() {
        return;
    }
    // 64 bit
    let mut s = Sweep::new(ctx);
    let r = guarded(&|| "64-bit sweep".into(), || {
        wide(if ctx.thorough() { 600_000 } else { 70_000 }, &mut |v| {
            if Int::I64.fits(v) {
                s.int::<i64>(v);
            }
            if Int::U64.fits(v) {
                s.int::<u64>(v);
                s.via_writer("bin_write_nat0(u64)", v, true, |o| o.bin_write_nat0(v as u64));
            }
        })
    });
    if let Outcome::Panic(m) = r {
        ctx.violate(|| format!("64-bit integer: panic {m}"));
    }
    for v in gen::ints(Int::I64, 2) {
        s.via_writer("bin_write_integer(i64)", v, false, |o| o.bin_write_integer(v as i64));
        s.via_writer("with=integer (i64)", v, false, |o| {
            bin_prot::to_writer(o, &AsInteger(v as i64)).unwrap();
            Ok(o.len())
        });
        if v >= 0 {
            s.via_writer("with=nat0 (u64)", v, true, |o| {
                bin_prot::to_writer(o, &AsNat(v as u64)).unwrap();
                Ok(o.len())
            });
        }
        if Int::I8.fits(v) {
            s.via_writer("bin_write_integer(i8)", v, false, |o| o.bin_write_integer(v as i8));
        }
        if Int::I16.fits(v) {
            s.via_writer("bin_write_integer(i16)", v, false, |o| o.bin_write_integer(v as i16));
        }
        if Int::I32.fits(v) {
            s.via_writer("with=integer (i32)", v, false, |o| {
                bin_prot::to_writer(o, &AsInteger(v as i32)).unwrap();
                Ok(o.len())
            });
        }
        if (0..256).contains(&v) {
            s.via_writer("bin_write_nat0(u8)", v, true, |o| o.bin_write_nat0(v as u8));
        }
        if Int::U16.fits(v) {
            s.via_writer("bin_write_nat0(u16)", v, true, |o| o.bin_write_nat0(v as u16));
            s.via_writer("bin_write_integer(u16)", v, false, |o| o.bin_write_integer(v as u16));
        }
        if Int::U32.fits(v) {
            s.via_writer("bin_write_integer(u32)", v, false, |o| o.bin_write_integer(v as u32));
        }
    }
    ctx.sample(|| format!("i64 value -129: [{}]", hex(&bytes_of(&Ty::Int(Int::I64), &Val::Int(-129)).unwrap())));
    // chars
    for c in '\0'..=char::MAX {
        let want = (c as u32 <= 0xff).then_some(vec![c as u32 as u8]);
        s.out.clear();
        let r = bin_prot::to_writer(&mut s.out, &c).is_ok();
        s.n += 1;
        let ok = match &want {
            Some(w) => r && s.out == *w,
            None => !r && s.out.is_empty(),
        };
        ctx.check(ok, || format!("char {c:?}: ok={r}, written [{}], expected {:?}", hex(&s.out), want));
        if c as u32 <= 0x2ff {
            let mut o = vec![];
            let r = o.bin_write_char(c);
            ctx.check(want.is_some() == r.is_ok() && want.unwrap_or_default() == o, || format!("bin_write_char({c:?}): {:?} [{}]", r, hex(&o)));
        }
    }
    // unit, bool
    for (ty, v) in [(Ty::Unit, Val::Unit), (Ty::UnitStruct, Val::Unit), (Ty::Bool, Val::Bool(false)), (Ty::Bool, Val::Bool(true))] {
        let o = enc(&ty, &v);
        let good = matches!(&o, Outcome::Done(Ok(b)) if Some(b) == bytes_of(&ty, &v).as_ref());
        ctx.check(good, || format!("{} {:?}: {}", show(&ty), v, say(&o)));
        s.n += 1;
    }
    let mut o = vec![];
    let _ = (o.bin_write_unit(), o.bin_write_bool(true), o.bin_write_bool(false));
    for i in 0..=255u8 {
        let r = o.bin_write_variant_index(i);
        ctx.check(r.as_ref().ok() == Some(&1), || format!("bin_write_variant_index({i}): {:?}", r));
    }
    ctx.check(o[..3] == [0, 1, 0] && o[3..] == (0..=255).collect::<Vec<u8>>()[..], || format!("unit, bool or variant index: [{}]", hex(&o)));
    // floats
    let mant32 = [0u32, 1, 2, 0x3f_ffff, 0x40_0000, 0x40_0001, 0x7f_ffff, 0x12_3456];
    for se in 0..512u32 {
        for m in mant32 {
            float32(&mut s, se << 23 | m);
        }
    }
    for se in 0..4096u64 {
        for m in [0u64, 1, 0x7_ffff_ffff_ffff, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x1_2345_6789_abcd] {
            let bits = se << 52 | m;
            s.out.clear();
            let r = bin_prot::to_writer(&mut s.out, &f64::from_bits(bits)).is_ok();
            let mut d = vec![];
            let n = d.bin_write_float64(&f64::from_bits(bits));
            s.n += 1;
            ctx.check(r && s.out == bits.to_le_bytes() && d == s.out && n.ok() == Some(8), || format!("f64 {bits:016x}: [{}]", hex(&s.out)));
        }
    }
    s.done();
    if ctx.thorough() {
        par_for(ctx, 1 << 10, |i| {
            let mut s = Sweep::new(ctx);
            for b in 0..1u32 << 22 {
                float32(&mut s, (i as u32) << 22 | b);
            }
            s.done();
        });
    }
}

fn float32(s: &mut Sweep, bits: u32) {
    s.out.clear();
    let r = bin_prot::to_writer(&mut s.out, &f32::from_bits(bits)).is_ok();
    s.want.clear();
    let n = s.want.bin_write_float32(&f32::from_bits(bits));
    s.n += 1;
    let (ctx, o) = (s.ctx, &s.out);
    ctx.check(r && *o == bits.to_le_bytes() && s.want == *o && n.ok() == Some(4), || format!("f32 {bits:08x}: [{}]", hex(o)));
}

// ------------------------------------------------------------------ C04

/// Real reading entry points for one number, by destination.
fn read_direct(dst: &str, b: &[u8]) -> Option<Result<(i128, usize), String>> {
    fn go<T>(b: &[u8], f: impl FnOnce(&mut &[u8]) -> bin_prot::error::Result<T>, c: impl FnOnce(T) -> i128) -> Option<Result<(i128, usize), String>> {
        let mut r = b;
        Some(match f(&mut r) {
            Ok(v) => Ok((c(v), r.len())),
            Err(e) => Err(e.to_string()),
        })
    }
    match dst {
        "i8" => go(b, |r| r.bin_read_integer::<i8>(), |v| v as i128),
        "i16" => go(b, |r| r.bin_read_integer::<i16>(), |v| v as i128),
        "i32" => go(b, |r| r.bin_read_integer::<i32>(), |v| v as i128),
        "i64" => go(b, |r| r.bin_read_integer::<i64>(), |v| v as i128),
        "i128" => go(b, |r| r.bin_read_integer::<i128>(), |v| v),
        "isize" => go(b, |r| r.bin_read_integer::<isize>(), |v| v as i128),
        "u8" => go(b, |r| r.bin_read_integer::<u8>(), |v| v as i128),
        "u16" => go(b, |r| r.bin_read_integer::<u16>(), |v| v as i128),
        "u32" => go(b, |r| r.bin_read_integer::<u32>(), |v| v as i128),
        "u64" => go(b, |r| r.bin_read_integer::<u64>(), |v| v as i128),
        "nat u8" => go(b, |r| r.bin_read_nat0::<u8>(), |v| v as i128),
        "nat u16" => go(b, |r| r.bin_read_nat0::<u16>(), |v| v as i128),
        "nat u32" => go(b, |r| r.bin_read_nat0::<u32>(), |v| v as i128),
        "nat u64" => go(b, |r| r.bin_read_nat0::<u64>(), |v| v as i128),
        "nat usize" => go(b, |r| r.bin_read_nat0::<usize>(), |v| v as i128),
        _ => None,
    }
}

fn range_of(dst: &str) -> (i128, i128) {
    match dst.trim_start_matches("nat ") {
        "i8" => Int::I8.range(),
        "i16" => Int::I16.range(),
        "i32" => Int::I32.range(),
        "i64" | "isize" => Int::I64.range(),
        "i128" => (i128::MIN, i128::MAX),
        "u8" => (0, 255),
        "u16" => Int::U16.range(),
        "u32" => Int::U32.range(),
        _ => Int::U64.range(),
    }
}

/// The byte strings explored: every first byte; for each size code every prefix of the
/// payload and the payload alphabets below.
fn number_inputs(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let a17 = [0u8, 1, 2, 0x0f, 0x10, 0x34, 0x7e, 0x7f, 0x80, 0x81, 0xab, 0xc0, 0xfb, 0xfc, 0xfd, 0xfe, 0xff];
    let a5 = if thorough { vec![0u8, 1, 0x7f, 0x80, 0xfe, 0xff] } else { vec![0u8, 1, 0x7f, 0x80, 0xff] };
    for c in 0..=255u8 {
        v.push(vec![c]);
        for x in [0u8, 0x80, 0xff] {
            v.push(vec![c, x]);
        }
    }
    for x in 0..=255u8 {
        v.push(vec![0xff, x]);
        v.push(vec![0xfe, x]);
        for y in 0..=255u8 {
            v.push(vec![0xfe, x, y]);
        }
    }
    fn fill(pre: &mut Vec<u8>, n: usize, a: &dyn Fn(usize) -> Vec<u8>, v: &mut Vec<Vec<u8>>) {
        v.push(pre.clone());
        if n == 0 {
            return;
        }
        for x in a(n) {
            pre.push(x);
            fill(pre, n - 1, a, v);
            pre.pop();
        }
    }
    fill(&mut vec![0xfd], 4, &|_| a17.to_vec(), &mut v);
    fill(&mut vec![0xfc], 8, &|_| a5.clone(), &mut v);
    v.sort();
    v.dedup();
    v
}

pub fn c04(ctx: &Ctx) {
    ctx.bound("every first byte; every 1- and 2-byte payload; 4-byte payloads over 17 byte values each, 8-byte payloads over 5 (thorough 6), and every truncation of each; read directly at 15 destination widths and through 7 integer types, alone and as list and string lengths");
    let inputs = number_inputs(ctx.thorough());
    let dsts = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "nat u8", "nat u16", "nat u32", "nat u64", "nat usize"];
    const CH: usize = 2048;
    par_for(ctx, (inputs.len() + CH - 1) / CH, |blk| {
        let (mut n, mut ok, mut bad, mut eof) = (0u64, 0u64, 0u64, 0u64);
        for b in &inputs[blk * CH..((blk + 1) * CH).min(inputs.len())] {
            for dst in dsts {
                let nat = dst.starts_with("nat");
                let mut c = Cur::new(b);
                let want = if nat { c.nat0().map(|v| v as i128) } else { c.int() };
                let (lo, hi) = range_of(dst);
                let want = want.and_then(|v| if lo <= v && v <= hi { Ok((v, b.len() - c.at)) } else { Err(Stop::Invalid) });
                match &want {
                    Ok(_) => ok += 1,
                    Err(Stop::Invalid) => bad += 1,
                    Err(Stop::More(_)) => eof += 1,
                }
                let got = guarded(&|| format!("read {dst} from [{}]", hex(b)), || read_direct(dst, b).unwrap());
                n += 1;
                let good = match (&want, &got) {
                    (Ok(w), Outcome::Done(Ok(g))) => w == g,
                    (Err(_), Outcome::Done(Err(_))) => true,
                    _ => false,
                };
                if !ctx.check(good, || format!("reading a number as {dst} from [{}]: got {:?}, expected {:?} (value, bytes left)", hex(b), got, want)) {
                    return;
                }
            }
            for k in Int::ALL {
                let ty = Ty::Int(k);
                let mut c = Cur::new(b);
                let want = decode(&ty, &mut c).map(|v| (v, b.len() - c.at));
                n += 1;
                if !agree(ctx, &ty, b, &want) {
                    return;
                }
            }
        }
        let b: usize = inputs[blk * CH..((blk + 1) * CH).min(inputs.len())].iter().map(|b| b.len()).sum();
        ctx.add((((blk + 1) * CH).min(inputs.len()) - blk * CH) as u64 * 22, 22 * b as u64, n);
        ctx.outcomes_n("accepted", ok);
        ctx.outcomes_n("refused", bad);
        ctx.outcomes_n("incomplete", eof);
    });
    // numbers as lengths: the list or string has exactly that many elements
    for len in (0..=300u64).chain([32767, 32768, 65535, 65536, 65537, 70000]) {
        let mut forms: Vec<Vec<u8>> = vec![];
        let mut canon = vec![];
        put_nat0(len, &mut canon);
        forms.push(canon);
        for (code, n) in [(0xfeu8, 2usize), (0xfd, 4), (0xfc, 8)] {
            if n == 8 || len < 1u64 << (8 * n) {
                let mut f = vec![code];
                f.extend(&len.to_le_bytes()[..n]);
                forms.push(f);
            }
        }
        forms.dedup();
        for mut b in forms {
            b.extend(std::iter::repeat(0x01).take(len as usize));
            b.push(0x7e);
            for (ty, want) in [
                (Ty::Str, Val::Str("\u{1}".repeat(len as usize))),
                (Ty::Seq(Box::new(Ty::Bool)), Val::Seq(vec![Val::Bool(true); len as usize])),
                (Ty::Seq(Box::new(Ty::U8)), Val::Seq(vec![Val::Int(1); len as usize])),
            ] {
                ctx.add(1, b.len() as u64, 1);
                if !agree(ctx, &ty, &b, &Ok((want, 1))) {
                    return;
                }
            }
        }
    }
    if ctx.thorough() {
        // every 4-byte payload
        par_for(ctx, 1 << 10, |i| {
            let mut n = 0;
            for lo in 0..1u32 << 22 {
                let v = (i as u32) << 22 | lo;
                let mut b = [0xfd, 0, 0, 0, 0];
                b[1..].copy_from_slice(&v.to_le_bytes());
                n += 3;
                let s = (&b[..]).bin_read_integer::<i32>().ok();
                let u = (&b[..]).bin_read_integer::<u32>().ok();
                let w = (&b[..]).bin_read_nat0::<u32>().ok();
                let sv = v as i32;
                if !ctx.check(s == Some(sv) && u == u32::try_from(sv).ok() && w == Some(v), || format!("[{}]: i32 {s:?}, u32 {u:?}, natural {w:?}", hex(&b))) {
                    return;
                }
            }
            ctx.add(n, n * 5, n);
        });
    }
    ctx.sample(|| "read u16 from [ff 80]: refused; i16: -128".into());
    ctx.sample(|| "read i8 from [fe 80 00]: refused (128 does not fit)".into());
}

/// The implementation's decoding of `b` agrees with the model's answer.
pub fn agree(ctx: &Ctx, ty: &Ty, b: &[u8], want: &Result<(Val, usize), Stop>) -> bool {
    let got = dec(ty, b);
    let good = match (want, &got) {
        (Ok(w), Outcome::Done(Ok(g))) => w == g,
        (Err(_), Outcome::Done(Err(_))) => true,
        _ => false,
    };
    ctx.check(good, || format!("decoding {} from [{}]: got {}, expected {:?} (value, bytes left)", show(ty), hex(b), clip(&say(&got)), clip(&format!("{want:?}"))))
}

pub fn clip(s: &str) -> String {
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s.to_string()
    }
}
