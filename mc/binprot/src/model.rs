//! Reference model of the Bin_prot wire format, written from the format's specification
//! (janestreet/bin_prot README) and independent of the implementation: types, values, an
//! encoder, and a decoder that tells for every byte string whether it is a complete
//! encoding, a proper prefix of one, or malformed.
use std::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Int {
    I8,
    I16,
    I32,
    I64,
    U16,
    U32,
    U64,
}

impl Int {
    pub const ALL: [Int; 7] = [Int::I8, Int::I16, Int::I32, Int::I64, Int::U16, Int::U32, Int::U64];
    pub fn range(self) -> (i128, i128) {
        match self {
            Int::I8 => (i8::MIN as i128, i8::MAX as i128),
            Int::I16 => (i16::MIN as i128, i16::MAX as i128),
            Int::I32 => (i32::MIN as i128, i32::MAX as i128),
            Int::I64 => (i64::MIN as i128, i64::MAX as i128),
            Int::U16 => (0, u16::MAX as i128),
            Int::U32 => (0, u32::MAX as i128),
            Int::U64 => (0, u64::MAX as i128),
        }
    }
    pub fn fits(self, v: i128) -> bool {
        let (a, b) = self.range();
        a <= v && v <= b
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    UnitStruct,
    Bool,
    Int(Int),
    U8,
    F32,
    F64,
    Char,
    Str,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Struct(Vec<Ty>),
    Enum(&'static EnumTy),
    Poly(&'static EnumTy),
}

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct EnumTy {
    pub names: &'static [&'static str],
    pub bodies: Vec<Body>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}

impl Body {
    pub fn tys(&self) -> Vec<&Ty> {
        match self {
            Body::Unit => vec![],
            Body::Newtype(t) => vec![t],
            Body::Tuple(v) | Body::Struct(v) => v.iter().collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    /// members of a tuple, record or newtype
    Rec(Vec<Val>),
    Var(usize, Vec<Val>),
}

// ---------------------------------------------------------------- integers

/// Variable-length signed integer.
pub fn put_int(n: i128, out: &mut Vec<u8>) {
    if (0..0x80).contains(&n) {
        out.push(n as u8);
    } else if (-0x80..0).contains(&n) {
        out.extend([0xff, n as i8 as u8]);
    } else if (-0x8000..0x8000).contains(&n) {
        out.push(0xfe);
        out.extend((n as i16).to_le_bytes());
    } else if (-0x8000_0000..0x8000_0000).contains(&n) {
        out.push(0xfd);
        out.extend((n as i32).to_le_bytes());
    } else {
        out.push(0xfc);
        out.extend((n as i64).to_le_bytes());
    }
}

/// Natural number (lengths).
pub fn put_nat0(n: u64, out: &mut Vec<u8>) {
    if n < 0x80 {
        out.push(n as u8);
    } else if n < 0x1_0000 {
        out.push(0xfe);
        out.extend((n as u16).to_le_bytes());
    } else if n < 0x1_0000_0000 {
        out.push(0xfd);
        out.extend((n as u32).to_le_bytes());
    } else {
        out.push(0xfc);
        out.extend(n.to_le_bytes());
    }
}

/// OCaml's hash of a polymorphic variant label: 31 bits.
pub fn label_hash(label: &str) -> u32 {
    (label_hash_wide(label) & 0x7fff_ffff) as u32
}

/// The same without reduction, saturating (to know whether 32 bits hold it).
pub fn label_hash_wide(label: &str) -> u128 {
    // reduction modulo 2^31 commutes with the steps; the wide value only matters for size
    let mut wide: u128 = 0;
    for b in label.bytes() {
        wide = wide.wrapping_mul(223).wrapping_add(b as u128);
    }
    wide
}

// ---------------------------------------------------------------- encoder

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Unencodable;

pub fn encode(ty: &Ty, v: &Val, out: &mut Vec<u8>) -> Result<(), Unencodable> {
    match (ty, v) {
        (Ty::Unit, Val::Unit) | (Ty::UnitStruct, Val::Unit) => out.push(0),
        (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
        (Ty::Int(_), Val::Int(n)) => put_int(*n, out),
        (Ty::U8, Val::Int(n)) => out.push(*n as u8),
        (Ty::F32, Val::F32(b)) => out.extend(b.to_le_bytes()),
        (Ty::F64, Val::F64(b)) => out.extend(b.to_le_bytes()),
        (Ty::Char, Val::Char(c)) => {
            if *c as u32 > 0xff {
                return Err(Unencodable);
            }
            out.push(*c as u32 as u8)
        }
        (Ty::Str, Val::Str(s)) => {
            put_nat0(s.len() as u64, out);
            out.extend(s.as_bytes());
        }
        (Ty::Opt(_), Val::None) => out.push(0),
        (Ty::Opt(t), Val::Some(v)) => {
            out.push(1);
            encode(t, v, out)?;
        }
        (Ty::Newtype(t), Val::Rec(vs)) => encode(t, &vs[0], out)?,
        (Ty::Seq(t), Val::Seq(vs)) => {
            put_nat0(vs.len() as u64, out);
            for v in vs {
                encode(t, v, out)?;
            }
        }
        (Ty::Tuple(ts), Val::Rec(vs)) | (Ty::TupleStruct(ts), Val::Rec(vs)) | (Ty::Struct(ts), Val::Rec(vs)) => {
            assert_eq!(ts.len(), vs.len());
            for (t, v) in ts.iter().zip(vs) {
                encode(t, v, out)?;
            }
        }
        (Ty::Enum(e), Val::Var(i, vs)) => {
            if *i > 255 {
                return Err(Unencodable);
            }
            out.push(*i as u8);
            for (t, v) in e.bodies[*i].tys().into_iter().zip(vs) {
                encode(t, v, out)?;
            }
        }
        (Ty::Poly(e), Val::Var(i, vs)) => {
            let h = label_hash(e.names[*i]);
            out.extend((h << 1 | 1).to_le_bytes());
            for (t, v) in e.bodies[*i].tys().into_iter().zip(vs) {
                encode(t, v, out)?;
            }
        }
        _ => panic!("ill-typed value {:?} for {:?}", v, ty),
    }
    Ok(())
}

pub fn bytes_of(ty: &Ty, v: &Val) -> Option<Vec<u8>> {
    let mut out = vec![];
    encode(ty, v, &mut out).ok().map(|_| out)
}

// ---------------------------------------------------------------- decoder

/// What the next byte of an incomplete input is for.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Role {
    Flag,
    IntCode,
    NatCode,
    /// byte i of an n-byte number
    Pay(usize, usize),
    /// byte i of an n-byte length
    NatPay(usize, usize),
    /// byte of a string, the byte's position, length
    Text(u64),
    FloatByte(usize, usize),
    Byte,
    Variant(usize),
    /// byte i of a tag, with the tags possible
    Tag(usize, Vec<u32>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    More(Role),
    Invalid,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub at: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, at: 0 }
    }
    pub fn byte(&mut self, r: impl FnOnce() -> Role) -> Result<u8, Stop> {
        match self.b.get(self.at) {
            Some(b) => {
                self.at += 1;
                Ok(*b)
            }
            None => Err(Stop::More(r())),
        }
    }
    fn le(&mut self, n: usize, nat: bool) -> Result<u64, Stop> {
        let mut v = 0u64;
        for i in 0..n {
            let b = self.byte(|| if nat { Role::NatPay(i, n) } else { Role::Pay(i, n) })?;
            v |= (b as u64) << (8 * i);
        }
        Ok(v)
    }
    /// variable-length signed integer
    pub fn int(&mut self) -> Result<i128, Stop> {
        Ok(match self.byte(|| Role::IntCode)? {
            b @ 0..=0x7f => b as i128,
            0xff => self.le(1, false)? as u8 as i8 as i128,
            0xfe => self.le(2, false)? as u16 as i16 as i128,
            0xfd => self.le(4, false)? as u32 as i32 as i128,
            0xfc => self.le(8, false)? as i64 as i128,
            _ => return Err(Stop::Invalid),
        })
    }
    pub fn nat0(&mut self) -> Result<u64, Stop> {
        Ok(match self.byte(|| Role::NatCode)? {
            b @ 0..=0x7f => b as u64,
            0xfe => self.le(2, true)?,
            0xfd => self.le(4, true)?,
            0xfc => self.le(8, true)?,
            _ => return Err(Stop::Invalid),
        })
    }
    pub fn flag(&mut self) -> Result<bool, Stop> {
        match self.byte(|| Role::Flag)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Stop::Invalid),
        }
    }
    pub fn unit(&mut self) -> Result<(), Stop> {
        match self.byte(|| Role::Flag)? {
            0 => Ok(()),
            _ => Err(Stop::Invalid),
        }
    }
    pub fn float(&mut self, n: usize) -> Result<u64, Stop> {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.byte(|| Role::FloatByte(i, n))? as u64) << (8 * i);
        }
        Ok(v)
    }
    pub fn text(&mut self) -> Result<Vec<u8>, Stop> {
        let n = self.nat0()?;
        let have = (self.b.len() - self.at) as u64;
        if have < n {
            return Err(Stop::More(Role::Text(have)));
        }
        let s = self.b[self.at..self.at + n as usize].to_vec();
        self.at += n as usize;
        Ok(s)
    }
    /// A polymorphic variant's 31-bit tag, an OCaml integer: the lowest bit of the word is set.
    pub fn tag(&mut self, tags: impl Fn() -> Vec<u32>) -> Result<u32, Stop> {
        let mut w = 0u32;
        for i in 0..4 {
            w |= (self.byte(|| Role::Tag(i, tags()))? as u32) << (8 * i);
        }
        if w & 1 == 0 {
            return Err(Stop::Invalid);
        }
        Ok(w >> 1)
    }
}

pub fn decode(ty: &Ty, c: &mut Cur) -> Result<Val, Stop> {
    Ok(match ty {
        Ty::Unit | Ty::UnitStruct => {
            c.unit()?;
            Val::Unit
        }
        Ty::Bool => Val::Bool(c.flag()?),
        Ty::Int(k) => {
            let v = c.int()?;
            if !k.fits(v) {
                return Err(Stop::Invalid);
            }
            Val::Int(v)
        }
        Ty::U8 => Val::Int(c.byte(|| Role::Byte)? as i128),
        Ty::F32 => Val::F32(c.float(4)? as u32),
        Ty::F64 => Val::F64(c.float(8)?),
        Ty::Char => Val::Char(c.byte(|| Role::Byte)? as char),
        Ty::Str => Val::Str(String::from_utf8(c.text()?).map_err(|_| Stop::Invalid)?),
        Ty::Opt(t) => {
            if c.flag()? {
                Val::Some(Box::new(decode(t, c)?))
            } else {
                Val::None
            }
        }
        Ty::Newtype(t) => Val::Rec(vec![decode(t, c)?]),
        Ty::Seq(t) => {
            let n = c.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(decode(t, c)?);
            }
            Val::Seq(v)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(decode(t, c)?);
            }
            Val::Rec(v)
        }
        Ty::Enum(e) => {
            let i = c.byte(|| Role::Variant(e.names.len()))? as usize;
            let body = e.bodies.get(i).ok_or(Stop::Invalid)?;
            let mut v = vec![];
            for t in body.tys() {
                v.push(decode(t, c)?);
            }
            Val::Var(i, v)
        }
        Ty::Poly(e) => {
            let tag = c.tag(|| e.names.iter().map(|n| label_hash(n)).collect())?;
            let i = e
                .names
                .iter()
                .position(|n| n.is_ascii() && label_hash(n) == tag)
                .ok_or(Stop::Invalid)?;
            let mut v = vec![];
            for t in e.bodies[i].tys() {
                v.push(decode(t, c)?);
            }
            Val::Var(i, v)
        }
    })
}

/// Does an encoding of the type always take at least one byte?
pub fn takes_bytes(ty: &Ty) -> bool {
    match ty {
        Ty::Newtype(t) => takes_bytes(t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.iter().any(takes_bytes),
        _ => true,
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 64 {
            s.push_str(&format!(".. ({} bytes)", b.len()));
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Types written compactly, for reports.
pub fn show(ty: &Ty) -> String {
    let list = |ts: &[Ty]| ts.iter().map(show).collect::<Vec<_>>().join(", ");
    let en = |e: &EnumTy| {
        e.names
            .iter()
            .zip(&e.bodies)
            .take(4)
            .map(|(n, b)| match b {
                Body::Unit => n.to_string(),
                Body::Newtype(t) => format!("{n}({})", show(t)),
                Body::Tuple(v) => format!("{n}({},)", list(v)),
                Body::Struct(v) => format!("{n}{{{}}}", list(v)),
            })
            .collect::<Vec<_>>()
            .join(" | ")
            + if e.names.len() > 4 { " | ..." } else { "" }
    };
    match ty {
        Ty::Opt(t) => format!("Option<{}>", show(t)),
        Ty::Newtype(t) => format!("Newtype({})", show(t)),
        Ty::Seq(t) => format!("Vec<{}>", show(t)),
        Ty::Tuple(ts) => format!("({},)", list(ts)),
        Ty::TupleStruct(ts) => format!("TupleStruct({})", list(ts)),
        Ty::Struct(ts) => format!("Struct{{{}}}", list(ts)),
        Ty::Enum(e) => format!("enum[{}]", en(e)),
        Ty::Poly(e) => format!("polyvar[{}]", en(e)),
        t => format!("{t:?}"),
    }
}
