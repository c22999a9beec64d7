//! Values of serializable types as maps from paths to leaves: flattened by a serializer, built by
//! a deserializer that takes what the map does not have from a default. Structure (options,
//! lengths, variants) is in the map too, so changing one entry of it gives every neighbour of a
//! value, whatever its type.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser;
use std::collections::HashMap;
use std::fmt::Display;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Leaf {
    /// value and width in bits
    Uint(u64, u32),
    Int(i64, u32),
    Bool(bool),
    Some(bool),
    Len(usize),
    /// index and number of variants (0: not known)
    Variant(u32, u32),
    Str(String),
    /// a version number: not a choice
    Version(u16),
}

/// A component of a path: a name, an index of a sequence or tuple, or an index of a tuple variant.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    Name(&'static str),
    /// of a list
    Item(usize),
    /// of a tuple of so many
    Of(usize, usize),
    /// of a variant
    Payload(usize),
    /// what a version number is put before
    Inner,
}

pub type Path = Vec<Part>;

/// Leaves by path.
#[derive(Clone, Default)]
pub struct Map(HashMap<u64, (Path, Leaf)>);

impl Map {
    pub fn new() -> Self {
        Map::default()
    }
    pub fn insert(&mut self, p: Path, l: Leaf) {
        let h = p.iter().fold(0, mix);
        if let Some((q, _)) = self.0.insert(h, (p.clone(), l)) {
            assert_eq!(p, q);
        }
    }
    pub fn get(&self, p: &[Part]) -> Option<&Leaf> {
        self.0.get(&p.iter().fold(0, mix)).map(|x| &x.1)
    }
    pub fn of(leaves: Vec<(Path, Leaf)>) -> Self {
        let mut m = Map::new();
        for (p, l) in leaves {
            m.insert(p, l);
        }
        m
    }
}

/// The hash of a path with one more component.
fn mix(h: u64, c: &Part) -> u64 {
    let (k, n) = match c {
        Part::Name(s) => (1, s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))),
        Part::Item(i) => (2, *i as u64),
        Part::Of(i, n) => (3, (*i as u64) << 32 | *n as u64),
        Part::Payload(i) => (4, *i as u64),
        Part::Inner => (5, 0),
    };
    let mut x = h.rotate_left(17).wrapping_mul(0x9e3779b97f4a7c15) ^ n.wrapping_add(k).wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^ x >> 29
}

pub fn show(p: &[Part]) -> String {
    p.iter()
        .map(|c| match c {
            Part::Name(n) => n.to_string(),
            Part::Item(i) => format!("[{i}]"),
            Part::Of(i, _) => format!(".{i}"),
            Part::Payload(i) => format!("({i})"),
            Part::Inner => "~".into(),
        })
        .collect::<Vec<_>>()
        .join("/")
}

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

// ------------------------------------------------------------------------------ flattening

#[derive(Default)]
pub struct Flat {
    path: Path,
    pub leaves: Vec<(Path, Leaf)>,
}

pub fn flatten<T: serde::Serialize>(t: &T) -> Vec<(Path, Leaf)> {
    let mut f = Flat::default();
    t.serialize(&mut f).unwrap();
    f.leaves
}

impl Flat {
    fn put(&mut self, l: Leaf) -> Result<(), Error> {
        self.leaves.push((self.path.clone(), l));
        Ok(())
    }
    fn at<T: ?Sized + serde::Serialize>(&mut self, p: Part, t: &T) -> Result<(), Error> {
        self.path.push(p);
        t.serialize(&mut *self)?;
        self.path.pop();
        Ok(())
    }
}

#[derive(Clone, Copy)]
enum Sort {
    List,
    Tuple(usize),
    Versioned,
    Struct,
    TupleVariant,
}

pub struct Sub<'a>(&'a mut Flat, Sort, usize);

impl<'a> ser::Serializer for &'a mut Flat {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Sub<'a>;
    type SerializeTuple = Sub<'a>;
    type SerializeTupleStruct = Sub<'a>;
    type SerializeTupleVariant = Sub<'a>;
    type SerializeMap = ser::Impossible<(), Error>;
    type SerializeStruct = Sub<'a>;
    type SerializeStructVariant = Sub<'a>;
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.put(Leaf::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<(), Error> {
        self.put(Leaf::Int(v as i64, 8))
    }
    fn serialize_i16(self, v: i16) -> Result<(), Error> {
        self.put(Leaf::Int(v as i64, 16))
    }
    fn serialize_i32(self, v: i32) -> Result<(), Error> {
        self.put(Leaf::Int(v as i64, 32))
    }
    fn serialize_i64(self, v: i64) -> Result<(), Error> {
        self.put(Leaf::Int(v, 64))
    }
    fn serialize_u8(self, v: u8) -> Result<(), Error> {
        self.put(Leaf::Uint(v as u64, 8))
    }
    fn serialize_u16(self, v: u16) -> Result<(), Error> {
        self.put(Leaf::Uint(v as u64, 16))
    }
    fn serialize_u32(self, v: u32) -> Result<(), Error> {
        self.put(Leaf::Uint(v as u64, 32))
    }
    fn serialize_u64(self, v: u64) -> Result<(), Error> {
        self.put(Leaf::Uint(v, 64))
    }
    fn serialize_f32(self, _: f32) -> Result<(), Error> {
        Err(Error("f32".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<(), Error> {
        Err(Error("f64".into()))
    }
    fn serialize_char(self, _: char) -> Result<(), Error> {
        Err(Error("char".into()))
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.put(Leaf::Str(v.into()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Error> {
        Err(Error("bytes".into()))
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.put(Leaf::Some(false))
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, v: &T) -> Result<(), Error> {
        self.put(Leaf::Some(true))?;
        self.at(Part::Name("?"), v)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.put(Leaf::Variant(i, 0))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.put(Leaf::Variant(i, 0))?;
        self.at(Part::Payload(0), v)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Sub<'a>, Error> {
        self.put(Leaf::Len(len.unwrap()))?;
        Ok(Sub(self, Sort::List, 0))
    }
    fn serialize_tuple(self, len: usize) -> Result<Sub<'a>, Error> {
        Ok(Sub(self, Sort::Tuple(len), 0))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Sub<'a>, Error> {
        Ok(Sub(self, Sort::Tuple(len), 0))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Sub<'a>, Error> {
        self.put(Leaf::Variant(i, 0))?;
        Ok(Sub(self, Sort::TupleVariant, 0))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<ser::Impossible<(), Error>, Error> {
        Err(Error("map".into()))
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> Result<Sub<'a>, Error> {
        Ok(Sub(self, if name == "Versioned" { Sort::Versioned } else { Sort::Struct }, 0))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Sub<'a>, Error> {
        self.put(Leaf::Variant(i, 0))?;
        self.path.push(Part::Payload(0));
        Ok(Sub(self, Sort::Struct, 1))
    }
}

impl Sub<'_> {
    fn item<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let p = match self.1 {
            Sort::List => Part::Item(self.2),
            Sort::Tuple(n) => Part::Of(self.2, n),
            _ => Part::Payload(self.2),
        };
        self.2 += 1;
        self.0.at(p, v)
    }
    fn field<T: ?Sized + serde::Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), Error> {
        if let (Sort::Versioned, "version") = (self.1, key) {
            self.0.path.push(Part::Name("version"));
            v.serialize(&mut *self.0)?;
            self.0.path.pop();
            if let Some((_, l)) = self.0.leaves.last_mut() {
                if let Leaf::Uint(n, _) = l {
                    *l = Leaf::Version(*n as u16);
                }
            }
            return Ok(());
        }
        self.0.at(if let Sort::Versioned = self.1 { Part::Inner } else { Part::Name(key) }, v)
    }
}
macro_rules! items {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for Sub<'_> {
            type Ok = ();
            type Error = Error;
            fn $f<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), Error> {
                self.item(v)
            }
            fn end(self) -> Result<(), Error> {
                Ok(())
            }
        }
    )*};
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeStruct for Sub<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}
impl ser::SerializeStructVariant for Sub<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), Error> {
        self.0.path.pop();
        Ok(())
    }
}

// ------------------------------------------------------------------------------ building

pub struct Build<'m> {
    map: &'m Map,
    path: Path,
    hashes: Vec<u64>,
    /// every leaf, in order, and where it came from
    leaves: Option<Vec<(Path, Leaf)>>,
    /// what absent lengths are
    len: usize,
}

/// Builds a value; also gives all its leaves, with the number of variants of enumerations.
pub fn build<T: de::DeserializeOwned>(map: &Map, len: usize) -> Result<(T, Vec<(Path, Leaf)>), Error> {
    let mut b = Build { map, path: vec![], hashes: vec![0], leaves: Some(vec![]), len };
    let t = T::deserialize(&mut b)?;
    Ok((t, b.leaves.unwrap()))
}

/// Builds a value only.
pub fn value<T: de::DeserializeOwned>(map: &Map, len: usize) -> Result<T, Error> {
    T::deserialize(&mut Build { map, path: vec![], hashes: vec![0], leaves: None, len })
}

/// Bytes that are written as if they were text.
pub fn text(p: &[Part]) -> bool {
    matches!(p.last(), Some(Part::Item(_))) && p.contains(&Part::Name("sok_digest"))
}

impl Build<'_> {
    fn leaf(&mut self, default: impl FnOnce(u64, &[Part], usize) -> Leaf) -> Leaf {
        let h = *self.hashes.last().unwrap();
        let l = match self.map.0.get(&h) {
            Some((p, l)) => {
                assert_eq!(p, &self.path);
                l.clone()
            }
            None => default(h, &self.path, self.len),
        };
        if let Some(leaves) = &mut self.leaves {
            leaves.push((self.path.clone(), l.clone()));
        }
        l
    }
    fn push(&mut self, c: Part) {
        self.hashes.push(mix(*self.hashes.last().unwrap(), &c));
        self.path.push(c);
    }
    fn pop(&mut self) {
        self.hashes.pop();
        self.path.pop();
    }
    fn uint(&mut self, bits: u32) -> u64 {
        match self.leaf(|s, p, _| {
            let n = if bits == 64 { s } else { s & ((1 << bits) - 1) };
            // the highest byte of what may be a field element
            // and what is taken for text
            Leaf::Uint(
                match p.last() {
                    Some(Part::Of(31, 32)) => n & 0x3f,
                    _ if text(p) => n & 0x7f,
                    _ => n,
                },
                bits,
            )
        }) {
            Leaf::Uint(n, _) => n,
            Leaf::Version(n) => n as u64,
            l => panic!("{l:?} at {}", show(&self.path)),
        }
    }
    fn int(&mut self, bits: u32) -> i64 {
        match self.leaf(|s, _, _| Leaf::Int((s as i64) >> (64 - bits), bits)) {
            Leaf::Int(n, _) => n,
            l => panic!("{l:?} at {}", show(&self.path)),
        }
    }
}

struct Items<'a, 'm>(&'a mut Build<'m>, Sort, usize, usize);

impl<'de> de::SeqAccess<'de> for Items<'_, '_> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        if self.2 == self.3 {
            return Ok(None);
        }
        let p = match self.1 {
            Sort::List => Part::Item(self.2),
            Sort::Tuple(n) => Part::Of(self.2, n),
            _ => Part::Payload(self.2),
        };
        self.2 += 1;
        self.0.push(p);
        let v = s.deserialize(&mut *self.0)?;
        self.0.pop();
        Ok(Some(v))
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.3 - self.2)
    }
}

struct Fields<'a, 'm>(&'a mut Build<'m>, &'static [&'static str], usize, bool);

impl<'de> de::MapAccess<'de> for Fields<'_, '_> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.1.get(self.2) {
            Some(k) => s.deserialize((*k).into_deserializer()).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        let k = self.1[self.2];
        self.2 += 1;
        self.0.push(if self.3 && k == "t" { Part::Inner } else { Part::Name(k) });
        if self.3 && k == "version" {
            let v = match self.0.leaf(|_, _, _| Leaf::Version(1)) {
                Leaf::Version(v) => v,
                l => panic!("{l:?}"),
            };
            self.0.pop();
            return s.deserialize(v.into_deserializer());
        }
        let v = s.deserialize(&mut *self.0)?;
        self.0.pop();
        Ok(v)
    }
}

struct Variant<'a, 'm>(&'a mut Build<'m>, u32);

impl<'de, 'a, 'm> de::EnumAccess<'de> for Variant<'a, 'm> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), Error> {
        let v = s.deserialize(IntoDeserializer::<Error>::into_deserializer(self.1))?;
        Ok((v, self))
    }
}

impl<'de> de::VariantAccess<'de> for Variant<'_, '_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Error> {
        self.0.push(Part::Payload(0));
        let v = s.deserialize(&mut *self.0)?;
        self.0.pop();
        Ok(v)
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items(self.0, Sort::TupleVariant, 0, len))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.0.push(Part::Payload(0));
        let r = v.visit_map(Fields(&mut *self.0, f, 0, false))?;
        self.0.pop();
        Ok(r)
    }
}

macro_rules! refuse {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
            Err(Error(format!("{} at {}", stringify!($f), show(&self.path))))
        }
    )*};
}

impl<'de> de::Deserializer<'de> for &mut Build<'_> {
    type Error = Error;
    refuse!(deserialize_any deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes deserialize_byte_buf deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.leaf(|s, _, _| Leaf::Bool(s & 1 == 1)) {
            Leaf::Bool(b) => v.visit_bool(b),
            l => panic!("{l:?}"),
        }
    }
    fn deserialize_i8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_i8(self.int(8) as i8)
    }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_i16(self.int(16) as i16)
    }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_i32(self.int(32) as i32)
    }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_i64(self.int(64))
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u8(self.uint(8) as u8)
    }
    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u16(self.uint(16) as u16)
    }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u32(self.uint(32) as u32)
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u64(self.uint(64))
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.leaf(|s, _, _| Leaf::Str(format!("{s:x}"))) {
            Leaf::Str(s) => v.visit_string(s),
            l => panic!("{l:?}"),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.leaf(|_, _, _| Leaf::Some(true)) {
            Leaf::Some(true) => {
                self.push(Part::Name("?"));
                let r = v.visit_some(&mut *self)?;
                self.pop();
                Ok(r)
            }
            Leaf::Some(false) => v.visit_none(),
            l => panic!("{l:?}"),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.leaf(|_, _, len| Leaf::Len(len)) {
            Leaf::Len(n) => v.visit_seq(Items(self, Sort::List, 0, n)),
            l => panic!("{l:?}"),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items(self, Sort::Tuple(n), 0, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Items(self, Sort::Tuple(n), 0, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_map(Fields(self, f, 0, name == "Versioned"))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, variants: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let n = variants.len() as u32;
        match self.leaf(|s, _, _| Leaf::Variant((s % n as u64) as u32, n)) {
            Leaf::Variant(i, _) => {
                if let Some(leaves) = &mut self.leaves {
                    leaves.last_mut().unwrap().1 = Leaf::Variant(i, n);
                }
                v.visit_enum(Variant(self, i))
            }
            l => panic!("{l:?}"),
        }
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

// ------------------------------------------------------------------------------ neighbours

/// Other values of a leaf.
pub fn others(l: &Leaf, p: &[Part], deep: bool) -> Vec<Leaf> {
    let mut out = match l {
        Leaf::Uint(n, 8) => match p.last() {
            // bytes of hashes and the like: the bits of one say enough
            Some(Part::Of(31, 32)) => vec![n ^ 1, (n ^ 0x2a) & 0x3f],
            Some(Part::Of(i, 32)) if !deep && ![0, 7, 30].contains(i) => vec![],
            Some(Part::Item(i)) if !deep && ![0, 1, 7].contains(i) => vec![],
            Some(Part::Of(..) | Part::Item(_)) if !deep => vec![n ^ 0x5a],
            Some(Part::Of(..) | Part::Item(_)) => vec![n ^ 1, n ^ 0xda],
            _ => (0..=255).collect(),
        }
        .into_iter()
        .filter(|n| *n < 128 || !text(p))
        .map(|n| Leaf::Uint(n, 8))
        .collect(),
        Leaf::Uint(n, bits) => {
            let max = if *bits == 64 { u64::MAX } else { (1 << bits) - 1 };
            let mut v = vec![0, 1, max, max - 1, max / 2, max / 2 + 1, n.wrapping_add(1) & max, n.wrapping_sub(1) & max, n ^ 0x55];
            if deep {
                v.extend((0..*bits).map(|b| n ^ (1 << b)));
                v.extend((0..*bits).map(|b| 1 << b));
                v.extend([127, 128, 255, 256, 999999999, 1000000000]);
            }
            v.into_iter().map(|n| Leaf::Uint(n, *bits)).collect()
        }
        Leaf::Int(n, bits) => {
            let s = 64 - bits;
            let mut v = vec![0, 1, -1, i64::MAX >> s, i64::MIN >> s, n.wrapping_add(1) << s >> s, !n];
            if deep {
                v.extend((0..*bits).map(|b| (n ^ (1 << b)) << s >> s));
            }
            v.into_iter().map(|n| Leaf::Int(n, *bits)).collect()
        }
        Leaf::Bool(b) => vec![Leaf::Bool(!b)],
        Leaf::Some(b) => vec![Leaf::Some(!b)],
        Leaf::Len(n) => {
            let mut v = vec![0, 1, 2, n.saturating_sub(1), n + 1];
            if deep {
                v.extend([3, 4, n + 2]);
            }
            v.into_iter().map(Leaf::Len).collect()
        }
        Leaf::Variant(_, n) => (0..*n).map(|i| Leaf::Variant(i, *n)).collect(),
        Leaf::Str(s) => vec![Leaf::Str(String::new()), Leaf::Str(format!("{s}x"))],
        Leaf::Version(_) => vec![],
    };
    let mut seen = std::collections::HashSet::new();
    out.retain(|o| o != l && seen.insert(o.clone()));
    out
}

pub fn structural(l: &Leaf) -> bool {
    matches!(l, Leaf::Some(_) | Leaf::Len(_) | Leaf::Variant(..))
}
