//! Drives the implementation with types that exist only at run time: a value of any model
//! type is serialized through exactly the serde calls a derived type makes, and
//! deserialized through exactly the calls a derived type makes.
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;
use serde::Deserialize;
use std::cell::RefCell;
use std::fmt;

pub const FIELDS: [&str; 8] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"];

pub struct Dyn<'a>(pub &'a Ty, pub &'a Val);

impl<'a> Serialize for Dyn<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Dyn(ty, v) = *self;
        match (ty, v) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(k), Val::Int(n)) => match k {
                Int::I8 => s.serialize_i8(*n as i8),
                Int::I16 => s.serialize_i16(*n as i16),
                Int::I32 => s.serialize_i32(*n as i32),
                Int::I64 => s.serialize_i64(*n as i64),
                Int::U16 => s.serialize_u16(*n as u16),
                Int::U32 => s.serialize_u32(*n as u32),
                Int::U64 => s.serialize_u64(*n as u64),
            },
            (Ty::U8, Val::Int(n)) => s.serialize_u8(*n as u8),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) => s.serialize_str(x),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Dyn(t, v)),
            (Ty::Newtype(t), Val::Rec(v)) => s.serialize_newtype_struct("Newtype", &Dyn(t, &v[0])),
            (Ty::Seq(t), Val::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Rec(vs)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Rec(vs)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Struct(ts), Val::Rec(vs)) => {
                let mut q = s.serialize_struct("Struct", ts.len())?;
                for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                    q.serialize_field(FIELDS[i], &Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Enum(e), Val::Var(i, vs)) => ser_variant("Enum", e, *i, vs, s),
            (Ty::Poly(e), Val::Var(i, vs)) => ser_variant("Polyvar", e, *i, vs, s),
            _ => panic!("ill-typed"),
        }
    }
}

fn ser_variant<S: Serializer>(name: &'static str, e: &'static EnumTy, i: usize, vs: &[Val], s: S) -> Result<S::Ok, S::Error> {
    let n = e.names[i];
    match &e.bodies[i] {
        Body::Unit => s.serialize_unit_variant(name, i as u32, n),
        Body::Newtype(t) => s.serialize_newtype_variant(name, i as u32, n, &Dyn(t, &vs[0])),
        Body::Tuple(ts) => {
            let mut q = s.serialize_tuple_variant(name, i as u32, n, ts.len())?;
            for (t, v) in ts.iter().zip(vs) {
                q.serialize_field(&Dyn(t, v))?;
            }
            q.end()
        }
        Body::Struct(ts) => {
            let mut q = s.serialize_struct_variant(name, i as u32, n, ts.len())?;
            for (k, (t, v)) in ts.iter().zip(vs).enumerate() {
                q.serialize_field(FIELDS[k], &Dyn(t, v))?;
            }
            q.end()
        }
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty);

impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self.0 {
            Ty::Unit => {
                <()>::deserialize(d)?;
                Val::Unit
            }
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", UnitV)?,
            Ty::Bool => Val::Bool(bool::deserialize(d)?),
            Ty::Int(k) => Val::Int(match k {
                Int::I8 => i8::deserialize(d)? as i128,
                Int::I16 => i16::deserialize(d)? as i128,
                Int::I32 => i32::deserialize(d)? as i128,
                Int::I64 => i64::deserialize(d)? as i128,
                Int::U16 => u16::deserialize(d)? as i128,
                Int::U32 => u32::deserialize(d)? as i128,
                Int::U64 => u64::deserialize(d)? as i128,
            }),
            Ty::U8 => Val::Int(u8::deserialize(d)? as i128),
            Ty::F32 => Val::F32(f32::deserialize(d)?.to_bits()),
            Ty::F64 => Val::F64(f64::deserialize(d)?.to_bits()),
            Ty::Char => Val::Char(char::deserialize(d)?),
            Ty::Str => Val::Str(String::deserialize(d)?),
            Ty::Opt(t) => d.deserialize_option(OptV(t))?,
            Ty::Newtype(t) => d.deserialize_newtype_struct("Newtype", NewV(t))?,
            Ty::Seq(t) => d.deserialize_seq(SeqV(t))?,
            Ty::Tuple(ts) => Val::Rec(d.deserialize_tuple(ts.len(), TupV(ts))?),
            Ty::TupleStruct(ts) => Val::Rec(d.deserialize_tuple_struct("TupleStruct", ts.len(), TupV(ts))?),
            Ty::Struct(ts) => Val::Rec(d.deserialize_struct("Struct", &FIELDS[..ts.len()], TupV(ts))?),
            Ty::Enum(e) => d.deserialize_enum("Enum", e.names, EnumV(e))?,
            Ty::Poly(e) => d.deserialize_enum("Polyvar", e.names, EnumV(e))?,
        })
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

struct OptV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for OptV<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(Seed(self.0).deserialize(d)?)))
    }
}

struct NewV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for NewV<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Rec(vec![Seed(self.0).deserialize(d)?]))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(v) => Ok(Val::Rec(vec![v])),
            None => Err(de::Error::invalid_length(0, &"newtype with 1 element")),
        }
    }
}

struct SeqV<'a>(&'a Ty);
impl<'a, 'de> Visitor<'de> for SeqV<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("list")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        // as serde does for Vec
        let mut v = Vec::with_capacity(a.size_hint().unwrap_or(0).min(4096));
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
        }
        Ok(Val::Seq(v))
    }
}

struct TupV<'a>(&'a [Ty]);
impl<'a, 'de> Visitor<'de> for TupV<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple or record")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &"more members")),
            }
        }
        Ok(v)
    }
}

struct VariantId(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for VariantId {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VariantId {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if (v as usize) < self.0.len() {
            Ok(v as usize)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        self.0.iter().position(|n| *n == s).ok_or_else(|| E::unknown_variant(s, self.0))
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<usize, E> {
        self.0.iter().position(|n| n.as_bytes() == s).ok_or_else(|| E::custom("unknown variant"))
    }
}

struct EnumV(&'static EnumTy);
impl<'de> Visitor<'de> for EnumV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (i, va) = a.variant_seed(VariantId(self.0.names))?;
        Ok(Val::Var(
            i,
            match &self.0.bodies[i] {
                Body::Unit => {
                    va.unit_variant()?;
                    vec![]
                }
                Body::Newtype(t) => vec![va.newtype_variant_seed(Seed(t))?],
                Body::Tuple(ts) => va.tuple_variant(ts.len(), TupV(ts))?,
                Body::Struct(ts) => va.struct_variant(&FIELDS[..ts.len()], TupV(ts))?,
            },
        ))
    }
}

thread_local! {
    static TYPE: RefCell<Option<Ty>> = const { RefCell::new(None) };
}

/// For entry points that take a `Deserialize` type rather than a seed.
pub struct Any(pub Val);

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        let ty = TYPE.with(|t| t.borrow().clone()).expect("type");
        Ok(Any(Seed(&ty).deserialize(d)?))
    }
}

pub fn with_type<T>(ty: &Ty, f: impl FnOnce() -> T) -> T {
    TYPE.with(|t| {
        let mut t = t.borrow_mut();
        if t.as_ref() != Some(ty) {
            *t = Some(ty.clone());
        }
    });
    f()
}
