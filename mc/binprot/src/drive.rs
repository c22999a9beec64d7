//! Calls into the implementation.
use crate::dynser::*;
use crate::model::*;
use bin_prot::error::Error;
use mc_core::{guarded, Outcome};
use serde::de::DeserializeSeed;
use serde::Deserialize;
use std::io::Read;

pub fn enc(ty: &Ty, v: &Val) -> Outcome<Result<Vec<u8>, Error>> {
    guarded(&|| format!("encode {} value {:?}", show(ty), v), || {
        let mut out = Vec::new();
        bin_prot::to_writer(&mut out, &Dyn(ty, v)).map(|_| out)
    })
}

/// Decode one value, then count the bytes still to be had from the same deserializer.
pub fn dec_with<R: Read>(ty: &Ty, r: R) -> Result<(Val, usize), Error> {
    let mut de = bin_prot::Deserializer::from_reader(r);
    let v = Seed(ty).deserialize(&mut de)?;
    let mut rest = 0;
    while u8::deserialize(&mut de).is_ok() {
        rest += 1;
    }
    Ok((v, rest))
}

pub fn dec(ty: &Ty, b: &[u8]) -> Outcome<Result<(Val, usize), Error>> {
    guarded(&|| format!("decode {} from [{}]", show(ty), hex(b)), || dec_with(ty, b))
}

/// Text of an outcome for reports.
pub fn say<T: std::fmt::Debug>(o: &Outcome<Result<T, Error>>) -> String {
    match o {
        Outcome::Done(Ok(t)) => format!("Ok({:?})", t),
        Outcome::Done(Err(e)) => format!("Err({e})"),
        Outcome::Panic(m) => format!("panic: {m}"),
    }
}
