//! C31: amounts and numbers written as text. C32: keys, hashes, signatures and other bytes
//! written as text.
use crate::graphql::{b58, hash_text, key_text};
use crate::vals::*;
use mc_core::*;
use mina_crypto::hash::*;
use mina_crypto::hex::HexEncodable;
use mina_rs_base::numbers::{Amount, BigInt256, BlockTime, Char};
use mina_rs_base::types::VrfOutputTruncated;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_serialization_types::common::*;
use mina_serialization_types::json::*;
use mina_serialization_types::v1::*;
use num::BigUint;
use proof_systems::mina_signer::CompressedPubKey;
use std::fmt::Debug;
use std::str::FromStr;

/// The JSON text a type is written as.
fn to_json<T: serde::Serialize>(t: &T) -> Result<String, String> {
    serde_json::to_string(t).map_err(|e| e.to_string())
}

/// A JSON string literal.
fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

// ---------------------------------------------------------------------------------- C31

/// What decimal text means, in units of 10^-9: strict texts have exactly one reading, and texts
/// of another shape none; the shapes in between (a sign, an empty fraction) may be refused or
/// read as what they mean.
enum Meaning {
    Exactly(u64),
    Perhaps(u64),
    Nothing,
}

fn digits(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}

fn amount_of(s: &str, fraction: bool) -> Meaning {
    let (whole, part, dot) = match s.split_once('.') {
        Some((w, p)) if fraction => (w, p, true),
        _ => (s, "", false),
    };
    let unsigned = whole.strip_prefix('+').unwrap_or(whole);
    if !digits(unsigned) || !digits(part) || unsigned.is_empty() {
        return Meaning::Nothing;
    }
    let (significant, rest) = part.split_at(part.len().min(9));
    let text = if fraction { format!("{unsigned}{significant:0<9}") } else { unsigned.to_string() };
    let n = match text.trim_start_matches('0') {
        "" => 0,
        t if t.len() > 20 => return Meaning::Nothing,
        t => t.parse::<u128>().unwrap(),
    };
    let Ok(n) = u64::try_from(n) else { return Meaning::Nothing };
    if rest.bytes().any(|b| b != b'0') {
        Meaning::Nothing
    } else if unsigned.len() != whole.len() || dot && part.is_empty() || !rest.is_empty() {
        Meaning::Perhaps(n)
    } else {
        Meaning::Exactly(n)
    }
}

/// Checks one reader on one text. `max`: largest value of the type.
fn reads(ctx: &Ctx, who: &str, s: &str, fraction: bool, max: u64, f: impl FnOnce(&str) -> Result<u64, String>) {
    let meaning = match amount_of(s, fraction) {
        Meaning::Exactly(n) | Meaning::Perhaps(n) if n > max => Meaning::Nothing,
        m => m,
    };
    let r = guarded(&|| format!("{who} of {s:?}"), || f(s));
    let ok = match (&r, meaning) {
        (Outcome::Done(Ok(v)), Meaning::Exactly(n) | Meaning::Perhaps(n)) => *v == n,
        (Outcome::Done(Err(_)), Meaning::Perhaps(_) | Meaning::Nothing) => true,
        _ => false,
    };
    ctx.check(ok, || format!("{who} of the text {s:?} gives {r:?}"));
}

fn one_text(ctx: &Ctx, s: &str) {
    reads(ctx, "Amount::from_str", s, true, u64::MAX, |s| Amount::from_str(s).map(|a| a.0).map_err(|e| e.to_string()));
    let q = quoted(s);
    reads(ctx, "DecimalJson", s, true, u64::MAX, |_| serde_json::from_str::<DecimalJson>(&q).map(|a| a.0).map_err(|e| e.to_string()));
    reads(ctx, "U64Json", s, false, u64::MAX, |_| serde_json::from_str::<U64Json>(&q).map(|a| a.0).map_err(|e| e.to_string()));
    reads(ctx, "U32Json", s, false, u32::MAX as u64, |_| serde_json::from_str::<U32Json>(&q).map(|a| a.0 as u64).map_err(|e| e.to_string()));
}

/// Every type writes the value as a text that it, and a reader who knows the format, reads back.
fn one_value(ctx: &Ctx, n: u64) {
    let says = |who: &str, s: String, fraction: bool| {
        let strict = matches!(amount_of(&s, fraction), Meaning::Exactly(m) if m == n);
        ctx.check(strict, || format!("{who} writes {n} as {s:?}"));
        if n <= u32::MAX as u64 || fraction || who == "U64Json" {
            one_text(ctx, &s);
        }
    };
    says("Amount", Amount(n).to_string(), true);
    let un = |r: Result<String, String>| r.ok().and_then(|s| serde_json::from_str::<String>(&s).ok()).unwrap_or_default();
    says("DecimalJson", un(to_json(&DecimalJson(n))), true);
    says("U64Json", un(to_json(&U64Json(n))), false);
    if let Ok(m) = u32::try_from(n) {
        says("U32Json", un(to_json(&U32Json(m))), false);
    }
    let typed: AmountV1 = n.into();
    let j: DecimalJson = typed.clone().into();
    let back: AmountV1 = j.clone().into();
    ctx.check(j.0 == n && back == typed, || format!("an amount of {n} becomes {j:?} and {back:?}"));
}

fn strings(alphabet: &[u8], len: usize, ctx: &Ctx, name: &str, f: impl Fn(&str) + Sync) {
    let n = alphabet.len();
    // one job per first two characters; shorter strings in job 0
    par_for(ctx, n * n + 1, |job| {
        let _e = ctx.enter(|| format!("{name}, job {job}"));
        let mut count = 0u64;
        let mut run = |prefix: &[u8], upto: usize| {
            let mut stack = vec![prefix.to_vec()];
            while let Some(s) = stack.pop() {
                f(std::str::from_utf8(&s).unwrap());
                count += 1;
                if s.len() < upto {
                    for c in alphabet {
                        let mut t = s.clone();
                        t.push(*c);
                        stack.push(t);
                    }
                }
            }
        };
        if job == n * n {
            run(&[], 1);
        } else {
            run(&[alphabet[job / n], alphabet[job % n]], len);
        }
        ctx.add(count, count, count);
    });
}

pub fn c31(ctx: &Ctx) {
    let deep = ctx.thorough();
    let len = if deep { 8 } else { 6 };
    strings(b"019.+- e", len, ctx, "short texts", |s| one_text(ctx, s));
    ctx.bound(format!("texts: all of up to {len} characters of \"019.+- e\""));
    // whole and fractional parts around every limit
    let mut wholes: Vec<String> = vec![];
    for base in [0u128, 1, 9, 10, 1 << 32, u64::MAX as u128 / 1_000_000_000, u64::MAX as u128, u64::MAX as u128 * 10, 1 << 127] {
        for d in -2i128..=2 {
            if let Some(n) = base.checked_add_signed(d) {
                for zeros in ["", "0", "000000000000", "+", "-", " "] {
                    wholes.push(format!("{zeros}{n}"));
                }
            }
        }
    }
    wholes.push(String::new());
    wholes.push("9".repeat(400));
    wholes.push(format!("{}7", "0".repeat(400)));
    let mut parts: Vec<String> = vec![];
    let max = (u64::MAX % 1_000_000_000) as u128;
    for n in 0..=12usize {
        for k in 0..=n {
            for (a, b) in [('0', '0'), ('0', '1'), ('1', '0'), ('9', '9'), ('0', '9'), ('5', '4')] {
                // k of one digit, then n-k of another
                parts.push(format!("{}{}", a.to_string().repeat(k), b.to_string().repeat(n - k)));
            }
        }
    }
    for d in 0..5u128 {
        parts.push(format!("{}", max + d - 2));
        parts.push(format!("{}0", max + d - 2));
        parts.push(format!("{}", u64::MAX as u128 + d - 2));
    }
    for s in ["+5", "-5", "5-", "5+", "1.1", ".", " 1", "1 ", "1e3", "0x1", "１", "1_0", "+", "+50000000", "18446744073709551616", "\u{0}"] {
        parts.push(s.into());
    }
    for n in [20, 30, 400] {
        parts.push("0".repeat(n));
        parts.push(format!("{}1", "0".repeat(n)));
        parts.push(format!("7{}", "0".repeat(n)));
    }
    let total = wholes.len();
    par_for(ctx, total, |i| {
        let _e = ctx.enter(|| format!("wholes {i}"));
        let mut count = 1;
        one_text(ctx, &wholes[i]);
        for p in &parts {
            one_text(ctx, &format!("{}.{p}", wholes[i]));
            count += 1;
        }
        ctx.add(count, count, count);
    });
    ctx.bound(format!("texts: {} whole parts around the limits, each with {} fractional parts", wholes.len(), parts.len()));
    // values
    let mut values: Vec<u64> = vec![];
    for b in 0..64 {
        for d in 0..5u64 {
            values.push((1u64 << b).wrapping_add(d).wrapping_sub(2));
            values.push((!0u64 >> b).wrapping_sub(d));
        }
    }
    let mut p = 1u64;
    loop {
        for k in 1..=9 {
            for d in 0..5u64 {
                values.push(p.wrapping_mul(k).wrapping_add(d).wrapping_sub(2));
            }
        }
        match p.checked_mul(10) {
            Some(n) => p = n,
            None => break,
        }
    }
    let k = if deep { 4 } else { 3 };
    // fractional parts with up to k digits other than 0
    let mut fractions = vec![0u64];
    for _ in 0..k {
        let mut next = fractions.clone();
        for f in &fractions {
            let mut p = 1;
            while p < 1_000_000_000 {
                if *f < p {
                    next.extend((1..10).map(|d| f + d * p));
                }
                p *= 10;
            }
        }
        next.sort_unstable();
        next.dedup();
        fractions = next;
    }
    let qs = [0u64, 1, 9, 10, 100, 1234567890, 18446744072, u64::MAX / 1_000_000_000];
    for q in qs {
        values.extend(fractions.iter().filter_map(|f| (q * 1_000_000_000).checked_add(*f)));
    }
    values.sort_unstable();
    values.dedup();
    let chunk = 4096;
    par_for(ctx, (values.len() + chunk - 1) / chunk, |i| {
        let _e = ctx.enter(|| format!("values {i}"));
        let vs = &values[i * chunk..values.len().min((i + 1) * chunk)];
        vs.iter().for_each(|v| one_value(ctx, *v));
        ctx.add(vs.len() as u64, vs.len() as u64 * 4, vs.len() as u64 * 4);
    });
    ctx.bound(format!("values: {} (around powers of two and ten; fractions with up to {k} digits other than 0, for {} whole parts)", values.len(), qs.len()));
    chars(ctx);
    times(ctx);
    radix(ctx);
    not_strings(ctx);
}

/// A char is one byte; as text it is the character of that number.
fn chars(ctx: &Ctx) {
    for b in 0..=255u8 {
        let v: CharV1 = b.into();
        let j: CharJson = v.clone().into();
        let text = guarded(&|| format!("CharJson of {b}"), || to_json(&j));
        let read = text.clone().done().and_then(|t| t.ok()).map(|t| {
            // what others see is bytes, which have to be text
            let bytes = t.into_bytes();
            (std::str::from_utf8(&bytes).is_ok(), serde_json::from_slice::<CharJson>(&bytes).ok(), serde_json::from_slice::<String>(&bytes).ok())
        });
        let good = read == Some((true, Some(j.clone()), Some(char::from(b).to_string())));
        ctx.check(good, || format!("the char {b} is written as {text:?}, which reads as {read:?}"));
        let base = Char(b);
        let shown = guarded(&|| format!("Char({b})"), || base.to_string().into_bytes());
        let back = shown.clone().done().and_then(|t| String::from_utf8(t).ok()).map(|t| Char::from_str(&t));
        ctx.check(matches!(&back, Some(Ok(c)) if *c == base), || format!("Char({b}) is shown as {shown:?}, which reads as {back:?}"));
        ctx.add(1, 2, 2);
    }
    // texts of no or several characters, and characters that are no byte, are no char
    let all: Vec<char> = (0..0x3000).filter_map(char::from_u32).chain(['\u{ffff}', '\u{10000}', '\u{10ffff}']).collect();
    let texts = [String::new()].into_iter().chain(all.iter().map(|c| c.to_string())).chain("aé\0€".chars().flat_map(|a| all.iter().map(move |b| format!("{a}{b}"))));
    for t in texts {
        let want = match t.chars().collect::<Vec<_>>()[..] {
            [c] => u8::try_from(c as u32).ok(),
            _ => None,
        };
        let q = quoted(&t);
        let r = guarded(&|| format!("CharJson of {t:?}"), || serde_json::from_str::<CharJson>(&q).map(|c| c.0).ok());
        ctx.check(r == Outcome::Done(want), || format!("the text {t:?} is read as the char {r:?}"));
        let r = guarded(&|| format!("Char of {t:?}"), || Char::from_str(&t).map(|c| c.0).ok());
        ctx.check(r == Outcome::Done(want), || format!("the text {t:?} is read as the char {r:?}"));
        ctx.add(1, 2, 2);
    }
}

/// A block time is a number of milliseconds since 1970, whatever it is made from or shown as.
fn times(ctx: &Ctx) {
    let mut ts: Vec<u64> = vec![];
    for b in 0..64 {
        ts.extend((0..5).map(|d| (1u64 << b).wrapping_add(d).wrapping_sub(2)));
    }
    for base in [253402300799999u64, 253402300800000, 1000, 999, 86400000, 377705116800000] {
        ts.extend((0..5).map(|d| base + d - 2));
    }
    for t in ts {
        ctx.add(1, 3, 3);
        let b = BlockTime::from_unix_epoch_millis(t);
        ctx.check(b.epoch_millis() == t, || format!("BlockTime of {t} ms is {} ms", b.epoch_millis()));
        if t <= u64::MAX / 1000 {
            let s = guarded(&|| format!("BlockTime of {t} s"), || BlockTime::from_unix_epoch(t).epoch_millis());
            ctx.check(s == Outcome::Done(t * 1000), || format!("BlockTime of {t} s is {s:?} ms"));
        }
        let d = guarded(&|| format!("date of {t} ms"), || b.datetime().unix_timestamp_nanos());
        match d {
            Outcome::Done(n) if n == t as i128 * 1_000_000 => ctx.outcome("dates"),
            // the calendar of the date ends with the year 9999
            Outcome::Panic(_) if t >= 253402300800000 && ctx.known_finding("date-after-9999", || format!("the date of a block time of {t} ms panics")) => {}
            Outcome::Done(n) if t >= 1 << 63 && n == t as i64 as i128 * 1_000_000 && ctx.known_finding("date-before-1970", || format!("a block time of {t} ms is given the date {n} ns")) => {}
            d => {
                ctx.check(false, || format!("a block time of {t} ms has the date {d:?} ns"));
            }
        }
    }
}

/// Numbers are texts in this format; other JSON is not taken for one.
fn not_strings(ctx: &Ctx) {
    for j in ["1", "-1", "1.5", "null", "true", "[]", "[\"1\"]", "{}", "{\"a\":\"1\"}", "\"", "", "\"1", "1\"", "\"\\ud800\""] {
        macro_rules! refuses {
            ($($t:ty),*) => {$(
                let r = guarded(&|| format!("{} of the JSON {j}", stringify!($t)), || serde_json::from_str::<$t>(j).is_err());
                ctx.check(r == Outcome::Done(true), || format!("{} accepts the JSON {j}: {r:?}", stringify!($t)));
                ctx.add(1, 1, 1);
            )*};
        }
        refuses!(U32Json, U64Json, DecimalJson, CharJson, FieldElementJson, PublicKeyJson, SignatureJson, LedgerHashV1Json, AuxHashJson, VrfOutputTruncatedBase58Json, VrfOutputTruncatedBase64Json, SignedCommandMemoJson);
    }
}

// ---------------------------------------------------------------------------------- C32

/// One type with a text form. Values are given as bytes.
struct Kind {
    name: &'static str,
    /// the text a value has to have
    text: fn(&[u8]) -> String,
    print: fn(&[u8]) -> Result<String, String>,
    read: fn(&str) -> Result<Vec<u8>, String>,
    /// lengths of values
    lens: &'static [usize],
    /// whether these bytes are a value
    valid: fn(&[u8]) -> bool,
    alphabet: &'static [u8],
    /// what a checksum protects: the version byte, and the payload of a value
    payload: Option<(u8, fn(&[u8]) -> Vec<u8>)>,
    /// whether the payload starts with a version number in the binary format
    versioned: bool,
}

const ALPHABET: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const HEX: &[u8] = b"0123456789abcdef";
const BASE64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn err(e: impl Debug) -> String {
    format!("{e:?}")
}

fn arr(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap()
}

fn unquote(r: Result<String, String>) -> Result<String, String> {
    r.and_then(|s| serde_json::from_str::<String>(&s).map_err(err))
}

fn base64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = c.iter().fold(0u32, |n, b| n << 8 | *b as u32) << (8 * (3 - c.len()));
        for k in 0..4 {
            if k <= c.len() {
                s.push(BASE64[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

fn versioned(v: u8, payload: &[u8]) -> String {
    let mut p = vec![v];
    p.extend_from_slice(payload);
    b58(&p)
}

fn one_then(b: &[u8]) -> Vec<u8> {
    let mut p = vec![1];
    p.extend_from_slice(b);
    p
}

fn same(b: &[u8]) -> Vec<u8> {
    b.to_vec()
}

fn len_then(b: &[u8]) -> Vec<u8> {
    let mut p = vec![b.len() as u8];
    p.extend_from_slice(b);
    p
}

fn key_of(b: &[u8]) -> CompressedPubKey {
    CompressedPubKey { x: proof_systems::mina_hasher::Fp::from(ark_ff::BigInteger256::try_from(BigUint::from_bytes_le(&b[..32])).unwrap()), is_odd: b[32] == 1 }
}

fn key_payload(b: &[u8]) -> Vec<u8> {
    let mut p = vec![1, 1];
    p.extend_from_slice(b);
    p
}

/// The order of the curve, which the second half of a signature is below.
const SCALAR: &str = "28948022309329048855892746252171976963363056481941647379679742748393362948097";

fn below_p(b: &[u8]) -> bool {
    BigUint::from_bytes_le(b) < P.parse().unwrap()
}

macro_rules! json_hash {
    ($name:literal, $t:ty, $v:literal) => {
        Kind {
            name: $name,
            text: |b| hash_text($v, &arr(b)),
            print: |b| {
                let v: HashV1 = arr(b).into();
                let j: $t = v.into();
                unquote(to_json(&j))
            },
            read: |s| {
                let j = serde_json::from_str::<$t>(&quoted(s)).map_err(err)?;
                let v: HashV1 = j.into();
                Ok(v.t.to_vec())
            },
            lens: &[32],
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some(($v, one_then)),
            versioned: true,
        }
    };
}

/// A hash type of `mina_crypto`: `Display` and `FromStr`.
macro_rules! hash {
    ($t:ident, $v:literal) => {
        Kind {
            name: stringify!($t),
            text: |b| hash_text($v, &arr(b)),
            print: |b| {
                let v: HashV1 = arr(b).into();
                let h: $t = v.into();
                let s: Result<String, _> = (&h).try_into();
                let s = s.map_err(err)?;
                if s != h.to_string() {
                    return Err(format!("{s} and {h}"));
                }
                Ok(s)
            },
            read: |s| {
                let v: HashV1 = $t::from_str(s).map_err(err)?.into();
                let w: HashV1 = $t::try_from(s).map_err(err)?.into();
                if v != w {
                    return Err("differs".into());
                }
                Ok(v.t.to_vec())
            },
            lens: &[32],
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some(($v, one_then)),
            versioned: true,
        }
    };
}

macro_rules! aux {
    ($name:literal, $t:ident, $v:literal) => {
        Kind {
            name: $name,
            text: |b| versioned($v, b),
            print: |b| {
                let h = $t(b.to_vec());
                let s: Result<String, _> = (&h).try_into();
                s.map_err(err)
            },
            read: |s| Ok($t::from_str(s).map_err(err)?.0),
            lens: &[32, 0, 1, 2, 31, 33, 64, 300],
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some(($v, same)),
            versioned: false,
        }
    };
}

fn kinds() -> Vec<Kind> {
    const ANY: &[usize] = &[32, 0, 1, 2, 31, 33, 64, 255];
    vec![
        hash!(LedgerHash, 5),
        json_hash!("CoinBaseHashV1Json", CoinBaseHashV1Json, 12),
        hash!(EpochSeed, 13),
        hash!(StateHash, 16),
        hash!(StateBodyHash, 17),
        hash!(CoinBaseHash, 12),
        hash!(VrfOutputHash, 21),
        json_hash!("LedgerHashV1Json", LedgerHashV1Json, 5),
        json_hash!("StateHashV1Json", StateHashV1Json, 16),
        json_hash!("StateBodyHashV1Json", StateBodyHashV1Json, 17),
        json_hash!("EpochSeedHashV1Json", EpochSeedHashV1Json, 13),
        json_hash!("CoinBaseStackDataV1Json", CoinBaseStackDataV1Json, 23),
        json_hash!("CoinBaseStackHashV1Json", CoinBaseStackHashV1Json, 24),
        aux!("AuxHash", AuxHash, 14),
        aux!("PendingCoinbaseAuxHash", PendingCoinbaseAuxHash, 15),
        Kind {
            name: "AuxHashJson of versioned bytes",
            text: |b| versioned(14, b),
            print: |b| {
                let v: ByteVecV1 = ByteVec(b.to_vec()).into();
                let j: AuxHashJson = v.into();
                unquote(to_json(&j))
            },
            read: |s| {
                let j: AuxHashJson = serde_json::from_str(&quoted(s)).map_err(err)?;
                let v: ByteVecV1 = j.into();
                Ok(v.t.0)
            },
            lens: ANY,
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some((14, same)),
            versioned: false,
        },
        Kind {
            name: "SignedCommandMemo",
            text: |b| versioned(20, b),
            print: |b| {
                let h = SignedCommandMemo(b.to_vec());
                let s: Result<String, _> = (&h).try_into();
                s.map_err(err)
            },
            read: |s| Ok(SignedCommandMemo::from_str(s).map_err(err)?.0),
            lens: &[34, 0, 1, 33, 35, 300],
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some((20, same)),
            versioned: false,
        },
        Kind {
            name: "VrfOutputTruncated in base 58",
            text: |b| versioned(21, &len_then(b)),
            print: |b| VrfOutputTruncated(b.to_vec()).to_base58_string().map_err(err),
            read: |s| Ok(VrfOutputTruncated::from_base58_str(s).map_err(err)?.0),
            lens: &[32, 0, 1, 2, 31, 33, 127],
            valid: |_| true,
            alphabet: ALPHABET,
            payload: Some((21, len_then)),
            versioned: false,
        },
        Kind {
            name: "VrfOutputTruncated in base 64",
            text: base64,
            print: |b| {
                let v = VrfOutputTruncated(b.to_vec());
                let s = v.to_base64_string().map_err(err)?;
                let j: mina_serialization_types::consensus_state::VrfOutputTruncatedBase64Json = v.into();
                (Ok(s.clone()) == unquote(to_json(&j))).then_some(s).ok_or("differs".into())
            },
            read: |s| Ok(VrfOutputTruncated::from_str(s).map_err(err)?.0),
            lens: ANY,
            valid: |_| true,
            alphabet: BASE64,
            payload: None,
            versioned: false,
        },
        Kind {
            name: "PublicKeyJson",
            text: |b| key_text(&key_of(b)),
            print: |b| {
                let v: PublicKeyV1 = key_of(b).into();
                let j: PublicKeyJson = v.clone().into();
                let s: Result<String, _> = (&v.0.t.t).try_into();
                let s = s.map_err(err)?;
                (Ok(s.clone()) == unquote(to_json(&j))).then_some(s).ok_or("differs".into())
            },
            read: |s| {
                let j: PublicKeyJson = serde_json::from_str(&quoted(s)).map_err(err)?;
                let v: PublicKeyV1 = j.clone().into();
                let w: PublicKey2V1 = j.into();
                let c: CompressedPubKey = (&v).into();
                let d: CompressedPubKey = (&w).into();
                if c != d || v != w.0.t {
                    return Err("differs".into());
                }
                let mut b = v.0.t.t.x.to_vec();
                b.push(v.0.t.t.is_odd as u8);
                (key_of(&b) == c).then_some(b).ok_or("differs".into())
            },
            lens: &[33],
            valid: |b| b[32] < 2 && below_p(&b[..32]),
            alphabet: ALPHABET,
            payload: Some((0xcb, key_payload)),
            versioned: false,
        },
        Kind {
            name: "SignatureJson",
            text: |b| versioned(0x9a, &one_then(b)),
            print: |b| {
                let v: SignatureV1 = SignatureV1((arr(&b[..32]), arr(&b[32..])).into());
                let j: SignatureJson = v.into();
                unquote(to_json(&j))
            },
            read: |s| {
                let j: SignatureJson = serde_json::from_str(&quoted(s)).map_err(err)?;
                let v: SignatureV1 = j.into();
                let (a, b) = v.0.t.t;
                Ok([a, b].concat())
            },
            lens: &[64],
            valid: |b| below_p(&b[..32]) && BigUint::from_bytes_le(&b[32..]) < SCALAR.parse().unwrap(),
            alphabet: ALPHABET,
            payload: Some((0x9a, one_then)),
            versioned: true,
        },
        Kind {
            name: "FieldElementJson",
            text: |b| format!("0x{}", hex_of(b)),
            print: |b| unquote(to_json(&FieldElementJson(arr(b)))),
            read: |s| serde_json::from_str::<FieldElementJson>(&quoted(s)).map(|j| j.0.to_vec()).map_err(err),
            lens: &[32],
            valid: |_| true,
            alphabet: HEX,
            payload: None,
            versioned: false,
        },
        Kind {
            name: "BigInt256 in hexadecimal",
            text: hex_of,
            print: |b| Ok(BigInt256(arr(b)).to_hex_string()),
            read: |s| BigInt256::try_from_hex(s).map(|j| j.0.to_vec()).map_err(err),
            lens: &[32],
            valid: |_| true,
            alphabet: HEX,
            payload: None,
            versioned: false,
        },
    ]
}

fn hex_of(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// Values of a length: uniform ones, and ones in which one byte (or one bit) differs.
fn values(len: usize, every: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for c in [0u8, 1, 0xff, 0x55] {
        out.push(vec![c; len]);
    }
    let rising: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(7).wrapping_add(1)).collect();
    for i in 0..len {
        for b in (0..=255u8).step_by(every).chain([1, 2, 0x80, 0xff]) {
            for base in [&vec![0; len], &rising] {
                let mut v = base.clone();
                v[i] = b;
                out.push(v);
            }
        }
        let mut v = rising.clone();
        v.truncate(i);
        v.resize(len, 0);
        out.push(v);
        let mut v = vec![0; i];
        v.extend_from_slice(&rising[i..]);
        out.push(v);
    }
    out.push(rising);
    out
}

/// Reading this text must give these bytes; without bytes, an error, unless the text is the very
/// text of what was read.
fn text_reads(ctx: &Ctx, k: &Kind, s: &str, want: Option<&[u8]>) {
    let r = guarded(&|| format!("{} of {s:?}", k.name), || (k.read)(s));
    let ok = match (&r, want) {
        (Outcome::Done(Ok(v)), Some(w)) => v == w,
        (Outcome::Done(Err(_)), None) => true,
        (Outcome::Done(Ok(v)), None) => (k.valid)(v) && equivalent(k, s, v),
        _ => false,
    };
    ctx.check(ok, || format!("{} of the text {s:?} gives {r:?}, not {want:?}", k.name));
}

/// Hexadecimal is read in either case, with or without a prefix.
fn equivalent(k: &Kind, s: &str, v: &[u8]) -> bool {
    let t = (k.text)(v);
    if k.alphabet == HEX {
        let bare = |s: &str| {
            let s = s.strip_prefix("0x").or(s.strip_prefix("\\x")).unwrap_or(s);
            s.to_ascii_lowercase()
        };
        return bare(s) == bare(&t);
    }
    if k.alphabet == BASE64 {
        // the padding may be left away
        return s.trim_end_matches('=') == t.trim_end_matches('=');
    }
    s == t
}

fn corruptions(s: &str, alphabet: &[u8], deep: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let others: Vec<char> = alphabet.iter().map(|b| *b as char).chain("0OIl+/= \u{0}é\"\\x.".chars()).collect();
    let mut put = |v: Vec<char>| out.push(v.into_iter().collect::<String>());
    for i in 0..=c.len() {
        for o in &others {
            if i < c.len() && c[i] != *o {
                let mut v = c.clone();
                v[i] = *o;
                put(v);
            }
            let mut v = c.clone();
            v.insert(i, *o);
            put(v);
        }
        if i < c.len() {
            let mut v = c.clone();
            v.remove(i);
            put(v);
            put(c[..i].to_vec());
            put(c[i + 1..].to_vec());
            let up = c[i].to_ascii_uppercase();
            let mut v = c.clone();
            v[i] = if up == c[i] { c[i].to_ascii_lowercase() } else { up };
            if v != c {
                put(v);
            }
        }
        if i + 1 < c.len() && c[i] != c[i + 1] {
            let mut v = c.clone();
            v.swap(i, i + 1);
            put(v);
        }
        if deep {
            for j in i + 1..c.len() {
                if c[i] != c[j] {
                    let mut v = c.clone();
                    v.swap(i, j);
                    put(v);
                }
                let mut v = c.clone();
                v.remove(j);
                v.remove(i);
                put(v);
            }
        }
    }
    out.push(format!("{s}{s}"));
    out
}

pub fn c32(ctx: &Ctx) {
    let deep = ctx.thorough();
    let ks = kinds();
    // 1. every value has its text, and only its text
    let every = if deep { 1 } else { 16 };
    let jobs: Vec<(usize, usize)> = ks.iter().enumerate().flat_map(|(i, k)| k.lens.iter().map(move |l| (i, *l))).collect();
    par_for(ctx, jobs.len(), |j| {
        let (i, len) = jobs[j];
        let k = &ks[i];
        let _e = ctx.enter(|| format!("values of {} of {len} bytes", k.name));
        let mut n = 0;
        for v in values(len, if len > 64 { every * 8 } else { every }) {
            if !(k.valid)(&v) {
                continue;
            }
            n += 1;
            let t = (k.text)(&v);
            let r = guarded(&|| format!("text of {} {}", k.name, hex_of(&v)), || (k.print)(&v));
            ctx.check(r == Outcome::Done(Ok(t.clone())), || format!("{} {} has the text {r:?}, not {t}", k.name, hex_of(&v)));
            text_reads(ctx, k, &t, Some(&v));
        }
        ctx.add(n, n * 2, n * 2);
    });
    ctx.bound(format!("{} types; values: uniform, rising, one byte of them replaced by every {every}th value, and partial ones, of {} lengths", ks.len(), jobs.len()));
    // 2. texts with a character changed, missing, added, swapped; texts of the other types
    let bases: Vec<(usize, Vec<u8>)> = ks
        .iter()
        .enumerate()
        .flat_map(|(i, k)| {
            let len = k.lens[0];
            let mut short = k.lens.get(2).map(|l| vec![vec![0xa7u8; *l]]).unwrap_or_default();
            short.push((0..len).map(|x| (x as u8).wrapping_mul(11).wrapping_add(3) & if x % 32 >= 31 { 1 } else { 0xff }).collect());
            short.push(vec![0; len]);
            short.into_iter().map(move |v| (i, v))
        })
        .filter(|(i, v)| (ks[*i].valid)(v))
        .collect();
    par_for(ctx, bases.len(), |j| {
        let (i, v) = &bases[j];
        let k = &ks[*i];
        let _e = ctx.enter(|| format!("corrupted texts of {}", k.name));
        let t = (k.text)(v);
        let mut n = 0;
        for s in corruptions(&t, k.alphabet, deep) {
            text_reads(ctx, k, &s, None);
            n += 1;
        }
        for other in &ks {
            if other.payload.is_some() && k.payload.is_some() && other.payload.unwrap().0 != k.payload.unwrap().0 {
                text_reads(ctx, other, &t, None);
                n += 1;
            }
        }
        ctx.add(n, n, n);
    });
    ctx.bound("corruptions of 2-3 texts of each type: every character replaced by every other (and some foreign), removed, inserted, swapped with the next, changed in case; every prefix and suffix; the text read as each other type".to_string());
    // 3. texts with a right checksum and wrong contents
    par_for(ctx, ks.len(), |i| {
        let k = &ks[i];
        let _e = ctx.enter(|| format!("contents of {}", k.name));
        let Some((version, payload)) = k.payload else { return };
        let mut n = 0;
        let values: Vec<Vec<u8>> = bases.iter().filter(|(j, _)| *j == i).map(|(_, v)| v.clone()).collect();
        for v in &values {
            let p = payload(v);
            let mut raw: Vec<Vec<u8>> = vec![vec![]];
            for b in 0..=255u8 {
                // the version and each of the bytes before, between and after the members
                let mut t = vec![b];
                t.extend_from_slice(&p);
                raw.push(t);
                for at in 0..p.len() {
                    if !deep && at > 3 && at + 3 < p.len() && at % 16 != 0 {
                        continue;
                    }
                    let mut t = vec![version];
                    t.extend_from_slice(&p);
                    t[at + 1] = b;
                    raw.push(t);
                }
                let mut t = vec![version];
                t.extend_from_slice(&p);
                t.push(b);
                raw.push(t);
                let mut t = vec![version, b];
                t.extend_from_slice(&p);
                raw.push(t);
            }
            for len in 0..p.len() + 3 {
                let mut t = vec![version];
                t.extend_from_slice(&p);
                t.resize(len, 0);
                raw.push(t);
            }
            for t in raw {
                n += 1;
                let s = b58(&t);
                // what the text says, if it says anything: it is the text of its value
                let r = guarded(&|| format!("{} of {s:?}", k.name), || (k.read)(&s));
                let ok = match &r {
                    Outcome::Done(Ok(w)) => (k.valid)(w) && t.first() == Some(&version) && (payload(w)[..] == t[1..] || says_one(&t[1..]).map_or(false, |rest| k.versioned && payload(w)[1..] == *rest)),
                    Outcome::Done(Err(_)) => match t.split_first() {
                        // an error only if no value has this text
                        Some((v, rest)) if *v == version => candidates(k, rest).iter().all(|w| payload(w)[..] != rest[..]),
                        _ => true,
                    },
                    Outcome::Panic(_) => false,
                };
                ctx.check(ok, || format!("{}: the text {s:?} of the bytes {} gives {r:?}", k.name, hex_of(&t)));
            }
        }
        ctx.add(n, n, n);
    });
    ctx.bound("contents with a right checksum: every version, every value of the bytes at the ends of (thorough: all bytes of) the payload, every length, one byte more before or after".to_string());
    limits(ctx);
    out_of_field(ctx);
}

/// What follows a version number of 1, written in any of the ways the format has for integers.
fn says_one(b: &[u8]) -> Option<&[u8]> {
    [&[1][..], &[0xff, 1], &[0xfe, 1, 0], &[0xfd, 1, 0, 0, 0], &[0xfc, 1, 0, 0, 0, 0, 0, 0, 0]].iter().find_map(|h| b.strip_prefix(*h))
}

/// Values whose payload could be `rest`.
fn candidates(k: &Kind, rest: &[u8]) -> Vec<Vec<u8>> {
    (0..3usize).filter_map(|skip| rest.get(skip..)).filter(|v| (k.lens.contains(&v.len()) || k.lens.len() > 1) && (k.lens.len() > 1 || v.len() == k.lens[0]) && (k.valid)(v)).map(|v| v.to_vec()).collect()
}

/// A VRF output is preceded by its length in one byte.
fn limits(ctx: &Ctx) {
    for len in [254usize, 255, 256, 257, 511, 512, 513, 600] {
        let v: Vec<u8> = (0..len).map(|i| i as u8).collect();
        let r = guarded(&|| format!("text of a VRF output of {len} bytes"), || {
            let t = VrfOutputTruncated(v.clone()).to_base58_string().map_err(err)?;
            VrfOutputTruncated::from_base58_str(&t).map(|r| r.0).map_err(err)
        });
        let ok = match &r {
            Outcome::Done(Ok(w)) => *w == v,
            Outcome::Done(Err(_)) => len > 127,
            Outcome::Panic(_) => false,
        };
        ctx.check(ok, || format!("a VRF output of {len} bytes is written and read as {r:?}"));
        ctx.add(1, 2, 1);
    }
}

/// Keys whose coordinate is no field element: they are refused, or kept as they are. The same for
/// signatures.
fn out_of_field(ctx: &Ctx) {
    let p: BigUint = P.parse().unwrap();
    let q: BigUint = SCALAR.parse().unwrap();
    for (a, b, ok) in [(&p - 1u32, &q - 1u32, true), (&p - 1u32, p.clone(), true), (p.clone(), &q - 1u32, false), (&p - 1u32, q.clone(), false), (p.clone(), q.clone(), false), (&p + 1u32, &q + 1u32, false)] {
        let bytes = [le32(&a), le32(&b)].concat();
        let mut payload = vec![0x9a, 1];
        payload.extend_from_slice(&bytes);
        let s = b58(&payload);
        let r = guarded(&|| format!("signature {s}"), || {
            let v: SignatureV1 = serde_json::from_str::<SignatureJson>(&quoted(&s)).ok()?.into();
            Some([v.0.t.t.0, v.0.t.t.1].concat())
        });
        ctx.check(r == Outcome::Done(ok.then(|| bytes.clone())), || format!("the signature {s} is read as {r:?}, its parts are {}elements of their fields", if ok { "" } else { "not " }));
        ctx.add(1, 1, 1);
    }
    let top = (BigUint::from(1u32) << 256) - 1u32;
    for x in [p.clone(), &p + 1u32, &p * 2u32, &p * 2u32 + 5u32, &p * 3u32, BigUint::from(1u32) << 255, &top - 1u32, top] {
        for odd in [false, true] {
            ctx.add(1, 3, 3);
            let x = le32(&x);
            let point = mina_serialization_types::signatures::CompressedCurvePoint { x, is_odd: odd };
            let mut payload = vec![0xcb, 1, 1];
            payload.extend_from_slice(&x);
            payload.push(odd as u8);
            let s = b58(&payload);
            let r = guarded(&|| format!("key {s}"), || serde_json::from_str::<PublicKeyJson>(&quoted(&s)).ok().map(|k| k.x));
            ctx.check(matches!(&r, Outcome::Done(None)), || format!("the key {s}, whose coordinate is no field element, is read as {r:?}"));
            let j: PublicKeyJson = point.clone().into();
            let r = guarded(&|| format!("text of the key {}", hex_of(&x)), || to_json(&j));
            let ok = match &r {
                Outcome::Done(Err(_)) => true,
                Outcome::Done(Ok(t)) => *t == quoted(&s),
                Outcome::Panic(_) => false,
            };
            ctx.check(ok, || format!("a key with the coordinate {}, which is no field element, is written as {r:?}", hex_of(&x)));
        }
    }
}

/// A field element written as a number, in decimal or hexadecimal.
fn radix(ctx: &Ctx) {
    let p: BigUint = P.parse().unwrap();
    let mut ns: Vec<BigUint> = vec![];
    for b in 0..300u32 {
        let n = BigUint::from(1u32) << b;
        ns.extend([&n - 1u32, n.clone(), &n + 1u32]);
    }
    for k in 0..10u32 {
        ns.extend((0..5u32).map(|d| &p * k + d));
        ns.extend((0..5u32).filter(|_| k > 0).map(|d| &p * k - d));
    }
    for n in ns {
        for r in [2u32, 10, 16, 36] {
            for s in [n.to_str_radix(r), format!("000{}", n.to_str_radix(r)), n.to_str_radix(r).to_uppercase()] {
                let got = guarded(&|| format!("Field of {s} in radix {r}"), || Field::from_str_radix(&s, r).ok().map(<[u8; 32]>::from));
                let want = (n < p).then(|| le32(&n));
                ctx.check(got == Outcome::Done(want), || format!("the field element {s} in radix {r} is read as {got:?}"));
                ctx.add(1, 1, 1);
            }
        }
    }
    for s in ["", "-1", " 1", "1 ", "0x1", "1.0", "g", "é"] {
        for r in [2u32, 10, 16] {
            let got = guarded(&|| format!("Field of {s:?} in radix {r}"), || Field::from_str_radix(s, r).is_err());
            ctx.check(got == Outcome::Done(true), || format!("the text {s:?} is read as a field element in radix {r}: {got:?}"));
            ctx.add(1, 1, 1);
        }
    }
}
