//! C33: blocks as JSON.
use crate::leaves::*;
use mc_core::*;
use mina_serialization_types::json::*;
use mina_serialization_types::v1::*;
use serde_json::Value;

/// Where two JSON values differ.
fn differences(a: &Value, b: &Value) -> Vec<Vec<String>> {
    fn go(a: &Value, b: &Value, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match (a, b) {
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (x, y)) in x.iter().zip(y).enumerate() {
                    p.push(i.to_string());
                    go(x, y, p, out);
                    p.pop();
                }
            }
            (Value::Object(x), Value::Object(y)) if x.len() == y.len() && x.keys().eq(y.keys()) => {
                for (k, x) in x {
                    p.push(k.clone());
                    go(x, &y[k], p, out);
                    p.pop();
                }
            }
            _ if a != b => out.push(p.clone()),
            _ => (),
        }
    }
    let mut out = vec![];
    go(a, b, &mut vec![], &mut out);
    out
}

/// The scalar on the way to a place.
fn scalar<'a>(mut v: &'a Value, at: &[String]) -> Option<(usize, &'a Value)> {
    for (i, c) in at.iter().enumerate() {
        v = match v {
            Value::Array(a) => a.get(c.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(c)?,
            _ => return Some((i, v)),
        };
    }
    Some((at.len(), v)).filter(|(_, v)| !v.is_object() && !v.is_array())
}

/// Where in the JSON form a leaf is: by the names of members, the indices of list elements, and
/// the positions in list-tagged variants, whose first element is their name.
fn place(p: &[Part]) -> Vec<String> {
    p.iter()
        .filter_map(|c| match c {
            Part::Name("version" | "?") | Part::Inner => None,
            Part::Name("transaction_snark_proof") => Some("proof".into()),
            Part::Name("data_stack") => Some("data".into()),
            Part::Name("state_stack") => Some("state".into()),
            Part::Name(n) => Some(n.to_string()),
            Part::Item(i) | Part::Of(i, _) => Some(i.to_string()),
            Part::Payload(i) => Some((i + 1).to_string()),
        })
        .collect()
}

/// The name of an alternative in JSON, as the OCaml types have it. The index is that of the
/// binary format.
fn alternative(p: &[Part], i: u32, n: u32) -> Option<&'static str> {
    let member = p.iter().rev().find_map(|c| if let Part::Name(n) = c { (*n != "?").then_some(*n) } else { None })?;
    let names: &[&str] = match (member, n) {
        ("body", 2) => &["Payment", "Stake_delegation"],
        ("body", 1) => &["Set_delegate"],
        ("coinbase", 3) => &["Zero", "One", "Two"],
        ("data", 1) => &["Signed_command"],
        ("internal_command_balances", 2) => &["Coinbase", "Fee_transfer"],
        ("proofs", 2) => &["One", "Two"],
        ("sgn", 2) => &["Pos", "Neg"],
        ("status", 2) => &["Applied", "Failed"],
        ("status", _) => &[
            "Predicate",
            "Source_not_present",
            "Receiver_not_present",
            "Amount_insufficient_to_create_account",
            "Cannot_pay_creation_fee_in_token",
            "Source_insufficient_balance",
            "Source_minimum_balance_violation",
            "Receiver_already_exists",
            "Not_token_owner",
            "Mismatched_token_permissions",
            "Overflow",
            "Signed_command_on_snapp_account",
            "Snapp_account_not_present",
            "Update_not_permitted",
            "Incorrect_nonce",
        ],
        _ => return None,
    };
    names.get(i as usize).copied()
}

/// Members that are not part of the JSON form.
fn unwritten(p: &[Part]) -> bool {
    p.iter().any(|c| matches!(c, Part::Name("current_protocol_version" | "proposed_protocol_version_opt" | "validation_callback")))
}

fn write(v: &ExternalTransitionV1) -> Outcome<Result<String, String>> {
    guarded(&|| "writing a block as JSON".into(), || {
        let j: ExternalTransitionJson = v.clone().into();
        serde_json::to_vec(&j).map_err(|e| e.to_string()).and_then(|b| String::from_utf8(b).map_err(|e| e.to_string()))
    })
}

fn read(text: &str) -> Outcome<Result<ExternalTransitionV1, String>> {
    guarded(&|| "reading a block from JSON".into(), || {
        let j: ExternalTransitionJson = serde_json::from_str(text).map_err(|e| e.to_string())?;
        Ok(j.into())
    })
}

/// The value as it is after writing and reading it.
fn stripped(v: &ExternalTransitionV1) -> ExternalTransitionV1 {
    let mut v = v.clone();
    let j: ExternalTransitionJson = v.clone().into();
    let none = ExternalTransitionJson { current_protocol_version: Default::default(), proposed_protocol_version_opt: None, validation_callback: (), ..j };
    let none: ExternalTransitionV1 = none.into();
    v.t.current_protocol_version = none.t.current_protocol_version;
    v.t.proposed_protocol_version_opt = None;
    v
}

/// Writes a value and reads it back; gives the document.
fn there_and_back(ctx: &Ctx, v: &ExternalTransitionV1, what: impl Fn() -> String) -> Option<Value> {
    let w = write(v);
    let Outcome::Done(Ok(text)) = w else {
        ctx.violate(|| format!("{}: not written: {w:?}", what()));
        return None;
    };
    let r = read(&text);
    let want = stripped(v);
    match r {
        Outcome::Done(Ok(b)) => {
            ctx.check(b == want, || format!("{}: is read back as another block", what()));
        }
        r => ctx.violate(|| format!("{}: not read back: {}", what(), format!("{r:?}").chars().take(300).collect::<String>())),
    }
    serde_json::from_str(&text).ok()
}

/// Is this what a leaf of this kind is written as?
fn says(p: &[Part], l: &Leaf, json: &Value) -> bool {
    let json = json.to_string();
    let name = p.iter().rev().find_map(|c| match c {
        Part::Name(n) if *n != "?" => Some(*n),
        _ => None,
    });
    match l {
        Leaf::Uint(n, 64) if matches!(name, Some("fee" | "magnitude")) => {
            let t = json.trim_matches('"');
            let (w, f) = t.split_once('.').unwrap_or((t, ""));
            f.len() <= 9 && format!("{w}{f:0<9}").parse() == Ok(*n)
        }
        Leaf::Uint(n, 16..) => json == format!("\"{n}\""),
        Leaf::Int(n, 64) => json == n.to_string(),
        Leaf::Int(n, _) => json == format!("\"{}\"", *n as u32),
        Leaf::Bool(b) => json == b.to_string(),
        _ => true,
    }
}

pub fn c33(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.bound("the repository's blocks; a block with one element in each list, and its neighbours: every option, length and variant changed, and every number, flag and byte, also in what the other variants hold");
    ctx.bound("documents: three blocks', every node of which is replaced by each of about 20 others, and every member removed or renamed, every element removed, repeated or moved");
    ctx.assume("curve points and proofs are opaque bytes");
    known_blocks(ctx);
    not_text(ctx);
    documents(ctx, deep);
    vary(ctx, Map::new(), 1, None, deep);
}

/// The blocks of the repository: written as they are there, in both formats if they are in both.
fn known_blocks(ctx: &Ctx) {
    let dir = "/repo/protocol/test-fixtures/src/data";
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
    files.sort();
    let binary = crate::cmd::fixtures();
    for f in files {
        let name = f.file_stem().unwrap().to_str().unwrap();
        let doc: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let genesis = name.starts_with("genesis");
        if !genesis {
            let r = read(&doc.to_string());
            let Outcome::Done(Ok(v)) = &r else {
                ctx.violate(|| format!("{name} is not read: {r:?}"));
                continue;
            };
            let w = there_and_back(ctx, v, || name.into());
            for (k, w) in w.as_ref().and_then(|w| w.as_object()).into_iter().flatten() {
                let d = differences(&doc[k], w);
                ctx.check(d.is_empty(), || format!("{name}, read and written, differs in {k} at {d:?}"));
            }
        }
        if let Some((_, bytes)) = binary.iter().find(|(b, _)| name.ends_with(b.trim_end_matches(".hex").trim_start_matches("genesis-"))) {
            let v: ExternalTransitionV1 = bin_prot::from_reader_strict(&bytes[..]).unwrap();
            let Some(w) = there_and_back(ctx, &v, || name.into()) else { continue };
            // the proof is not in the genesis block's JSON (and its chain proof is written otherwise),
            // and another one is in that of block 77749
            for k in if genesis { &["protocol_state", "staged_ledger_diff"][..] } else { &["protocol_state", "staged_ledger_diff", "delta_transition_chain_proof"] } {
                let d = differences(&doc[k], &w[k]);
                ctx.check(d.is_empty(), || format!("{name}, written from its binary form, differs in {k} at {d:?}"));
            }
            ctx.add(1, 2, 2);
        }
        ctx.add(1, 2, 2);
    }
}

/// Bytes that are written as text need not be any.
fn not_text(ctx: &Ctx) {
    let (_, leaves) = build::<ExternalTransitionV1>(&Map::new(), 1).unwrap();
    let (p, _) = leaves.iter().find(|(p, _)| text(p)).unwrap();
    for bytes in (0x80..=0xff).map(|b| vec![b]).chain([vec![0xc3, 0xa9], vec![0xc3, 0x28], vec![0x61, 0xe2, 0x82]]) {
        let mut m = Map::new();
        let (list, _) = p.split_at(p.len() - 1);
        m.insert(list.to_vec(), Leaf::Len(bytes.len()));
        for (i, b) in bytes.iter().enumerate() {
            m.insert([list, &[Part::Item(i)]].concat(), Leaf::Uint(*b, 8));
        }
        let v = value::<ExternalTransitionV1>(&m, 1).unwrap();
        let r = match write(&v) {
            Outcome::Done(Ok(t)) => read(&t) == Outcome::Done(Ok(stripped(&v))),
            _ => false,
        };
        let what = || format!("a block whose sok_digest is {bytes:x?} is not written as JSON that is read back as it");
        if !r && (String::from_utf8(bytes.iter().map(|b| *b as u8).collect()).is_ok() || !ctx.known_finding("json-bytes-not-utf8", what)) {
            ctx.violate(what);
        }
        ctx.add(1, 2, 2);
    }
}

fn node<'a>(v: &'a mut Value, at: &[String]) -> &'a mut Value {
    at.iter().fold(v, |v, c| match v {
        Value::Array(a) => &mut a[c.parse::<usize>().unwrap()],
        v => &mut v[c],
    })
}

fn nodes(v: &Value, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(p.clone());
    let children: Vec<(String, &Value)> = match v {
        Value::Array(a) => a.iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect(),
        Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), x)).collect(),
        _ => vec![],
    };
    for (k, x) in children {
        p.push(k);
        nodes(x, p, out);
        p.pop();
    }
}

/// The same document as far as a reader may see it: absent members are null, and numbers in
/// decimal text may have more or less zeros. A variant without payload may have a null one.
fn alike(doc: &Value, w: &Value) -> bool {
    match (doc, w) {
        (Value::Array(x), Value::Array(y)) if x.len() == 2 && y.len() == 1 && x[1].is_null() => x[0] == y[0],
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, y)| alike(x.get(k).unwrap_or(&Value::Null), y)),
        (Value::String(x), Value::String(y)) => x == y || matches!((plain(x), plain(y)), (Some(x), Some(y)) if x == y),
        (x, y) => x == y,
    }
}

fn plain(s: &str) -> Option<String> {
    if s.is_empty() || s.bytes().any(|c| !c.is_ascii_digit() && c != b'.') {
        return None;
    }
    let (w, f) = s.split_once('.').unwrap_or((s, ""));
    Some(format!("{}.{}", w.trim_start_matches('0'), f.trim_end_matches('0')))
}

/// A document that is not that of a block is refused, and one that is read as a block is the
/// block's.
fn documents(ctx: &Ctx, deep: bool) {
    let mut docs: Vec<(usize, Value)> = vec![];
    for i in 0..3 {
        // one document for each way a payload, status, coinbase etc. can be
        let (_, leaves) = build::<ExternalTransitionV1>(&Map::new(), 1).unwrap();
        let mut map = Map::new();
        for (p, l) in leaves {
            if let Leaf::Variant(_, n) = l {
                map.insert(p, Leaf::Variant(i as u32 % n, n));
            }
        }
        let v = value::<ExternalTransitionV1>(&map, 1).unwrap();
        if let Outcome::Done(Ok(t)) = write(&v) {
            docs.push((i, serde_json::from_str(&t).unwrap()));
        }
    }
    for (i, doc) in &docs {
        let mut all = vec![];
        nodes(doc, &mut vec![], &mut all);
        par_for(ctx, all.len(), |j| {
            let at = &all[j];
            let _e = ctx.enter(|| format!("document {i}, altered at {}", at.join("/")));
            let mut n = 0;
            let mut doc = doc.clone();
            let was = node(&mut doc, at).clone();
            let mut try_one = |doc: &Value, what: &dyn Fn() -> String| {
                n += 1;
                match read(&doc.to_string()) {
                    Outcome::Done(Err(_)) => (),
                    Outcome::Done(Ok(v)) => match write(&v) {
                        Outcome::Done(Ok(t)) => {
                            let w: Value = serde_json::from_str(&t).unwrap();
                            ctx.check(alike(doc, &w), || format!("document {i} with {} is read as the block of another, which differs at {:?}", what(), differences(doc, &w)));
                        }
                        w => ctx.violate(|| format!("document {i} with {} is read, but not written: {w:?}", what())),
                    },
                    Outcome::Panic(p) => ctx.violate(|| format!("document {i} with {}: reading panics: {p}", what())),
                }
            };
            let mut others: Vec<Value> = ["null", "true", "0", "-1", "1.5", "18446744073709551615", "\"\"", "\"x\"", "\"7\"", "[]", "[[]]", "{}", "[null]"].iter().map(|t| serde_json::from_str(t).unwrap()).collect();
            others.push(Value::Array(vec![was.clone()]));
            match &was {
                Value::String(s) => {
                    others.push(Value::String(s.chars().skip(1).collect()));
                    others.push(Value::String(format!("{s}1")));
                    others.push(Value::String(format!("-{s}")));
                    others.push(Value::String(format!(" {s}")));
                    others.push(Value::String(s.to_lowercase()));
                    if let Ok(n) = s.parse::<u64>() {
                        others.push(n.into());
                    }
                }
                Value::Number(x) => others.push(Value::String(x.to_string())),
                Value::Array(a) => {
                    for k in 0..a.len() {
                        let mut b = a.clone();
                        b.remove(k);
                        others.push(Value::Array(b));
                        let mut b = a.clone();
                        b.insert(k, a[k].clone());
                        others.push(Value::Array(b));
                        if k > 0 {
                            let mut b = a.clone();
                            b.swap(k - 1, k);
                            others.push(Value::Array(b));
                        }
                    }
                    for x in ["null", "0", "\"x\""] {
                        let mut b = a.clone();
                        b.push(serde_json::from_str(x).unwrap());
                        others.push(Value::Array(b));
                    }
                    if a.len() == 2 {
                        others.push(a[1].clone());
                        others.push(serde_json::json!({ a[0].as_str().unwrap_or("-"): a[1] }));
                    }
                }
                Value::Object(o) => {
                    for k in o.keys() {
                        let mut b = o.clone();
                        b.remove(k);
                        others.push(Value::Object(b));
                        let mut b = o.clone();
                        let x = b.remove(k).unwrap();
                        b.insert(format!("{k}_"), x);
                        others.push(Value::Object(b));
                    }
                }
                _ => (),
            }
            others.retain(|o| *o != was);
            if !deep && at.len() > 14 {
                others.truncate(14);
            }
            for o in others {
                *node(&mut doc, at) = o.clone();
                try_one(&doc, &|| format!("{} at {}", o.to_string().chars().take(200).collect::<String>(), at.join("/")));
            }
            ctx.add(n, n, n);
        });
    }
}

pub fn shape(p: &[Part]) -> String {
    p.iter().map(|c| match c {
        Part::Item(_) | Part::Inner => "_".into(),
        Part::Of(..) if p.len() > 40 => "_".into(),
        c => format!("{c:?}"),
    }).collect::<Vec<_>>().join("/")
}

/// Changes every leaf (below one) of a value, one at a time; then goes on from the values of other
/// structure with what they have that the first had not.
fn vary(ctx: &Ctx, map: Map, len: usize, below: Option<Path>, deep: bool) {
    let mut work = vec![(map, below)];
    let mut seen = std::collections::HashSet::new();
    while let Some((map, below)) = work.pop() {
        let name = below.as_ref().map(|p| format!("{:?} at {}", map.get(p).unwrap(), show(p))).unwrap_or_default();
        let (v, leaves) = build::<ExternalTransitionV1>(&map, len).unwrap();
        let Some(base) = there_and_back(ctx, &v, || format!("block with {name}")) else { continue };
        for (p, l) in leaves.iter().filter(|(p, _)| below.as_ref().map_or(true, |b| p.starts_with(b))) {
            if let (Leaf::Variant(i, k), false) = (l, unwritten(p)) {
                let said = place(p).iter().try_fold(&base, |v, c| match v {
                    Value::Array(a) => a.get(c.parse::<usize>().ok()?),
                    Value::Object(o) => o.get(c),
                    _ => None,
                });
                let says = said.map(|v| v.get(0).unwrap_or(v)).and_then(|s| s.as_str());
                if let Some(a) = alternative(p, *i, *k) {
                    ctx.check(says == Some(a), || format!("block with {name}: {a} at {} is in JSON {said:?}", show(p)));
                    ctx.outcome("alternatives named");
                }
            }
        }
        let todo: Vec<_> = leaves.iter().filter(|(p, _)| below.as_ref().map_or(true, |b| p.starts_with(b) && p != b)).collect();
        let next = std::sync::Mutex::new(vec![]);
        par_for(ctx, todo.len(), |i| {
            let (p, l) = todo[i];
            let _e = ctx.enter(|| format!("block with {name}, varied at {}", show(p)));
            let at = place(p);
            let mut n = 0;
            if !unwritten(p) && !structural(l) && !matches!(l, Leaf::Version(_)) {
                let q = scalar(&base, &at);
                ctx.check(q.map_or(false, |(k, q)| k < at.len() || says(p, l, q)), || format!("block with {name}: {l:?} at {} is in JSON {q:?}", show(p)));
            }
            for o in others(l, p, deep) {
                n += 1;
                let mut m = map.clone();
                m.insert(p.clone(), o.clone());
                let v = value::<ExternalTransitionV1>(&m, len).unwrap();
                let what = || format!("block with {name}, and {o:?} at {}", show(p));
                let Some(new) = there_and_back(ctx, &v, what) else { continue };
                let d = differences(&base, &new);
                if unwritten(p) {
                    ctx.check(d.is_empty(), || format!("{}: differs in JSON at {d:?}", what()));
                } else if structural(l) {
                    ctx.check(!d.is_empty() && (d.iter().all(|d| d.starts_with(&at)) || d.len() == 1 && at.starts_with(&d[0])), || format!("{}: differs in JSON at {d:?}", what()));
                    if !matches!(o, Leaf::Len(_) | Leaf::Some(false)) || deep {
                        next.lock().unwrap().push((m, Some(p.clone())));
                    }
                } else {
                    let q = scalar(&new, &at);
                    ctx.check(d.len() == 1 && at.starts_with(&d[0]) && q.map_or(false, |(k, q)| k == d[0].len() && (k < at.len() || says(p, &o, q))), || format!("{}: differs in JSON at {d:?}", what()));
                }
            }
            ctx.add(n, n, 2 * n);
        });
        for (m, p) in next.into_inner().unwrap() {
            let q = p.clone().unwrap();
            if seen.insert(format!("{} {:?}", shape(&q), m.get(&q).unwrap())) {
                work.push((m, p));
            }
        }
    }
}
