//! Layout-driven (loose) decoding: reference interpretation of layout rules.
use crate::model::{hex, label_hash, put_int, put_nat0, Cur, Role, Stop};
use bin_prot::{BinProtRule, Layout, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Unit,
    Bool,
    /// Int, Int32, Int64 or Native_int
    Int(&'static str),
    Float,
    Char,
    Str,
    Opt(Box<R>),
    List(Box<R>),
    Tuple(Vec<R>),
    Rec(Vec<(&'static str, R)>),
    /// (name, declared index, arguments)
    Sum(Vec<(&'static str, i32, Vec<R>)>),
    /// (name, declared hash, arguments)
    Poly(Vec<(&'static str, u32, Vec<R>)>),
    /// resolved reference (module path)
    Ref(&'static str, Box<R>),
    /// custom 32-byte type at the given path
    Big(&'static str),
    /// custom fixed-size vector at the given path
    Vector(&'static str, usize, Box<R>),
    /// opaque member of a type at a path known to hold 32 bytes (the nearest Ref around it)
    Opaque,
    /// fixed-size vector member of a type at a path known to be such a vector
    OpaqueVec(usize, Box<R>),
    /// a rule of the layout language that decoding does not support
    Unsupported(&'static str),
}

pub const BIGS: [&str; 10] = [
    "Ledger_hash0",
    "State_hash",
    "Pending_coinbase.Stack_hash",
    "State_body_hash",
    "Pending_coinbase.Hash_builder",
    "Snark_params.Make_inner_curve_scalar",
    "Snark_params.Tick",
    "Epoch_seed",
    "Zexe_backend.Zexe_backend_common.Stable.Field",
    "Pending_coinbase.Coinbase_stack",
];
pub const VECTORS: [(&str, usize); 6] = [
    ("Pickles_type.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector4", 4),
    ("Pickles_types.Vector.Vector8", 8),
    ("Pickles_types.Vector.Vector17", 17),
    ("Pickles_types.Vector.Vector18", 18),
];

/// Rules the layout language has and decoding refuses.
pub const UNSUPPORTED: &[&str] = &[
    r#"["Nat0"]"#,
    r#"["Bigstring"]"#,
    r#"["Hashtable",{"key_rule":["Int"],"value_rule":["Bool"]}]"#,
    r#"["Vec",2,["Int"]]"#,
    r#"["Type_var","a"]"#,
    r#"["Self_reference",[]]"#,
    r#"["Self_reference",[["Int"]]]"#,
    r#"["Type_abstraction",["a"],["Type_var","a"]]"#,
    r#"["Type_closure",[["a",["Int"]]],["Type_var","a"]]"#,
    r#"["Reference",["Unresolved",{"params":[],"layout_id":"x"}]]"#,
    r#"["Reference",["Resolved",{"source_type_decl":"t","source_module_path":"Some.Unknown.Path","ref_rule":["Custom",[]]}]]"#,
    r#"["Reference",["Resolved",{"source_type_decl":"t","source_module_path":"Pickles_types.Vector.Vector2","ref_rule":["Custom",[]]}]]"#,
    r#"["Polyvar",[["Inherited",["Int"]]]]"#,
];

pub fn json(r: &R) -> String {
    let list = |v: &[R]| v.iter().map(json).collect::<Vec<_>>().join(",");
    match r {
        R::Unit => r#"["Unit"]"#.into(),
        R::Bool => r#"["Bool"]"#.into(),
        R::Int(n) => format!(r#"["{n}"]"#),
        R::Float => r#"["Float"]"#.into(),
        R::Char => r#"["Char"]"#.into(),
        R::Str => r#"["String"]"#.into(),
        R::Opt(r) => format!(r#"["Option",{}]"#, json(r)),
        R::List(r) => format!(r#"["List",{}]"#, json(r)),
        R::Tuple(v) => format!(r#"["Tuple",[{}]]"#, list(v)),
        R::Rec(v) => {
            let f: Vec<_> = v.iter().map(|(n, r)| format!(r#"{{"field_name":"{n}","field_rule":{}}}"#, json(r))).collect();
            format!(r#"["Record",[{}]]"#, f.join(","))
        }
        R::Sum(v) => {
            let f: Vec<_> = v.iter().map(|(n, i, a)| format!(r#"{{"ctor_name":"{n}","index":{i},"ctor_args":[{}]}}"#, list(a))).collect();
            format!(r#"["Sum",[{}]]"#, f.join(","))
        }
        R::Poly(v) => {
            let f: Vec<_> = v.iter().map(|(n, h, a)| format!(r#"["Tagged",{{"polyvar_name":"{n}","hash":{h},"polyvar_args":[{}]}}]"#, list(a))).collect();
            format!(r#"["Polyvar",[{}]]"#, f.join(","))
        }
        R::Ref(p, r) => reference(p, &json(r)),
        R::Big(p) => reference(p, r#"["Custom",[]]"#),
        R::Vector(p, _, r) => reference(p, &format!(r#"["Custom",[{}]]"#, json(r))),
        R::Opaque => r#"["Custom",[]]"#.into(),
        R::OpaqueVec(_, r) => format!(r#"["Custom",[{}]]"#, json(r)),
        R::Unsupported(s) => s.to_string(),
    }
}

fn reference(path: &str, rule: &str) -> String {
    format!(r#"["Reference",["Resolved",{{"source_type_decl":"t","source_module_path":"{path}","ref_rule":{rule}}}]]"#)
}

pub fn document(rule: &str) -> String {
    format!(r#"{{"layout_loc":"x.ml","version_opt":1,"type_decl":"t","bin_io_derived":true,"bin_prot_rule":{rule}}}"#)
}

pub fn rule(r: &R) -> BinProtRule {
    let l: Layout = serde_json::from_str(&document(&json(r))).unwrap_or_else(|e| panic!("layout {}: {e}", json(r)));
    l.bin_prot_rule
}

/// What the layout says about the bytes at the cursor.
pub fn decode(r: &R, c: &mut Cur) -> Result<Value, Stop> {
    Ok(match r {
        R::Unit => {
            c.unit()?;
            Value::Unit
        }
        R::Bool => Value::Bool(c.flag()?),
        R::Int(_) => Value::Int(c.int()? as i64),
        R::Float => Value::Float(f64::from_bits(c.float(8)?)),
        R::Char => Value::Char(c.byte(|| Role::Byte)?),
        R::Str => Value::List(c.text()?.into_iter().map(Value::Char).collect()),
        R::Opt(r) => Value::Option(if c.flag()? { Some(Box::new(decode(r, c)?)) } else { None }),
        R::List(r) => {
            let n = c.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(decode(r, c)?);
            }
            Value::List(v)
        }
        R::Tuple(rs) => Value::Tuple(all(rs, c)?),
        R::Rec(fs) => {
            let mut v = vec![];
            for (n, r) in fs {
                v.push((n.to_string(), decode(r, c)?));
            }
            Value::Record(v)
        }
        R::Sum(vs) => {
            let i = c.byte(|| Role::Variant(vs.len()))?;
            let (name, _, args) = vs.iter().find(|v| v.1 == i as i32).ok_or(Stop::Invalid)?;
            Value::Sum { name: name.to_string(), index: i, value: Box::new(Value::Tuple(all(args, c)?)) }
        }
        R::Poly(vs) => {
            let tag = c.tag(|| vs.iter().map(|v| v.1).collect())?;
            let (name, _, args) = vs.iter().find(|v| v.1 == tag).ok_or(Stop::Invalid)?;
            Value::Polyvar { name: name.to_string(), tag, value: Box::new(Value::Tuple(all(args, c)?)) }
        }
        R::Ref(_, r) => decode(r, c)?,
        R::Big(_) | R::Opaque => {
            let mut v = vec![];
            for _ in 0..32 {
                v.push(Value::Char(c.byte(|| Role::Byte)?));
            }
            Value::Tuple(v)
        }
        R::Vector(_, n, r) | R::OpaqueVec(n, r) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(decode(r, c)?);
            }
            c.unit()?;
            v.push(Value::Unit);
            Value::Tuple(v)
        }
        R::Unsupported(_) => return Err(Stop::Invalid),
    })
}

fn all(rs: &[R], c: &mut Cur) -> Result<Vec<Value>, Stop> {
    let mut v = vec![];
    for r in rs {
        v.push(decode(r, c)?);
    }
    Ok(v)
}

/// Bytes the format prescribes for a value read by a layout.
pub fn encode(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Unit => out.push(0),
        Value::Nat0(n) => put_int(*n as i128, out),
        Value::Bool(b) => out.push(*b as u8),
        Value::String(s) => {
            put_nat0(s.len() as u64, out);
            out.extend(s);
        }
        Value::Char(c) => out.push(*c),
        Value::Int(n) => put_int(*n as i128, out),
        Value::Float(f) => out.extend(f.to_bits().to_le_bytes()),
        Value::Option(None) => out.push(0),
        Value::Option(Some(v)) => {
            out.push(1);
            encode(v, out)
        }
        Value::Record(m) => m.iter().for_each(|(_, v)| encode(v, out)),
        Value::Tuple(m) => m.iter().for_each(|v| encode(v, out)),
        Value::Sum { index, value, .. } => {
            out.push(*index);
            encode(value, out)
        }
        Value::Polyvar { tag, value, .. } => {
            out.extend((tag << 1 | 1).to_le_bytes());
            encode(value, out)
        }
        Value::List(v) => {
            put_nat0(v.len() as u64, out);
            v.iter().for_each(|v| encode(v, out))
        }
    }
}

/// Equality with floats compared by their bits.
pub fn same(a: &Value, b: &Value) -> bool {
    let seq = |a: &[Value], b: &[Value]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b));
    match (a, b) {
        (Value::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits(),
        (Value::Option(Some(a)), Value::Option(Some(b))) => same(a, b),
        (Value::Record(a), Value::Record(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)),
        (Value::Tuple(a), Value::Tuple(b)) | (Value::List(a), Value::List(b)) => seq(a, b),
        (Value::Sum { name: n, index: i, value: v }, Value::Sum { name: m, index: j, value: w }) => n == m && i == j && same(v, w),
        (Value::Polyvar { name: n, tag: i, value: v }, Value::Polyvar { name: m, tag: j, value: w }) => n == m && i == j && same(v, w),
        (a, b) => a == b,
    }
}

pub fn leaves() -> Vec<R> {
    vec![R::Unit, R::Bool, R::Int("Int"), R::Int("Int32"), R::Int("Int64"), R::Int("Native_int"), R::Float, R::Char, R::Str]
}

pub fn unary(r: &R) -> Vec<R> {
    let r = || r.clone();
    vec![
        R::Opt(Box::new(r())),
        R::List(Box::new(r())),
        R::Tuple(vec![r()]),
        R::Rec(vec![("a", r())]),
        R::Sum(vec![("A", 0, vec![]), ("B", 1, vec![r()])]),
        R::Sum(vec![("C", 7, vec![r()]), ("D", 3, vec![R::Bool, r()]), ("E", 255, vec![])]),
        R::Poly(vec![("One", label_hash("One"), vec![]), ("Two", label_hash("Two"), vec![r()])]),
        R::Poly(vec![("Two", label_hash("Two"), vec![r(), R::Bool]), ("B", label_hash("B"), vec![R::Char])]),
        R::Ref("Some.Path", Box::new(r())),
        R::Vector(VECTORS[1].0, VECTORS[1].1, Box::new(r())),
    ]
}

pub fn binary(a: &R, b: &R) -> Vec<R> {
    let (a, b) = (|| a.clone(), || b.clone());
    vec![
        R::Tuple(vec![a(), b()]),
        R::Rec(vec![("first", a()), ("second", b())]),
        R::Sum(vec![("X", 1, vec![a()]), ("Y", 0, vec![b(), a()])]),
        R::Poly(vec![("One", label_hash("One"), vec![a()]), ("Two", label_hash("Two"), vec![b(), a()])]),
    ]
}

/// Can an encoding be empty? (lists of such elements are left out)
fn takes_bytes(r: &R) -> bool {
    match r {
        R::Tuple(v) => v.iter().any(takes_bytes),
        R::Rec(v) => v.iter().any(|f| takes_bytes(&f.1)),
        R::Ref(_, r) => takes_bytes(r),
        _ => true,
    }
}

fn sound(r: &R) -> bool {
    match r {
        R::List(r) => takes_bytes(r),
        _ => true,
    }
}

pub fn rules_of_size(n: usize, leaves: &[R]) -> Vec<R> {
    let mut by: Vec<Vec<R>> = vec![vec![], leaves.to_vec()];
    for s in 2..=n {
        let mut v = vec![];
        for r in &by[s - 1] {
            v.extend(unary(r).into_iter().filter(sound));
        }
        for l in 1..s - 1 {
            for a in &by[l] {
                for b in &by[s - 1 - l] {
                    v.extend(binary(a, b));
                }
            }
        }
        by.push(v);
    }
    by.pop().unwrap()
}

pub fn specials() -> Vec<R> {
    let mut v: Vec<R> = BIGS.iter().map(|p| R::Big(p)).collect();
    for (p, n) in VECTORS {
        v.push(R::Vector(p, n, Box::new(R::Char)));
        v.push(R::Vector(p, n, Box::new(R::Ref("Snark_params.Tick", Box::new(R::Bool)))));
    }
    v.push(R::Vector(VECTORS[1].0, 2, Box::new(R::Big(BIGS[1]))));
    v.push(R::Vector(VECTORS[1].0, 2, Box::new(R::Vector(VECTORS[2].0, 4, Box::new(R::Bool)))));
    v.push(R::List(Box::new(R::Big(BIGS[0]))));
    v.push(R::List(Box::new(R::Vector(VECTORS[0].0, 2, Box::new(R::Int("Int"))))));
    v.push(R::Tuple(vec![R::Big(BIGS[2]), R::Ref("Other.Path", Box::new(R::Bool)), R::Big(BIGS[3]), R::Int("Int")]));
    v.push(R::Rec(vec![("h", R::Big(BIGS[4])), ("n", R::Ref("State_hash", Box::new(R::Int("Int64"))))]));
    // opaque members deeper inside a referenced type, also several of them
    let inside = |o: R| {
        vec![
            R::Tuple(vec![o.clone(), R::Bool, o.clone()]),
            R::Rec(vec![("a", o.clone()), ("b", o.clone()), ("c", R::Char)]),
            R::List(Box::new(o.clone())),
            R::Opt(Box::new(o.clone())),
            R::Sum(vec![("A", 0, vec![o.clone(), o.clone()]), ("B", 1, vec![R::Opt(Box::new(o.clone()))])]),
            R::Tuple(vec![R::List(Box::new(o.clone())), o]),
        ]
    };
    for p in BIGS {
        v.extend(inside(R::Opaque).into_iter().map(|r| R::Ref(p, Box::new(r))));
    }
    for (p, n) in VECTORS {
        v.extend(inside(R::OpaqueVec(n, Box::new(R::Bool))).into_iter().map(|r| R::Ref(p, Box::new(r))));
    }
    v.push(R::Tuple(vec![R::Ref(BIGS[0], Box::new(R::Opaque)), R::Ref("Some.Path", Box::new(R::Bool)), R::Ref(VECTORS[2].0, Box::new(R::OpaqueVec(4, Box::new(R::Int("Int"))))), R::Ref(BIGS[9], Box::new(R::Tuple(vec![R::Opaque])))]));
    v.push(R::Tuple(vec![]));
    v.push(R::Rec(vec![]));
    v.push(R::Tuple(vec![R::Tuple(vec![]), R::Bool, R::Rec(vec![]), R::Char]));
    v.push(R::Rec(vec![("x", R::Bool), ("x", R::Char), ("", R::Int("Int"))]));
    v.push(R::Sum(vec![]));
    v.push(R::Sum(vec![("Only", 0, vec![])]));
    v.push(R::Poly(vec![]));
    v.push(R::Sum((0..256).map(|i| ("V", i, if i % 3 == 0 { vec![] } else { vec![R::Bool] })).collect()));
    v.push(R::Poly((0..300).map(|i| ("P", i * 7 + 1, if i % 2 == 0 { vec![] } else { vec![R::Char] })).collect()));
    v.push(R::Poly(vec![("Big", 0x7fff_ffff, vec![]), ("Small", 0, vec![R::Bool]), ("Out", 0x8000_0000, vec![])]));
    v
}

pub fn show(r: &R) -> String {
    let j = json(r);
    if j.len() > 400 {
        format!("{}...", &j[..400])
    } else {
        j
    }
}

pub fn say(v: &Result<Value, bin_prot::error::Error>) -> String {
    match v {
        Ok(v) => crate::scalar::clip(&format!("Ok({v:?})")),
        Err(e) => format!("Err({e})"),
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    let mut o = vec![];
    encode(v, &mut o);
    o
}

pub fn brief(b: &[u8]) -> String {
    hex(b)
}
