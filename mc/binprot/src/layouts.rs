//! C11: decoding by a layout; C12: loose values encode to the bytes they were read from;
//! C13: layout documents; C14: indexing of loose values.
use crate::loose::{self, R};
use crate::model::*;
use crate::prefix::walk;
use crate::scalar::clip;
use bin_prot::{BinProtRule, Value};
use mc_core::*;
use serde::Deserialize;

fn rules(thorough: bool) -> Vec<(R, u8, u64)> {
    let few = [R::Bool, R::Int("Int"), R::Str];
    let mut v: Vec<(R, u8, u64)> = loose::leaves().into_iter().map(|r| (r, 2, 200_000)).collect();
    let cut = if thorough { 60_000 } else { 8_000 };
    v.extend(loose::rules_of_size(2, &loose::leaves()).into_iter().map(|r| (r, 1, cut)));
    v.extend(loose::rules_of_size(3, &loose::leaves()).into_iter().map(|r| (r, 1, cut / 4)));
    v.extend(loose::rules_of_size(4, &few).into_iter().map(|r| (r, 0, if thorough { 4_000 } else { 400 })));
    v.extend(loose::specials().into_iter().map(|r| (r, 0, 4_000)));
    for u in loose::UNSUPPORTED {
        v.extend(loose::binary(&R::Bool, &R::Unsupported(u)).into_iter().map(|r| (r, 1, 2_000)));
    }
    v
}

/// Bytes of some values of a rule (for rules whose encodings are longer than the input tree
/// is deep).
pub fn encodings(r: &R) -> Vec<Vec<u8>> {
    fn seqs(rs: &[&R]) -> Vec<Vec<u8>> {
        let mut out: Vec<Vec<u8>> = vec![vec![]];
        for r in rs {
            let e = encodings(r);
            let keep = if rs.len() > 2 { 2 } else { 4 };
            out = out.iter().flat_map(|o| e.iter().take(keep).map(|x| [&o[..], x].concat()).collect::<Vec<_>>()).collect();
            out.truncate(64);
        }
        out
    }
    match r {
        R::Unit => vec![vec![0]],
        R::Bool => vec![vec![1], vec![0]],
        R::Int(_) => [-3i128, 300, 127, -70000, i64::MIN as i128]
            .iter()
            .map(|n| {
                let mut o = vec![];
                put_int(*n, &mut o);
                o
            })
            .collect(),
        R::Float => vec![(-1.5f64).to_le_bytes().to_vec(), f64::NAN.to_le_bytes().to_vec()],
        R::Char => vec![vec![0xe9], vec![0], vec![b'a']],
        R::Str => vec![vec![0], vec![2, 0xff, b'x'], [&[0xfe, 130, 0][..], &[b'z'; 130]].concat()],
        R::Opt(r) => std::iter::once(vec![0]).chain(encodings(r).into_iter().take(3).map(|e| [&[1][..], &e].concat())).collect(),
        R::List(r) => {
            let e = encodings(r);
            let mut v = vec![vec![0], [&[1][..], &e[0]].concat()];
            let mut two = vec![3];
            for i in 0..3 {
                two.extend(&e[i % e.len()]);
            }
            v.insert(0, two);
            let mut many = vec![0xfe, 0x84, 0];
            for i in 0..0x84 {
                many.extend(&e[i % e.len()]);
            }
            if many.len() < 4000 {
                v.push(many);
            }
            v
        }
        R::Tuple(v) => seqs(&v.iter().collect::<Vec<_>>()),
        R::Rec(v) => seqs(&v.iter().map(|f| &f.1).collect::<Vec<_>>()),
        R::Sum(v) => v.iter().filter(|s| (0..256).contains(&s.1)).flat_map(|(_, i, a)| seqs(&a.iter().collect::<Vec<_>>()).into_iter().map(|e| [&[*i as u8][..], &e].concat()).collect::<Vec<_>>()).collect(),
        R::Poly(v) => v.iter().filter(|s| s.1 < 0x8000_0000).flat_map(|(_, h, a)| seqs(&a.iter().collect::<Vec<_>>()).into_iter().map(|e| [&(h << 1 | 1).to_le_bytes()[..], &e].concat()).collect::<Vec<_>>()).collect(),
        R::Ref(_, r) => encodings(r),
        R::Big(_) | R::Opaque => vec![(0x70..0x90).collect(), vec![0xff; 32]],
        R::Vector(_, n, r) | R::OpaqueVec(n, r) => {
            let e = encodings(r);
            (0..2).map(|k| (0..*n).flat_map(|i| e[(i + k) % e.len()].clone()).chain([0]).collect()).collect()
        }
        R::Unsupported(_) => vec![],
    }
}

fn each(ctx: &Ctx, f: &(dyn Fn(&R, &BinProtRule, &[u8]) -> bool + Sync)) {
    let rs = rules(ctx.thorough());
    ctx.bound(format!("{} layouts: every rule tree of up to 3 rules over the 9 scalar rules, 4 over three, all custom types and vectors, 256 summands, 300 tags; on each the tree of inputs of up to 14 bytes over the significant bytes of each position, then encodings of whole values and all their prefixes, with and without bytes after them", rs.len()));
    par_for(ctx, rs.len(), |i| {
        let (r, rich, limit) = &rs[i];
        let _e = ctx.enter(|| loose::show(r));
        let rule = loose::rule(r);
        let model = |b: &[u8]| {
            let mut c = Cur::new(b);
            loose::decode(r, &mut c).map(|_| c.at)
        };
        let (n, e, _) = walk(&model, *rich, 14, *limit, &mut |node| f(r, &rule, node.bytes) && !ctx.stopped());
        let mut m = 0;
        let mut done = std::collections::HashSet::new();
        for b in encodings(r).into_iter().take(40) {
            for cut in (0..=b.len()).rev().take(if b.len() > 80 { 12 } else { 80 }) {
                if done.insert(b[..cut].to_vec()) {
                    m += 1;
                    if !f(r, &rule, &b[..cut]) {
                        return;
                    }
                }
            }
            let longer = [&b[..], &[0x05, 0xff]].concat();
            m += 1;
            f(r, &rule, &longer);
        }
        ctx.add(n + m, e + m, 0);
        if i % 301 == 0 {
            ctx.sample(|| format!("{}: {} inputs", loose::show(r), n + m));
        }
    });
}

/// Decode, and count the bytes left in the deserializer.
fn run(rule: &BinProtRule, b: &[u8]) -> bin_prot::error::Result<(Value, usize)> {
    use std::io::Read;
    let mut de = bin_prot::Deserializer::from_reader(b).with_layout(rule);
    let v = Value::deserialize(&mut de)?;
    let mut rest = vec![];
    de.rdr.read_to_end(&mut rest)?;
    Ok((v, rest.len()))
}

pub fn c11(ctx: &Ctx) {
    each(ctx, &|r, rule, b| {
        let mut c = Cur::new(b);
        let want = loose::decode(r, &mut c).map(|v| (v, b.len() - c.at));
        let got = guarded(&|| format!("decode [{}] by layout {}", hex(b), loose::show(r)), || run(rule, b));
        ctx.add(0, 0, 1);
        let good = match (&want, &got) {
            (Ok((v, n)), Outcome::Done(Ok((g, k)))) => loose::same(v, g) && n == k,
            (Err(_), Outcome::Done(Err(_))) => true,
            _ => false,
        };
        ctx.check(good, || {
            let w = match &want {
                Ok(x) => clip(&format!("(value, bytes left) {x:?}")),
                Err(_) => "an error".into(),
            };
            format!("decode [{}] by layout {}: {}, expected {w}", hex(b), loose::show(r), clip(&crate::drive::say(&got)))
        })
    });
    // several values in a row, one layout each: the layout is consumed with the value
    for r in [R::Bool, R::List(Box::new(R::Char)), R::Sum(vec![("A", 0, vec![R::Bool])])] {
        let rule = loose::rule(&r);
        let b = encodings(&r).remove(0);
        let d = [&b[..], &b].concat();
        let got = guarded(&|| loose::show(&r), || {
            let mut de = bin_prot::Deserializer::from_reader(&d[..]).with_layout(&rule);
            let a = Value::deserialize(&mut de).is_ok();
            (a, Value::deserialize(&mut de).is_err())
        });
        ctx.add(1, 2, 1);
        ctx.check(got == Outcome::Done((true, true)), || format!("layout {}: a second value after the layout's end: {got:?} (first accepted, second refused)", loose::show(&r)));
    }
    mixed(ctx);
}

/// A strongly typed struct whose parts are decoded by a layout (hybrid decoding).
fn mixed(ctx: &Ctx) {
    #[derive(Deserialize, Debug, PartialEq)]
    struct Hybrid {
        a: i64,
        b: Value,
        c: (bool, char),
        d: Vec<Value>,
    }
    let r = R::Rec(vec![("a", R::Int("Int")), ("b", R::Rec(vec![("x", R::Bool), ("y", R::Str)])), ("c", R::Tuple(vec![R::Bool, R::Char])), ("d", R::List(Box::new(R::Opt(Box::new(R::Int("Int"))))))]);
    let rule = loose::rule(&r);
    for (i, b) in encodings(&r).into_iter().enumerate() {
        let mut c = Cur::new(&b);
        let want = loose::decode(&r, &mut c).unwrap();
        let got = guarded(&|| format!("hybrid from [{}]", hex(&b)), || Hybrid::deserialize(&mut bin_prot::Deserializer::from_reader(&b[..]).with_layout(&rule)));
        let parts = match &want {
            Value::Record(v) => v.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
            _ => unreachable!(),
        };
        ctx.add(1, 1, 1);
        let good = match &got {
            Outcome::Done(Ok(h)) => Value::Int(h.a) == parts[0] && h.b == parts[1] && Value::Tuple(vec![Value::Bool(h.c.0), Value::Char(h.c.1 as u8)]) == parts[2] && Value::List(h.d.clone()) == parts[3],
            _ => false,
        };
        ctx.check(good, || format!("hybrid struct {i} from [{}]: {}, expected the parts {}", hex(&b), clip(&crate::drive::say(&got)), clip(&format!("{parts:?}"))));
    }
}

pub fn c12(ctx: &Ctx) {
    each(ctx, &|r, rule, b| {
        let mut c = Cur::new(b);
        let want = match loose::decode(r, &mut c) {
            Ok(v) => v,
            Err(_) => return true,
        };
        let used = &b[..c.at];
        // only canonical input comes back byte by byte
        if loose::bytes(&want) != used {
            ctx.outcomes_n("not canonical", 1);
            return true;
        }
        ctx.outcomes_n("canonical", 1);
        ctx.add(0, 0, 1);
        let got = guarded(&|| format!("decode and encode [{}] by layout {}", hex(b), loose::show(r)), || -> bin_prot::error::Result<Vec<u8>> {
            let v = Value::deserialize(&mut bin_prot::Deserializer::from_reader(b).with_layout(rule))?;
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &v)?;
            Ok(o)
        });
        ctx.check(matches!(&got, Outcome::Done(Ok(o)) if o == used), || format!("[{}] read by layout {} and written back: {}", hex(used), loose::show(r), match &got { Outcome::Done(Ok(o)) => hex(o), o => clip(&crate::drive::say(o)) }))
    });
    // values built in memory
    let vals = |deep: bool| -> Vec<Value> {
        let mut v = vec![Value::Unit, Value::Bool(true), Value::Bool(false), Value::Float(-0.0), Value::Float(f64::INFINITY), Value::Option(None), Value::String(vec![]), Value::String(vec![b'a', 0xff]), Value::List(vec![]), Value::Tuple(vec![]), Value::Record(vec![])];
        v.extend((0..=255).map(Value::Char));
        v.extend([0, 1, 127, 128, -1, -128, -129, 32767, 32768, -32769, 1 << 31, (1 << 31) - 1, -(1 << 31) - 1, i64::MIN, i64::MAX].map(Value::Int));
        if !deep {
            v.truncate(14);
        }
        v
    };
    let flat = vals(true);
    let few = vals(false);
    let mut all = flat.clone();
    for x in &flat {
        all.push(Value::Option(Some(Box::new(x.clone()))));
        for index in [0u8, 1, 127, 128, 255] {
            all.push(Value::Sum { name: "N".into(), index, value: Box::new(x.clone()) });
        }
        for tag in [0u32, 1, 255, 256, 65535, 65536, 3953222, 0x7fff_ffff] {
            all.push(Value::Polyvar { name: "N".into(), tag, value: Box::new(x.clone()) });
        }
    }
    for x in &few {
        for y in &few {
            all.push(Value::Tuple(vec![x.clone(), y.clone()]));
            all.push(Value::List(vec![x.clone(), y.clone()]));
            all.push(Value::Record(vec![("b".into(), x.clone()), ("a".into(), y.clone())]));
        }
    }
    for n in [127usize, 128, 300, 65535, 65536] {
        all.push(Value::List(vec![Value::Bool(true); n]));
        all.push(Value::String(vec![7; n]));
        all.push(Value::Tuple(vec![Value::Char(9); n]));
    }
    for v in &all {
        let want = loose::bytes(v);
        let got = guarded(&|| clip(&format!("encode {v:?}")), || {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, v).map(|_| o)
        });
        ctx.add(1, want.len() as u64, 1);
        ctx.check(matches!(&got, Outcome::Done(Ok(o)) if *o == want), || format!("{} is written as {}, the format prescribes [{}]", clip(&format!("{v:?}")), match &got { Outcome::Done(Ok(o)) => hex(o), o => clip(&crate::drive::say(o)) }, hex(&want)));
    }
}

// ---------------------------------------------------------------- documents

/// Number of parameters of each tag, and whether parameter lists are recognised.
const TAGS: &[(&str, usize)] = &[
    ("Nat0", 0), ("Unit", 0), ("Bool", 0), ("String", 0), ("Char", 0), ("Int", 0), ("Int32", 0), ("Int64", 0), ("Native_int", 0), ("Float", 0), ("Bigstring", 0),
    ("Option", 1), ("Record", 1), ("Tuple", 1), ("Sum", 1), ("Polyvar", 1), ("List", 1), ("Hashtable", 1), ("Reference", 1), ("Type_var", 1), ("Self_reference", 1), ("Custom", 1),
    ("Vec", 2), ("Type_abstraction", 2), ("Type_closure", 2),
];
const BOGUS: &[&str] = &["", "int", "INT", "Nat", "Nat1", "Int16", "NativeInt", "TypeVar", "SelfReference", "TypeAbstraction", "TypeClosure", "CustomForPath", "Tagged", "Resolved", "Optional", "option", "Bool ", " Bool", "Vector"];

/// (document, what serialization of the parsed rule must say)
fn params() -> Vec<(&'static str, &'static str, String)> {
    let o = |s: &str| s.to_string();
    vec![
        ("Option", r#"["Int"]"#, o(r#"{"Option":"Int"}"#)),
        ("List", r#"["Option",["Char"]]"#, o(r#"{"List":{"Option":"Char"}}"#)),
        ("Tuple", r#"[]"#, o(r#"{"Tuple":[]}"#)),
        ("Tuple", r#"[["Int"],["Bool"],["Native_int"]]"#, o(r#"{"Tuple":["Int","Bool","NativeInt"]}"#)),
        ("Record", r#"[]"#, o(r#"{"Record":[]}"#)),
        ("Record", r#"[{"field_name":"b","field_rule":["Int"]},{"field_name":"a","field_rule":["List",["Bool"]]}]"#, o(r#"{"Record":[{"field_name":"b","field_rule":"Int"},{"field_name":"a","field_rule":{"List":"Bool"}}]}"#)),
        ("Sum", r#"[{"ctor_name":"Y","index":1,"ctor_args":[]},{"ctor_name":"X","index":0,"ctor_args":[["Int"],["Char"]]}]"#, o(r#"{"Sum":[{"ctor_name":"Y","index":1,"ctor_args":[]},{"ctor_name":"X","index":0,"ctor_args":["Int","Char"]}]}"#)),
        ("Polyvar", r#"[["Tagged",{"polyvar_name":"One","hash":3953222,"polyvar_args":[["Bool"]]}],["Inherited",["Unit"]]]"#, o(r#"{"Polyvar":[{"Tagged":{"polyvar_name":"One","hash":3953222,"polyvar_args":["Bool"]}},{"Inherited":"Unit"}]}"#)),
        ("Hashtable", r#"{"key_rule":["Int"],"value_rule":["Bool"]}"#, o(r#"{"Hashtable":{"key_rule":"Int","value_rule":"Bool"}}"#)),
        ("Reference", r#"["Unresolved",{"params":[["Int"]],"layout_id":"x.y"}]"#, o(r#"{"Reference":{"Unresolved":{"params":["Int"],"layout_id":"x.y"}}}"#)),
        ("Reference", r#"["Resolved",{"source_type_decl":"t","source_module_path":"A.B","bin_io_derived":true,"ref_rule":["Int32"]}]"#, o(r#"{"Reference":{"Resolved":{"source_type_decl":"t","source_module_path":"A.B","bin_io_derived":true,"ref_rule":"Int32"}}}"#)),
        ("Reference", r#"["Resolved",{"source_type_decl":"t","ref_rule":["Float"]}]"#, o(r#"{"Reference":{"Resolved":{"source_type_decl":"t","source_module_path":"","bin_io_derived":false,"ref_rule":"Float"}}}"#)),
        ("Type_var", r#""a""#, o(r#"{"TypeVar":"a"}"#)),
        ("Self_reference", r#"[["Int64"]]"#, o(r#"{"SelfReference":["Int64"]}"#)),
        ("Custom", r#"[["String"],["Unit"]]"#, o(r#"{"Custom":["String","Unit"]}"#)),
        ("Vec", r#"3,["Bigstring"]"#, o(r#"{"Vec":[3,"Bigstring"]}"#)),
        ("Type_abstraction", r#"["a","b"],["Type_var","b"]"#, o(r#"{"TypeAbstraction":[["a","b"],{"TypeVar":"b"}]}"#)),
        ("Type_closure", r#"[["a",["Int"]]],["Nat0"]"#, o(r#"{"TypeClosure":[[["a","Int"]],"Nat0"]}"#)),
    ]
}

fn parse(rule: &str) -> Outcome<Result<String, String>> {
    let doc = loose::document(rule);
    guarded(&|| format!("layout document {doc}"), || {
        serde_json::from_str::<bin_prot::Layout>(&doc).map_err(|e| e.to_string()).map(|l| serde_json::to_string(&l.bin_prot_rule).unwrap())
    })
}

pub fn c13(ctx: &Ctx) {
    ctx.bound("every tag of the layout language and 19 near misses, with 0 to 3 parameters out of 24 parameter documents, at the top and nested in each of the 10 places a rule can stand; every member of a record, summand, tagged polyvar, reference and of the document left out in turn; layouts of up to 4 rules compared with the rule read back");
    let want = |got: &Outcome<Result<String, String>>, want: Option<&str>| match (got, want) {
        (Outcome::Done(Ok(g)), Some(w)) => g == w,
        (Outcome::Done(Err(_)), None) => true,
        _ => false,
    };
    // accepted forms
    let mut good: Vec<(String, String)> = vec![];
    for (t, n) in TAGS.iter().filter(|t| t.1 == 0) {
        let name = if *t == "Native_int" { "NativeInt" } else { t };
        assert!(*n == 0);
        good.push((format!(r#"["{t}"]"#), format!("\"{name}\"")));
    }
    for (t, p, s) in params() {
        good.push((format!(r#"["{t}",{p}]"#), s));
    }
    let holes: Vec<(String, String)> = vec![
        ("%".into(), "%".into()),
        (r#"["Option",%]"#.into(), r#"{"Option":%}"#.into()),
        (r#"["List",%]"#.into(), r#"{"List":%}"#.into()),
        (r#"["Tuple",[["Int"],%,["Bool"]]]"#.into(), r#"{"Tuple":["Int",%,"Bool"]}"#.into()),
        (r#"["Record",[{"field_name":"a","field_rule":["Int"]},{"field_name":"b","field_rule":%}]]"#.into(), r#"{"Record":[{"field_name":"a","field_rule":"Int"},{"field_name":"b","field_rule":%}]}"#.into()),
        (r#"["Sum",[{"ctor_name":"A","index":5,"ctor_args":[%]}]]"#.into(), r#"{"Sum":[{"ctor_name":"A","index":5,"ctor_args":[%]}]}"#.into()),
        (r#"["Polyvar",[["Tagged",{"polyvar_name":"P","hash":4294967295,"polyvar_args":[%]}]]]"#.into(), r#"{"Polyvar":[{"Tagged":{"polyvar_name":"P","hash":4294967295,"polyvar_args":[%]}}]}"#.into()),
        (r#"["Polyvar",[["Inherited",%]]]"#.into(), r#"{"Polyvar":[{"Inherited":%}]}"#.into()),
        (r#"["Reference",["Resolved",{"source_type_decl":"t","source_module_path":"p","bin_io_derived":false,"ref_rule":%}]]"#.into(), r#"{"Reference":{"Resolved":{"source_type_decl":"t","source_module_path":"p","bin_io_derived":false,"ref_rule":%}}}"#.into()),
        (r#"["Custom",[%]]"#.into(), r#"{"Custom":[%]}"#.into()),
        (r#"["Vec",7,%]"#.into(), r#"{"Vec":[7,%]}"#.into()),
        (r#"["Hashtable",{"key_rule":%,"value_rule":["Unit"]}]"#.into(), r#"{"Hashtable":{"key_rule":%,"value_rule":"Unit"}}"#.into()),
    ];
    let (mut n, mut nodes) = (0u64, 0u64);
    let size = |s: &str| s.matches("[\"").count() as u64;
    for (h, hs) in &holes {
        for (g, gs) in &good {
            for (h2, h2s) in &holes {
                let rule = h2.replace('%', &h.replace('%', g));
                let w = h2s.replace('%', &hs.replace('%', gs));
                let got = parse(&rule);
                n += 1;
                nodes += size(&rule);
                ctx.check(want(&got, Some(&w)), || format!("layout rule {rule} is read as {got:?}, expected the rule {w}"));
            }
        }
    }
    // refused forms: every tag with every number of parameters but its own
    let any: Vec<String> = vec![r#"["Int"]"#, r#"[]"#, r#"[["Int"]]"#, r#""a""#, "3", "null", "true", "{}", r#"{"key_rule":["Int"],"value_rule":["Bool"]}"#, r#"["Nope"]"#, r#"[[]]"#, "-1", "1.5", r#"["Int",3]"#, r#"[["Option"]]"#].into_iter().map(String::from).collect();
    let mut bad: Vec<String> = vec![];
    for (t, k) in TAGS {
        if *k != 0 {
            bad.push(format!(r#"["{t}"]"#));
        }
        if *k != 1 {
            bad.extend(any.iter().map(|a| format!(r#"["{t}",{a}]"#)));
        }
        for a in &any {
            for b in &any {
                if *k != 2 {
                    bad.push(format!(r#"["{t}",{a},{b}]"#));
                }
                bad.push(format!(r#"["{t}",{a},{b},{a}]"#));
            }
        }
        bad.push(format!("\"{t}\""));
        bad.push(format!(r#"{{"{t}":[]}}"#));
    }
    for t in BOGUS {
        bad.push(format!(r#"["{t}"]"#));
        for a in &any {
            bad.push(format!(r#"["{t}",{a}]"#));
            bad.push(format!(r#"["{t}",3,{a}]"#));
        }
    }
    // wrong parameters of the right number
    for (t, ok) in [("Option", 0usize), ("List", 0)] {
        bad.extend(any.iter().enumerate().filter(|(i, _)| *i != ok).map(|(_, a)| format!(r#"["{t}",{a}]"#)));
    }
    for t in ["Tuple", "Self_reference", "Custom"] {
        bad.extend(any.iter().enumerate().filter(|(i, _)| ![1, 2].contains(i)).map(|(_, a)| format!(r#"["{t}",{a}]"#)));
    }
    for t in ["Record", "Sum", "Polyvar"] {
        bad.extend(any.iter().enumerate().filter(|(i, _)| *i != 1).map(|(_, a)| format!(r#"["{t}",{a}]"#)));
    }
    bad.extend(any.iter().enumerate().filter(|(i, _)| *i != 3).map(|(_, a)| format!(r#"["Type_var",{a}]"#)));
    bad.extend(any.iter().map(|a| format!(r#"["Reference",{a}]"#)));
    for p in [r#"["Resolved"]"#, r#"["Other",{"params":[],"layout_id":"x"}]"#, r#"["Resolved",{"source_type_decl":"t"}]"#, r#"["Resolved",{"ref_rule":["Int"]}]"#, r#"["Unresolved",{"params":[]}]"#, r#"["Unresolved",{"layout_id":"x"}]"#, r#"["Resolved",{"source_type_decl":"t","ref_rule":["Nope"]}]"#, r#"["Resolved",{"source_type_decl":"t","ref_rule":["Int"]},1]"#] {
        bad.push(format!(r#"["Reference",{p}]"#));
    }
    for p in [r#"[["Tagged"]]"#, r#"[["Other",{"polyvar_name":"P","hash":1,"polyvar_args":[]}]]"#, r#"[["Tagged",{"hash":1,"polyvar_args":[]}]]"#, r#"[["Tagged",{"polyvar_name":"P","polyvar_args":[]}]]"#, r#"[["Tagged",{"polyvar_name":"P","hash":1}]]"#, r#"[["Tagged",{"polyvar_name":"P","hash":-1,"polyvar_args":[]}]]"#, r#"[["Tagged",{"polyvar_name":"P","hash":4294967296,"polyvar_args":[]}]]"#, r#"[["Tagged",{"polyvar_name":"P","hash":1,"polyvar_args":[]},2]]"#, r#"[["Inherited",["Nope"]]]"#] {
        bad.push(format!(r#"["Polyvar",{p}]"#));
    }
    for p in [r#"[{"ctor_name":"A","index":0}]"#, r#"[{"ctor_name":"A","ctor_args":[]}]"#, r#"[{"index":0,"ctor_args":[]}]"#, r#"[{"ctor_name":"A","index":"0","ctor_args":[]}]"#, r#"[{"ctor_name":"A","index":2147483648,"ctor_args":[]}]"#, r#"[{"ctor_name":"A","index":0,"ctor_args":[["Nope"]]}]"#] {
        bad.push(format!(r#"["Sum",{p}]"#));
    }
    for p in [r#"[{"field_name":"a"}]"#, r#"[{"field_rule":["Int"]}]"#, r#"[{"field_name":1,"field_rule":["Int"]}]"#, r#"[{"field_name":"a","field_rule":["Nope"]}]"#, r#"[{"field_name":"a","field_rule":"Int"}]"#] {
        bad.push(format!(r#"["Record",{p}]"#));
    }
    bad.extend(["[]", "null", "{}", "3", "\"Int\"", "[3]", "[[\"Int\"]]", "[null]"].map(String::from));
    for b in &bad {
        for (h, _) in &holes {
            let rule = h.replace('%', b);
            let got = parse(&rule);
            n += 1;
            nodes += size(&rule);
            ctx.check(want(&got, None), || format!("layout rule {rule} is accepted ({got:?}), it is not one of the layout language"));
        }
    }
    ctx.add(n, nodes, n);
    // the document around the rule
    let doc = |skip: usize| {
        let m = [r#""layout_loc":"l""#, r#""version_opt":null"#, r#""type_decl":"t""#, r#""bin_io_derived":true"#, r#""bin_prot_rule":["Int"]"#];
        let v: Vec<&str> = m.iter().enumerate().filter(|(i, _)| *i != skip).map(|x| *x.1).collect();
        format!("{{{}}}", v.join(","))
    };
    for skip in 0..=5 {
        let d = doc(skip);
        let got = guarded(&|| d.clone(), || serde_json::from_str::<bin_prot::Layout>(&d).is_ok());
        // an absent option is None
        let want = skip == 5 || skip == 1;
        ctx.add(1, 1, 1);
        ctx.check(got == Outcome::Done(want), || format!("layout document {d}: accepted = {got:?}, expected {want}"));
    }
    // rules read back
    let mut rs = loose::rules_of_size(3, &loose::leaves());
    rs.extend(loose::rules_of_size(4, &[R::Bool, R::Int("Int"), R::Str]));
    rs.extend(loose::specials());
    par_for(ctx, rs.len(), |i| {
        let j = loose::json(&rs[i]);
        let w = rust_form(&rs[i]);
        let got = parse(&j);
        ctx.add(1, size(&j), 1);
        ctx.check(matches!(&got, Outcome::Done(Ok(g)) if *g == w), || format!("layout rule {} is read as {}, expected {}", clip(&j), clip(&format!("{got:?}")), clip(&w)));
    });
}

/// The rule as its derived serialization shows it.
fn rust_form(r: &R) -> String {
    let list = |v: &[R]| v.iter().map(rust_form).collect::<Vec<_>>().join(",");
    let refer = |p: &str, x: String| format!(r#"{{"Reference":{{"Resolved":{{"source_type_decl":"t","source_module_path":"{p}","bin_io_derived":false,"ref_rule":{x}}}}}}}"#);
    match r {
        R::Unit => "\"Unit\"".into(),
        R::Bool => "\"Bool\"".into(),
        R::Int("Native_int") => "\"NativeInt\"".into(),
        R::Int(n) => format!("\"{n}\""),
        R::Float => "\"Float\"".into(),
        R::Char => "\"Char\"".into(),
        R::Str => "\"String\"".into(),
        R::Opt(r) => format!(r#"{{"Option":{}}}"#, rust_form(r)),
        R::List(r) => format!(r#"{{"List":{}}}"#, rust_form(r)),
        R::Tuple(v) => format!(r#"{{"Tuple":[{}]}}"#, list(v)),
        R::Rec(v) => format!(r#"{{"Record":[{}]}}"#, v.iter().map(|(n, r)| format!(r#"{{"field_name":"{n}","field_rule":{}}}"#, rust_form(r))).collect::<Vec<_>>().join(",")),
        R::Sum(v) => format!(r#"{{"Sum":[{}]}}"#, v.iter().map(|(n, i, a)| format!(r#"{{"ctor_name":"{n}","index":{i},"ctor_args":[{}]}}"#, list(a))).collect::<Vec<_>>().join(",")),
        R::Poly(v) => format!(r#"{{"Polyvar":[{}]}}"#, v.iter().map(|(n, h, a)| format!(r#"{{"Tagged":{{"polyvar_name":"{n}","hash":{h},"polyvar_args":[{}]}}}}"#, list(a))).collect::<Vec<_>>().join(",")),
        R::Ref(p, r) => refer(p, rust_form(r)),
        R::Big(p) => refer(p, r#"{"Custom":[]}"#.into()),
        R::Vector(p, _, r) => refer(p, format!(r#"{{"Custom":[{}]}}"#, rust_form(r))),
        R::Opaque => r#"{"Custom":[]}"#.into(),
        R::OpaqueVec(_, r) => format!(r#"{{"Custom":[{}]}}"#, rust_form(r)),
        R::Unsupported(_) => unreachable!(),
    }
}

// ---------------------------------------------------------------- indexing

pub fn c14(ctx: &Ctx) {
    ctx.bound("every loose value of depth up to 3 built from lists, tuples, records (also with repeated and empty names), sums, polyvars, options and scalars; numeric indices 0..=5 and usize::MAX, names present, absent and empty");
    let leaf = vec![Value::Int(1), Value::Bool(true), Value::Char(7), Value::String(b"ab".to_vec()), Value::Unit, Value::Float(2.0)];
    let grow = |vs: &[Value]| -> Vec<Value> {
        let mut o = vec![];
        let f = |i: usize| vs[i % vs.len()].clone();
        for i in 0..vs.len() {
            o.push(Value::Option(Some(Box::new(f(i)))));
            o.push(Value::Sum { name: "a".into(), index: 0, value: Box::new(f(i)) });
            o.push(Value::Polyvar { name: "a".into(), tag: 1, value: Box::new(f(i)) });
            for n in 0..4 {
                let m: Vec<Value> = (0..n).map(|k| f(i + k)).collect();
                o.push(Value::List(m.clone()));
                o.push(Value::Tuple(m.clone()));
                for names in [["a", "b", "c"], ["a", "a", "b"], ["", "b", "a"], ["b", "A", "0"]] {
                    o.push(Value::Record(m.iter().zip(names).map(|(v, n)| (n.to_string(), v.clone())).collect()));
                }
            }
        }
        o
    };
    let l2 = grow(&leaf);
    let l3 = grow(&l2);
    let mut all = leaf.clone();
    all.extend(l2);
    all.extend(l3);
    if ctx.thorough() {
        all.extend(grow(&all[all.len() - 900..].to_vec()));
    }
    fn inside(v: &Value) -> &Value {
        match v {
            Value::Sum { value, .. } => value,
            v => v,
        }
    }
    par_for(ctx, all.len(), |i| {
        let v = &all[i];
        let mut n = 0;
        for k in [0usize, 1, 2, 3, 4, 5, usize::MAX] {
            let want = match inside(v) {
                Value::List(m) | Value::Tuple(m) => m.get(k),
                _ => None,
            };
            let got = guarded(&|| format!("{v:?}[{k}]"), || v[k].clone());
            n += 1;
            let good = match (&got, want) {
                (Outcome::Done(g), Some(w)) => g == w,
                (Outcome::Panic(_), None) => true,
                _ => false,
            };
            use bin_prot::value::Index;
            ctx.check(good && k.index_into(v) == want, || format!("{v:?}[{k}] = {got:?} (index_into: {:?}), expected {want:?}", k.index_into(v)));
        }
        for k in ["a", "b", "c", "", "A", "0", "absent"] {
            let want = match inside(v) {
                Value::Record(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
                _ => None,
            };
            let got = guarded(&|| format!("{v:?}[{k:?}]"), || (v[k].clone(), v[k.to_string()].clone()));
            n += 1;
            let good = match (&got, want) {
                (Outcome::Done((g, h)), Some(w)) => g == w && h == w,
                (Outcome::Panic(_), None) => true,
                _ => false,
            };
            use bin_prot::value::Index;
            ctx.check(good && k.index_into(v) == want, || format!("{v:?}[{k:?}] = {got:?} (index_into: {:?}), expected {want:?}", k.index_into(v)));
        }
        if let Value::Option(o) = v {
            ctx.check(v.inner().as_ref() == o.as_deref(), || format!("inner() of {v:?} is {:?}", v.inner()));
        }
        ctx.add(1, n, n);
    });
}
