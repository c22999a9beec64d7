//! C18: the layout reader; C19: the checker used against the OCaml implementation. The two
//! programs are built from /repo by check.sh and run as processes in a scratch directory.
use crate::loose::{self, R};
use crate::model::*;
use crate::prefix::walk;
use crate::scalar::clip;
use bin_prot::Value;
use mc_core::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Scratch {
    fn new(ctx: &Ctx) -> Scratch {
        let p = PathBuf::from(format!("{}/target/scratch-{}-{}", ctx.out, ctx.property, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    fn dir(&self, i: usize) -> PathBuf {
        let d = self.0.join(i.to_string());
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
struct Ran {
    /// None: ended by a signal
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn run(bin: &str, dir: &Path, args: &[&str], stdin: &[u8]) -> Ran {
    let path = std::env::var("MC_BIN_DIR").expect("MC_BIN_DIR");
    let mut c = Command::new(format!("{path}/{bin}"))
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("{path}/{bin}: {e}"));
    // the program may end without reading its input
    let _ = c.stdin.take().unwrap().write_all(stdin);
    let o = c.wait_with_output().unwrap();
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

fn text(b: &[u8]) -> String {
    clip(&format!("{:?}", String::from_utf8_lossy(b)))
}

// ---------------------------------------------------------------- C18

/// What the program takes the file's contents for.
fn contents(file: &[u8]) -> Vec<u8> {
    let digit = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    if file.len() % 2 == 0 && file.iter().all(|b| digit(*b).is_some()) {
        file.chunks(2).map(|p| digit(p[0]).unwrap() << 4 | digit(p[1]).unwrap()).collect()
    } else {
        file.to_vec()
    }
}

fn expected(r: &R, file: &[u8], roundtrip: bool) -> Result<Value, &'static str> {
    let bytes = contents(file);
    let mut c = Cur::new(&bytes);
    let v = loose::decode(r, &mut c).map_err(|_| "the bytes are no value of the layout")?;
    if roundtrip && loose::bytes(&v) != bytes {
        return Err("the value does not encode to the file's bytes");
    }
    Ok(v)
}

const OLD: &str = "what was there before, longer than most outputs are but not all of them";

fn one(ctx: &Ctx, dir: &Path, r: &R, file: &[u8], roundtrip: bool, out: u8, swap: bool) {
    std::fs::write(dir.join("b"), file).unwrap();
    let outfile = dir.join("o");
    let _ = std::fs::remove_file(&outfile);
    if out == 2 {
        std::fs::write(&outfile, OLD).unwrap();
    }
    let mut args: Vec<&str> = vec!["l", "b"];
    let mut flags: Vec<&str> = vec![];
    if roundtrip {
        flags.push(if swap { "--roundtrip" } else { "-r" });
    }
    if out > 0 {
        flags.extend([if swap { "--output" } else { "-o" }, "o"]);
    }
    if swap {
        flags.extend(args);
        args = flags;
    } else {
        args.extend(flags);
    }
    let got = run("bin-prot-layout-reader", dir, &args, b"");
    let case = || format!("bin-prot-layout-reader {} with layout {} and the file [{}] ({})", args.join(" "), loose::show(r), hex(file), text(file));
    let say = |g: &Ran| format!("exit {:?}, stdout {}, stderr {}", g.code, text(&g.out), clip(&g.err));
    let written = std::fs::read(&outfile).ok();
    match expected(r, file, roundtrip) {
        Ok(v) => {
            let shown = format!("{v:#?}");
            ctx.outcome("value shown");
            if out == 0 {
                ctx.check(got.code == Some(0) && got.out == format!("{shown}\n").as_bytes() && written.is_none(), || format!("{}: {}, expected {}", case(), say(&got), text(shown.as_bytes())));
            } else {
                ctx.check(got.code == Some(0) && got.out.is_empty() && written.as_deref() == Some(shown.as_bytes()), || {
                    format!("{}: {}, file {}, expected {}", case(), say(&got), text(&written.clone().unwrap_or_default()), text(shown.as_bytes()))
                });
            }
        }
        Err(why) => {
            ctx.outcome(why);
            let untouched = match out {
                2 => written.as_deref() == Some(OLD.as_bytes()),
                _ => written.is_none(),
            };
            ctx.check(matches!(got.code, Some(c) if c != 0) && got.out.is_empty() && untouched, || format!("{}: {}, output file {}; expected a failure ({why}) that shows nothing", case(), say(&got), text(&written.clone().unwrap_or_default())));
        }
    }
    ctx.add(0, 0, 1);
}

fn inputs(r: &R, limit: u64) -> Vec<Vec<u8>> {
    let model = |b: &[u8]| {
        let mut c = Cur::new(b);
        loose::decode(r, &mut c).map(|_| c.at)
    };
    let mut v: Vec<Vec<u8>> = vec![];
    let (mut ok, mut bad) = (0, 0);
    walk(&model, 0, 12, 4000, &mut |n| {
        match n.want {
            Some(Ok(_)) if ok < limit => {
                ok += 1;
                v.push(n.bytes.to_vec());
                // one byte too many
                v.push([n.bytes, &[0]].concat());
            }
            Some(Ok(_)) => {}
            _ if bad < limit / 2 => {
                bad += 1;
                v.push(n.bytes.to_vec());
            }
            _ => {}
        }
        true
    });
    for b in crate::layouts::encodings(r).into_iter().take(limit as usize / 2) {
        v.push([&b[..], &[9]].concat());
        if b.len() > 1 {
            v.push(b[..b.len() - 1].to_vec());
        }
        v.push(b);
    }
    v.sort();
    v.dedup();
    v
}

pub fn c18(ctx: &Ctx) {
    let scratch = Scratch::new(ctx);
    let mut rs: Vec<R> = loose::leaves();
    rs.extend(loose::rules_of_size(2, &loose::leaves()));
    rs.extend(loose::specials());
    rs.extend(loose::UNSUPPORTED.iter().map(|u| R::Tuple(vec![R::Bool, R::Unsupported(u)])));
    rs.extend(loose::rules_of_size(3, if ctx.thorough() { &[R::Bool, R::Int("Int"), R::Str, R::Char] } else { &[R::Int("Int")] }));
    // nested far deeper than JSON readers accept by default
    for depth in if ctx.thorough() { vec![130, 400, 1000] } else { vec![130, 300] } {
        let mut r = R::Int("Int");
        for i in 0..depth {
            r = if i % 2 == 0 { R::Tuple(vec![r]) } else { R::Opt(Box::new(r)) };
        }
        rs.push(r);
    }
    let limit = if ctx.thorough() { 24 } else { 6 };
    ctx.bound(format!("{} layouts; for each the first {limit} accepted, malformed and incomplete inputs of the input tree and encodings of whole values, also shortened and lengthened by a byte; each raw, as lower, upper and mixed case hex, as hex with a newline; all combinations of the options", rs.len()));
    par_for(ctx, rs.len(), |i| {
        let r = &rs[i];
        let dir = scratch.dir(i);
        std::fs::write(dir.join("l"), loose::document(&loose::json(r))).unwrap();
        let _e = ctx.enter(|| loose::show(r));
        for (k, b) in inputs(r, limit).into_iter().enumerate() {
            let lower: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let mixed: String = lower.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            let mut files = vec![b.clone(), lower.clone().into_bytes()];
            if k % 3 == 0 || ctx.thorough() {
                files.extend([lower.to_uppercase().into_bytes(), mixed.into_bytes(), format!("{lower}\n").into_bytes(), format!("0x{lower}").into_bytes(), lower.as_bytes()[..lower.len().saturating_sub(1)].to_vec()]);
            }
            for (j, file) in files.iter().enumerate() {
                let bytes = contents(file);
                let mut c = Cur::new(&bytes);
                let _ = loose::decode(r, &mut c);
                ctx.add(1, c.at as u64 + 1, 0);
                for roundtrip in [false, true] {
                    for out in 0..3u8 {
                        if !ctx.thorough() && out != ((k + j) % 3) as u8 {
                            continue;
                        }
                        one(ctx, &dir, r, file, roundtrip, out, (k + j) % 2 == 1);
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
            if k == 0 && i % 40 == 0 {
                ctx.sample(|| format!("layout {} and file [{}]: {}", loose::show(r), hex(&b), clip(&format!("{:?}", expected(r, &b, false)))));
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // files that are missing or no layouts
    let dir = scratch.dir(usize::MAX);
    let good = loose::document(&loose::json(&R::Bool));
    let docs: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"{}".to_vec()), Some(b"[\"Bool\"]".to_vec()), Some(good.as_bytes()[..good.len() - 1].to_vec()), Some(loose::document("[\"Boole\"]").into_bytes()), Some(vec![0xff, 0xfe])];
    for d in &docs {
        for bin in [Some(&[1u8][..]), None] {
            for out in [false, true] {
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                if let Some(d) = d {
                    std::fs::write(dir.join("l"), d).unwrap();
                }
                if let Some(b) = bin {
                    std::fs::write(dir.join("b"), b).unwrap();
                }
                let mut args = vec!["l", "b"];
                if out {
                    args.extend(["-o", "o"]);
                }
                let got = run("bin-prot-layout-reader", &dir, &args, b"");
                ctx.add(1, 1, 1);
                ctx.outcome("files missing or no layout");
                ctx.check(matches!(got.code, Some(c) if c != 0) && got.out.is_empty() && !dir.join("o").exists(), || format!("layout {:?}, binary {bin:?}: {got:?}, expected a failure", d.as_ref().map(|d| text(d))));
            }
        }
    }
    // an output that cannot be written
    std::fs::write(dir.join("l"), &good).unwrap();
    std::fs::write(dir.join("b"), [1]).unwrap();
    let got = run("bin-prot-layout-reader", &dir, &["l", "b", "-o", "no/such/dir"], b"");
    ctx.add(1, 1, 1);
    ctx.check(matches!(got.code, Some(c) if c != 0) && got.out.is_empty(), || format!("an output file in a missing directory: {got:?}, expected a failure"));
    for args in [&["l", "b", "-o", "/dev/full"][..], &["l", "b", "--roundtrip", "-o", "/dev/full"]] {
        let got = run("bin-prot-layout-reader", &dir, args, b"");
        ctx.add(1, 1, 1);
        ctx.check(matches!(got.code, Some(c) if c != 0), || format!("bin-prot-layout-reader {}, where the output cannot be written: {got:?}, expected a failure", args.join(" ")));
    }
    // inputs that open but cannot be read, with layouts that need a byte or none
    std::fs::create_dir(dir.join("d")).unwrap();
    for (r, args) in [(R::Bool, ["l", "d"]), (R::Tuple(vec![]), ["l", "d"]), (R::Bool, ["d", "b"])] {
        std::fs::write(dir.join("l"), loose::document(&loose::json(&r))).unwrap();
        let got = run("bin-prot-layout-reader", &dir, &args, b"");
        ctx.add(1, 1, 1);
        ctx.check(matches!(got.code, Some(c) if c != 0) && got.out.is_empty(), || format!("bin-prot-layout-reader {}, where d cannot be read: {got:?}, expected a failure", args.join(" ")));
    }
}

// ---------------------------------------------------------------- C19

fn kinds() -> Vec<(&'static str, Ty, Val)> {
    let e: &'static EnumTy = Box::leak(Box::new(EnumTy { names: &["A", "B", "C"], bodies: vec![Body::Unit, Body::Unit, Body::Unit] }));
    let v: &'static EnumTy = Box::leak(Box::new(EnumTy { names: &["A", "B", "C"], bodies: vec![Body::Newtype(Ty::Int(Int::I32)), Body::Newtype(Ty::Bool), Body::Newtype(Ty::Enum(e))] }));
    vec![
        ("nat0", Ty::Seq(Box::new(Ty::Unit)), Val::Seq(vec![Val::Unit])),
        ("bool", Ty::Bool, Val::Bool(true)),
        ("int", Ty::Int(Int::I32), Val::Int(12345)),
        ("int32", Ty::Int(Int::I32), Val::Int(12345)),
        ("int64", Ty::Int(Int::I64), Val::Int(12345)),
        ("enum", Ty::Enum(e), Val::Var(0, vec![])),
        ("record", Ty::Struct(vec![Ty::Int(Int::I32), Ty::Bool, Ty::Enum(e)]), Val::Rec(vec![Val::Int(15), Val::Bool(true), Val::Var(2, vec![])])),
        ("variant", Ty::Enum(v), Val::Var(0, vec![Val::Int(15)])),
    ]
}

fn shown(kind: &str, v: &Val) -> String {
    let name = |i: usize| ["A", "B", "C"][i];
    match (kind, v) {
        ("nat0", Val::Seq(v)) => v.len().to_string(),
        ("bool", Val::Bool(b)) => b.to_string(),
        (_, Val::Int(n)) => n.to_string(),
        ("enum", Val::Var(i, _)) => name(*i).into(),
        ("record", Val::Rec(m)) => match &m[..] {
            [Val::Int(a), Val::Bool(b), Val::Var(c, _)] => format!("S {{ a: {a}, b: {b}, c: {} }}", name(*c)),
            _ => unreachable!(),
        },
        ("variant", Val::Var(i, m)) => match &m[0] {
            Val::Int(a) => format!("{}({a})", name(*i)),
            Val::Bool(a) => format!("{}({a})", name(*i)),
            Val::Var(a, _) => format!("{}({})", name(*i), name(*a)),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

pub fn c19(ctx: &Ctx) {
    let scratch = Scratch::new(ctx);
    let mut jobs: Vec<(&'static str, Ty, Vec<u8>)> = vec![];
    for (kind, ty, default) in kinds() {
        // what is written
        let want = bytes_of(&ty, &default).unwrap();
        let dir = scratch.dir(jobs.len());
        let got = run("bin_prot_checker", &dir, &["--test", kind, "serialize"], b"");
        ctx.add(1, 1, 1);
        ctx.check(got.code == Some(0) && got.out == want, || format!("bin_prot_checker --test {kind} serialize: exit {:?}, wrote [{}], the format prescribes [{}]", got.code, hex(&got.out), hex(&want)));
        for before in [None, Some(vec![7u8; 40])] {
            let _ = std::fs::remove_file(dir.join("f"));
            if let Some(b) = &before {
                std::fs::write(dir.join("f"), b).unwrap();
            }
            let got = run("bin_prot_checker", &dir, &["--test", kind, "--path", "f", "serialize"], b"");
            let file = std::fs::read(dir.join("f")).unwrap_or_default();
            ctx.add(1, 1, 1);
            ctx.check(got.code == Some(0) && file == want && String::from_utf8_lossy(&got.out).contains(&format!("Wrote {} bytes", want.len())), || {
                format!("bin_prot_checker --test {kind} --path f serialize: exit {:?}, {}, file [{}], expected [{}]", got.code, text(&got.out), hex(&file), hex(&want))
            });
        }
        ctx.sample(|| format!("--test {kind} serialize: [{}]", hex(&want)));
        // files that cannot be written or read
        let _ = std::fs::create_dir(dir.join("d"));
        for (path, op) in [("/dev/full", "serialize"), ("no/such/dir", "serialize"), ("d", "serialize"), ("none", "deserialize"), ("d", "deserialize")] {
            let got = run("bin_prot_checker", &dir, &["--test", kind, "--path", path, op], b"");
            ctx.add(1, 1, 1);
            ctx.check(matches!(got.code, Some(c) if c != 0) && !text(&got.out).contains("value") && !text(&got.out).contains("Wrote"), || format!("bin_prot_checker --test {kind} --path {path} {op}: {got:?}, expected a failure"));
        }
        // what is read
        let model = |b: &[u8]| {
            let mut c = Cur::new(b);
            decode(&ty, &mut c).map(|_| c.at)
        };
        let mut set = std::collections::BTreeSet::new();
        walk(&model, if ctx.thorough() { 1 } else { 0 }, 12, if ctx.thorough() { 3000 } else { 500 }, &mut |n| {
            set.insert(n.bytes.to_vec());
            if n.want == Some(Ok(n.bytes.len())) {
                set.insert([n.bytes, &[0xff]].concat());
            }
            true
        });
        // all first bytes, all one-byte values
        set.extend((0..=255u8).map(|b| vec![b]));
        if ctx.thorough() && kind.starts_with("int") {
            set.extend((0..=255u8).flat_map(|a| [0x00u8, 0x7f, 0x80, 0xff].into_iter().flat_map(move |b| [vec![0xfe, a, b], vec![0xfd, a, 0, 0, b], vec![0xfc, a, 0, 0, 0, b, 0, 0, 0], vec![0xff, a]])));
        }
        let want_set: Vec<i128> = vec![0, 1, 127, 128, 32767, 32768, (1 << 31) - 1, 1 << 31, -1, -128, -129, -32768, -32769, -(1 << 31), -(1 << 31) - 1, i64::MAX as i128, i64::MIN as i128];
        if kind.starts_with("int") {
            for n in want_set {
                let mut o = vec![];
                put_int(n, &mut o);
                set.insert(o);
            }
        }
        jobs.extend(set.into_iter().map(|b| (kind, ty.clone(), b)));
    }
    ctx.bound(format!("{} (test, input) pairs from the input trees of the 8 tests, all first bytes and the integers at the width boundaries; each through a file and through standard input", jobs.len()));
    par_for(ctx, jobs.len(), |i| {
        let (kind, ty, b) = &jobs[i];
        let dir = scratch.dir(100 + i);
        std::fs::write(dir.join("f"), b).unwrap();
        let _e = ctx.enter(|| format!("{kind} [{}]", hex(b)));
        let mut c = Cur::new(b);
        let want = decode(ty, &mut c).ok().map(|v| format!("Deserialized value: {}\n", shown(kind, &v)));
        ctx.add(1, c.at as u64 + 1, 0);
        for path in [false, true] {
            let mut args = vec!["--test", kind];
            if path {
                args.extend(["--path", "f"]);
            }
            args.push("deserialize");
            let got = run("bin_prot_checker", &dir, &args, if path { b"" } else { b });
            ctx.add(0, 0, 1);
            let good = match &want {
                Some(w) => got.code == Some(0) && got.out == w.as_bytes(),
                None => matches!(got.code, Some(c) if c != 0) && got.out.is_empty(),
            };
            ctx.outcome(if want.is_some() { "value shown" } else { "refused" });
            ctx.check(good, || format!("bin_prot_checker {} of [{}]: exit {:?}, {}, expected {}", args.join(" "), hex(b), got.code, text(&got.out), want.clone().unwrap_or("a failure that shows no value".into())));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}
