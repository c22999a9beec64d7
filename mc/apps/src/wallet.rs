//! C44: what the apps ask a node to do for the user's account, and what they say it answered.
use crate::gql;
use crate::js::{self, Function, Task};
use mc_core::*;
use reqwest::env::{Reply, Request};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::JsValue;
use Function::*;

const LOCAL: &str = "http://localhost:3085/graphql";

#[derive(Clone, Debug)]
struct Job {
    berkeley: bool,
    f: Function,
    endpoint: String,
    /// the members of the payment, or the arguments
    given: Vec<(&'static str, JsValue)>,
}
/// What has to be asked: None if it has to be refused, and whether it may be refused.
struct Wanted {
    call: Option<gql::Call>,
    refusable: bool,
}
fn text_of(v: &JsValue) -> String {
    // as `String(v)`
    js::run("text", "module.exports.text = v => String(v)", v).expect("String(v)")
}
fn absent(v: &JsValue) -> bool {
    v.is_null() || v.is_undefined()
}
/// The number a value means, if any, and whether it is plainly written.
fn number(v: &JsValue, max: u64) -> (Option<u64>, bool) {
    let t = text_of(v);
    let plain = t == "0" || (!t.is_empty() && !t.starts_with('0') && t.bytes().all(|b| b.is_ascii_digit()));
    // other spellings of whole numbers may be understood or refused
    let n = t.trim().trim_start_matches('+').parse::<u64>().ok().filter(|_| t.bytes().filter(|b| *b == b'+').count() <= 1).filter(|n| *n <= max);
    (n, plain && n.is_some() && (v.is_string() || v.as_f64().is_some() || v.is_bigint()))
}
impl Job {
    fn get(&self, k: &str) -> JsValue {
        self.given.iter().find(|g| g.0 == k).map_or(JsValue::UNDEFINED, |g| g.1.clone())
    }
    fn call(&self) -> Task {
        let mut a = vec![];
        if self.berkeley {
            a.push(JsValue::from(self.endpoint.clone()));
        }
        match self.f {
            Send => a.push(JsValue::record(self.given.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())),
            _ => a.extend(self.given.iter().map(|g| g.1.clone())),
        }
        Task::new(js::call(self.berkeley, self.f, a))
    }
    fn wanted(&self) -> Wanted {
        let text = |k: &str| self.get(k).as_string().unwrap_or_default();
        let mut refusable = false;
        let (kind, field, args, members): (_, _, Value, &[&str]) = match self.f {
            Info => ("query", "account", json!({ "publicKey": text("publicKey") }), &["balance.total", "inferredNonce", "locked"]),
            Lock => ("mutation", "lockAccount", json!({ "input": { "publicKey": text("publicKey") } }), &["account.locked"]),
            Unlock => (
                "mutation",
                "unlockAccount",
                json!({ "input": { "publicKey": text("publicKey"), "password": text("password") } }),
                &["account.locked"],
            ),
            Send => {
                let mut m = Map::new();
                for k in ["to", "from"] {
                    m.insert(k.into(), json!(text(k)));
                }
                for k in ["fee", "amount", "nonce", "validUntil"] {
                    let v = self.get(k);
                    let optional = k == "nonce" || k == "validUntil";
                    if optional && (absent(&v) || v.as_string().map_or(false, |s| s.is_empty())) {
                        continue;
                    }
                    let (n, plain) = number(&v, if optional { u32::MAX as u64 } else { u64::MAX });
                    let Some(n) = n else { return Wanted { call: None, refusable: true } };
                    refusable |= !plain;
                    m.insert(k.into(), json!(n.to_string()));
                }
                let memo = self.get("memo");
                if !absent(&memo) {
                    m.insert("memo".into(), json!(text("memo")));
                }
                ("mutation", "sendPayment", json!({ "input": m }), &["payment.id"])
            }
            _ => unreachable!(),
        };
        Wanted { call: Some(gql::Call { kind: kind.into(), field: field.into(), args, members: members.iter().map(|s| s.to_string()).collect() }), refusable }
    }
}
/// As the node takes it: members that are null are absent, numbers may be texts, and a memo that
/// is empty is none.
fn plain(mut c: gql::Call) -> gql::Call {
    if let Some(m) = c.args.get_mut("input").and_then(|i| i.as_object_mut()) {
        m.retain(|k, v| !v.is_null() && !(k == "memo" && v == ""));
        for k in ["fee", "amount", "nonce", "validUntil"] {
            if let Some(v) = m.get_mut(k).filter(|v| v.is_u64()) {
                *v = json!(v.to_string());
            }
        }
    }
    c.members.sort();
    c
}
fn asks(r: &Request, j: &Job, w: &gql::Call) -> Result<(), String> {
    let url = if j.berkeley { &j.endpoint } else { LOCAL };
    if r.method != "POST" || r.url != url {
        return Err(format!("the request goes to {} {}", r.method, r.url));
    }
    if !r.others.is_empty() {
        return Err(format!("the request has {:?}", r.others));
    }
    let body = r.json.clone().unwrap_or_default();
    let got = plain(gql::read(&body).ok_or_else(|| format!("the node cannot read the request {body}"))?);
    let want = plain(w.clone());
    let members = want.members.iter().all(|m| got.members.contains(m));
    if (&got.kind, &got.field, &got.args) != (&want.kind, &want.field, &want.args) || !members {
        return Err(format!("the node reads {got:?}, which should be {want:?}"));
    }
    Ok(())
}
/// Whether a result is what the reply says.
fn tells(r: &Result<JsValue, JsValue>, reply: &Reply) -> bool {
    match (r, reply) {
        (Ok(v), Reply::Text(_, t)) => match (v.as_string().map(|s| serde_json::from_str::<Value>(&s)), serde_json::from_str::<Value>(t)) {
            (Some(Ok(a)), Ok(b)) => a == b,
            _ => false,
        },
        // what is no JSON is an error, and so is a status that says so
        (Err(_), Reply::Text(status, t)) => *status >= 400 || serde_json::from_str::<Value>(t).is_err(),
        (Err(_), _) => true,
        _ => false,
    }
}
/// Runs some jobs, in every order their steps can come in, with a reply for each.
fn run(ctx: &Ctx, jobs: &[(Job, Reply)], orders: u32) {
    let x = explore(orders, |ch| {
        let seen: Rc<RefCell<Vec<(usize, Request)>>> = Default::default();
        let current = Rc::new(std::cell::Cell::new(0));
        let (s, c) = (seen.clone(), current.clone());
        let replies: Vec<Reply> = jobs.iter().map(|j| j.1.clone()).collect();
        reqwest::env::set(Some(Box::new(move |r| {
            s.borrow_mut().push((c.get(), r));
            replies[c.get()].clone()
        })));
        js::inline(|_, _| {});
        let desc = || format!("{:?}", jobs);
        let out = guarded(&desc, || {
            let mut tasks: Vec<Option<Task>> = jobs.iter().map(|_| None).collect();
            loop {
                let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].as_ref().map_or(true, |t| t.ready())).collect();
                if ready.is_empty() {
                    break;
                }
                let i = ready[if ready.len() > 1 { ch.deviate(ready.len()) } else { 0 }];
                current.set(i);
                tasks[i].get_or_insert_with(|| jobs[i].0.call()).step();
            }
            tasks.into_iter().map(|t| t.unwrap().result).collect::<Vec<_>>()
        });
        reqwest::env::set(None);
        let results = match out {
            Outcome::Done(r) => r,
            Outcome::Panic(e) => {
                ctx.violate(|| format!("{}: panics, which ends the app: {e}", desc()));
                return false;
            }
        };
        let seen = seen.borrow();
        for (i, (job, reply)) in jobs.iter().enumerate() {
            let w = job.wanted();
            let mine: Vec<&Request> = seen.iter().filter(|s| s.0 == i).map(|s| &s.1).collect();
            let bad = match (&w.call, &mine[..], &results[i]) {
                (_, _, None) => Some("it never ends".to_string()),
                (None, [], Some(Err(_))) => None,
                (Some(_), [], Some(Err(_))) if w.refusable => None,
                (Some(c), [r], Some(res)) => asks(r, job, c).err().or_else(|| (!tells(res, reply)).then(|| format!("it gives {res:?} for {reply:?}"))),
                (None, _, r) => Some(format!("it means nothing that can be asked, and {} requests are sent, and it gives {r:?}", mine.len())),
                (Some(_), _, r) => Some(format!("{} requests are sent, and it gives {r:?}", mine.len())),
            };
            ctx.outcome(match (&bad, &w.call, &results[i]) {
                (Some(_), ..) => "violations",
                (_, None, _) => "refused before it is sent",
                (_, _, Some(Ok(_))) => "answers told",
                _ => "failures told",
            });
            if !ctx.check(bad.is_none(), || format!("{job:?}, of {} under way: {}", jobs.len(), bad.unwrap_or_default())) {
                return false;
            }
        }
        ctx.add(1, ch.choices().len() as u64 + results.len() as u64, 1);
        true
    });
    ctx.add(0, x.choices, 0);
}

/// Numbers of every kind and spelling.
fn numbers() -> Vec<JsValue> {
    let mut v: Vec<JsValue> = vec![JsValue::UNDEFINED, JsValue::NULL, true.into(), JsValue::record(vec![])];
    for n in [0.0, -0.0, 1.0, 7.0, 1e9, 4294967295.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 18446744073709549568.0, 18446744073709551616.0] {
        v.push(JsValue::from_f64(n));
    }
    for n in [-1.0, 0.5, 1.5, 1e-7, 1e21, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push(JsValue::from_f64(n));
    }
    let near = ["0", "1", "9", "10", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993"];
    let top = ["9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456"];
    for n in near.iter().chain(&top) {
        v.push(JsValue::big(n));
        v.push((*n).into());
    }
    v.push(JsValue::big("-1"));
    for t in ["", " ", "-0", "-1", "+1", "++1", "+", "-", " 1", "1 ", "\t1\n", "01", "00", "1.0", "1.", ".5", "1e3", "0x10", "0b1", "1_000", "1,000", "1n", "\u{661}", "\u{ff11}", "NaN", "Infinity", "true", "null", "undefined", "\"", "1\"", "1}", "1\", memo: \"x", "1\0"] {
        v.push(t.into());
    }
    v
}
fn replies(thorough: bool) -> Vec<Reply> {
    let mut v = vec![Reply::Refused, Reply::Cut(200), Reply::Cut(500)];
    let texts = [
        r#"{"data":{"sendPayment":{"payment":{"id":"abc"}}}}"#,
        r#"{"data":{"unlockAccount":{"account":{"locked":false}}}}"#,
        r#"{"data":{"account":{"balance":{"total":"18446744073709551615"},"inferredNonce":"7","locked":null}}}"#,
        r#"{"errors":[{"message":"Couldn't send user command: \"no\"","path":["sendPayment"]}],"data":null}"#,
        r#"{"data":{"n":[0,-1,1.5,18446744073709551615,1e10,true,false,null,"","\u00e9\u2028\ud83d\ude00\\\""]}}"#,
        "{}",
        "[]",
        "null",
        "\"\"",
        "0",
        " {\"a\" : 1}\n",
        "",
        " ",
        "<html><body>502 Bad Gateway</body></html>",
        "{\"data\":",
        "{\"data\":{}} x",
        "{'a':1}",
        "\"\\ud800\"",
        "1e400",
        "NaN",
        "undefined",
        "\u{feff}{}",
    ];
    for t in texts {
        for s in [200, 400, 500] {
            if thorough || s == 200 || t.len() < 3 || t.starts_with("<h") || t.contains("errors") {
                v.push(Reply::Text(s, t.into()));
            }
        }
    }
    // every prefix of an answer
    for i in 0..texts[3].len() {
        v.push(Reply::Text(200, texts[3][..i].into()));
    }
    v
}
fn answer() -> Reply {
    Reply::Text(200, r#"{"data":{"x":1}}"#.into())
}
/// All texts of some length of characters that mean something where texts are put together.
fn texts(n: usize) -> Vec<String> {
    let alphabet = ["\"", "\\", "{", "}", "\n", "$", "a", "\u{e9}", "\u{1f600}", "#", "\u{1}", "(", ",", "\r", "u0041", "\u{2028}", "\t", " "];
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    all.push("B62qncQVG8FULDcgM82Yg659yiwESbLWQ39ALVakbCktqtEQwmpRk6n".into());
    all.push("\"}) { account { locked } } lockAccount(input: {publicKey: \"x".into());
    all.push("\\u0022".into());
    all.push("\"\"\"".into());
    all.push("x".repeat(5000));
    all.extend((0..=255u8).map(|c| (c as char).to_string()));
    all.push("\u{0}\u{7f}\u{85}\u{fffd}\u{ffff}\u{10ffff}".into());
    all.sort();
    all.dedup();
    all
}
const APPS: [bool; 2] = [true, false];

pub fn c44(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.assume("reqwest and wasm-bindgen are stand-ins: requests are recorded and answered by the explorer; values of JavaScript are converted as wasm-bindgen documents it");
    ctx.assume("values of a payment are of the types it declares or no values: wasm-bindgen throws for an address or memo that is no text");
    let numbers = numbers();
    js::declare(&numbers);
    let endpoint = || "http://node.example:3085/graphql".to_string();
    let key = "B62qncQVG8FULDcgM82Yg659yiwESbLWQ39ALVakbCktqtEQwmpRk6n";
    let payment = |berkeley: bool, changes: &[(&'static str, JsValue)]| {
        let mut given: Vec<(&'static str, JsValue)> = vec![
            ("to", key.into()),
            ("from", "B62qfrom".into()),
            ("fee", JsValue::from_f64(1000000.0)),
            ("amount", JsValue::big("5")),
        ];
        for c in changes {
            given.retain(|g| g.0 != c.0);
            given.push(c.clone());
        }
        Job { berkeley, f: Send, endpoint: endpoint(), given }
    };
    js::declare(&[JsValue::from_f64(1000000.0), JsValue::big("5")]);
    // every change of one or two (three) members of a payment
    let texts1 = texts(1);
    let texts2 = texts(if deep { 4 } else { 3 });
    let some = |v: &[String]| v.iter().map(|s| JsValue::from(s.clone())).collect::<Vec<_>>();
    let mut memos = some(&texts1);
    memos.extend([JsValue::NULL, JsValue::UNDEFINED]);
    let universe: Vec<(&'static str, Vec<JsValue>)> = vec![
        ("fee", numbers.clone()),
        ("amount", numbers.clone()),
        ("nonce", numbers.clone()),
        ("validUntil", numbers.clone()),
        ("memo", memos),
        ("to", some(&texts1)),
        ("from", some(&texts1)),
    ];
    let mut work: Vec<(usize, usize, usize)> = vec![];
    for a in 0..universe.len() {
        for b in a + 1..universe.len() {
            work.extend((0..universe[a].1.len()).map(|i| (a, b, i)));
        }
    }
    par_for(ctx, work.len(), |w| {
        let (a, b, i) = work[w];
        let first = (universe[a].0, universe[a].1[i].clone());
        for berkeley in APPS {
            for second in &universe[b].1 {
                run(ctx, &[(payment(berkeley, &[first.clone(), (universe[b].0, second.clone())]), answer())], 0);
            }
            // a third member, in fewer values
            if deep || w % 97 == 0 {
                for c in b + 1..universe.len() {
                    for y in universe[b].1.iter().step_by(5) {
                        for z in universe[c].1.iter().step_by(7) {
                            run(ctx, &[(payment(berkeley, &[first.clone(), (universe[b].0, y.clone()), (universe[c].0, z.clone())]), answer())], 0);
                        }
                    }
                }
            }
        }
    });
    ctx.bound(format!("payments in which any one or two members have any of {} numbers in every spelling or {} texts", numbers.len(), texts1.len()));
    // every text, in every argument that is one
    par_for(ctx, texts2.len(), |i| {
        let t = JsValue::from(texts2[i].clone());
        for berkeley in APPS {
            let job = |f, given| Job { berkeley, f, endpoint: endpoint(), given };
            for k in ["to", "from", "memo"] {
                run(ctx, &[(payment(berkeley, &[(k, t.clone())]), answer())], 0);
            }
            run(ctx, &[(job(Lock, vec![("publicKey", t.clone())]), answer())], 0);
            run(ctx, &[(job(Unlock, vec![("publicKey", t.clone()), ("password", "p".into())]), answer())], 0);
            run(ctx, &[(job(Unlock, vec![("publicKey", key.into()), ("password", t.clone())]), answer())], 0);
            if !berkeley {
                run(ctx, &[(job(Info, vec![("publicKey", t.clone())]), answer())], 0);
            }
            for u in texts1.iter().step_by(3).filter(|_| i % 16 == 0) {
                run(ctx, &[(job(Unlock, vec![("publicKey", u.clone().into()), ("password", t.clone())]), answer())], 0);
            }
        }
    });
    ctx.bound(format!("{} texts, all of up to {} of 18 characters among them, as each argument that is a text", texts2.len(), if deep { 4 } else { 3 }));
    // every reply to every function, alone and while another is under way
    let replies = replies(deep);
    let job = |berkeley: bool, f: Function, n: usize| match f {
        Send => payment(berkeley, &[("amount", JsValue::from_f64([1.0, 7.0][n])), ("memo", ["first", "second"][n].into())]),
        _ => {
            let mut given = vec![("publicKey", JsValue::from(["key1", "key2"][n]))];
            if f == Unlock {
                given.push(("password", ["password1", "password2"][n].into()));
            }
            Job { berkeley, f, endpoint: [endpoint(), "http://other.example/graphql".into()][n].clone(), given }
        }
    };
    let mut functions: Vec<(bool, Function)> = vec![];
    for berkeley in APPS {
        functions.extend([Send, Lock, Unlock].map(|f| (berkeley, f)));
    }
    functions.push((false, Info));
    par_for(ctx, functions.len() * replies.len(), |i| {
        let ((berkeley, f), reply) = (functions[i / replies.len()], &replies[i % replies.len()]);
        run(ctx, &[(job(berkeley, f, 0), reply.clone())], 0);
        ctx.sample(|| format!("{f:?} of {} answered by {reply:?}", if berkeley { "mina-berkeley" } else { "mvp" }));
        for (b2, g) in &functions {
            for other in [answer(), Reply::Refused] {
                run(ctx, &[(job(berkeley, f, 0), reply.clone()), (job(*b2, *g, 1), other)], if deep || i % replies.len() < 6 { 99 } else { 1 });
            }
        }
        if i % replies.len() < 4 {
            for (b2, g) in &functions {
                let three = [(job(berkeley, f, 0), reply.clone()), (job(*b2, *g, 1), answer()), (job(berkeley, Lock, 1), Reply::Refused)];
                run(ctx, &three, if deep { 6 } else { 3 });
            }
        }
    });
    ctx.bound(format!("{} replies to each of {} functions, alone and in every order of the steps of two (quick: for six replies, one departure for others), {} departures for three", replies.len(), functions.len(), if deep { 6 } else { 3 }));
}
