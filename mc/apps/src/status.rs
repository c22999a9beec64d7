//! C45: what an app that is connected to the proxy makes of what it is sent.
use crate::js::{self, Function, Task};
use js_sys::Uint8Array;
use libp2p::env::{Read, World};
use mc_core::*;
use protobuf::{Field, Message};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::env::Value as Arg;
use wasm_bindgen::JsValue;

/// The status of a peer, as the page is told of it.
#[derive(Clone, Debug, Default, PartialEq)]
struct Status {
    connected: bool,
    peer_id: String,
    sync_status: String,
    protocol_state_hash: String,
    git_commit: String,
    uptime_minutes: i64,
}
impl Message for Status {
    fn fields(&mut self) -> Vec<(u32, Field<'_>)> {
        vec![
            (1, Field::Bool(&mut self.connected)),
            (2, Field::Text(&mut self.peer_id)),
            (3, Field::Text(&mut self.sync_status)),
            (4, Field::Text(&mut self.protocol_state_hash)),
            (5, Field::Text(&mut self.git_commit)),
            (6, Field::Int(&mut self.uptime_minutes)),
        ]
    }
}
impl Status {
    fn json(&self) -> String {
        serde_json::json!({
            "connected": self.connected, "peer_id": self.peer_id, "sync_status": self.sync_status,
            "protocol_state_hash": self.protocol_state_hash, "git_commit": self.git_commit, "uptime_minutes": self.uptime_minutes,
        })
        .to_string()
    }
}
#[derive(Clone, Default)]
struct Request {
    address: String,
}
impl Message for Request {
    fn fields(&mut self) -> Vec<(u32, Field<'_>)> {
        vec![(1, Field::Text(&mut self.address))]
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Answer {
    success: bool,
    error_message: String,
}
impl Message for Answer {
    fn fields(&mut self) -> Vec<(u32, Field<'_>)> {
        vec![(1, Field::Bool(&mut self.success)), (2, Field::Text(&mut self.error_message))]
    }
}
fn base64(b: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = c.iter().fold(0u32, |n, x| n << 8 | *x as u32) << (8 * (3 - c.len()));
        for i in 0..4 {
            out.push(if i <= c.len() { a[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' })
        }
    }
    out
}
/// A line that is sent, and the status it tells.
#[derive(Clone, Debug)]
struct Line(Vec<u8>, Option<Status>);

fn statuses() -> Vec<Status> {
    let s = |c, p: &str, s: &str, h: &str, g: &str, u| Status {
        connected: c,
        peer_id: p.into(),
        sync_status: s.into(),
        protocol_state_hash: h.into(),
        git_commit: g.into(),
        uptime_minutes: u,
    };
    vec![
        s(true, "p", "SYNCED", "h", "g", 7),
        s(false, "q", "h", "g", "SYNCED", -1),
        s(true, "", "", "", "", 0),
        s(false, "\u{e9}\u{1f600}\"\\\n", "a\r\nb", "\u{0}", &"x".repeat(300), i64::MAX),
        s(true, "1", "2", "3", "4", i64::MIN),
        s(true, "5", "6", "7", "8", 1 << 32),
    ]
}
fn lines() -> Vec<Line> {
    let s = statuses();
    let told = |i: usize| Line(base64(s[i].json().as_bytes()).into_bytes(), Some(s[i].clone()));
    let other = |t: &str| Line(t.into(), None);
    let json = |t: &str| Line(base64(t.as_bytes()).into_bytes(), None);
    let mut v: Vec<Line> = (0..s.len()).map(told).collect();
    let mut padded = told(0);
    padded.0 = [b" \t", &padded.0[..], b" \r"].concat();
    v.push(padded);
    v.push(Line(base64(s[1].json().replace('{', " {\"more\": [1], ").as_bytes()).into_bytes(), Some(s[1].clone())));
    v.extend(["", " ", "\r", "no base64!", "====", "AAA", "{}"].map(other));
    // without base64, with a member missing or of another kind, cut, and more than one
    v.push(other(&s[0].json()));
    v.push(json(&s[0].json().replace("\"peer_id\"", "\"peer\"")));
    v.push(json(&s[0].json().replace(":7", ":\"7\"")));
    v.push(json(&s[0].json().replace(":7", ":7.5")));
    v.push(json(&s[0].json().replace(":7", ":9223372036854775808")));
    v.push(json(&s[0].json().replace("true", "null")));
    let j = s[0].json();
    v.push(json(&j[..j.len() - 1]));
    v.push(json(&format!("{j}{j}")));
    v.push(json("null"));
    v.push(Line(base64(&[0xff, 0xfe, 0x00]).into_bytes(), None));
    // longer than the buffer
    v.push(other(&"A".repeat(8190)));
    v
}

struct Case<'a> {
    lines: Vec<&'a Line>,
    /// whether the last line has its end
    ended: bool,
    end: Read,
    address: &'a str,
    emitter: bool,
}
/// One connection: what is sent is cut as `ch` says.
fn connection(ctx: &Ctx, c: &Case, ch: &mut Chooser, cuts: bool) -> bool {
    let mut bytes: Vec<u8> = vec![];
    for (i, l) in c.lines.iter().enumerate() {
        bytes.extend(&l.0);
        if c.ended || i + 1 < c.lines.len() {
            bytes.push(b'\n')
        }
    }
    let mut reads = vec![];
    if cuts {
        // at every place that can matter: near the ends of the lines, and in their middle
        let mut at = 0;
        for i in 1..bytes.len() {
            let near = (i.saturating_sub(2)..=i + 1).any(|k| bytes.get(k) == Some(&b'\n')) || i + 2 > bytes.len() || i % 64 == 0 || i % 8192 < 2;
            if near {
                match ch.deviate(3) {
                    0 => {}
                    how => {
                        reads.push(Read::Bytes(bytes[at..i].to_vec()));
                        at = i;
                        if how == 2 {
                            reads.push(Read::Later)
                        }
                    }
                }
            }
        }
        reads.push(Read::Bytes(bytes[at..].to_vec()));
    } else {
        reads.push(Read::Bytes(bytes.clone()));
    }
    reads.retain(|r| *r != Read::Bytes(vec![]));
    reads.push(c.end.clone());
    let desc = || format!("the proxy sends {:?} and then {:?}", String::from_utf8_lossy(&bytes).chars().take(300).collect::<String>(), c.end);
    let mut expected: Vec<Status> = c.lines.iter().filter_map(|l| l.1.clone()).collect();
    if !c.ended && c.end != Read::End && c.lines.last().map_or(false, |l| l.1.is_some()) {
        // the connection is lost within the line
        expected.pop();
    }
    if !c.emitter {
        expected.clear();
    }
    let told: Rc<RefCell<Vec<Result<Status, String>>>> = Default::default();
    let t = told.clone();
    js::inline(move |name, args| {
        let r = match (name, args) {
            ("emit", [Arg::Js(_), Arg::Text(event), Arg::Js(v)]) if event == "update" => match v.object::<Uint8Array>() {
                Some(b) => Status::parse_from_bytes(&b.to_vec()).map_err(|e| e.0),
                None => Err(format!("{v:?}")),
            },
            ("log" | "append_log_record", _) => return,
            _ => Err(format!("{name}({args:?})")),
        };
        t.borrow_mut().push(r)
    });
    libp2p::env::set(World { streams: vec![reads.clone()], ..Default::default() });
    let request = Request { address: c.address.into() }.write_to_bytes().unwrap();
    let out = guarded(&desc, || Task::new(js::call(false, Function::Connect, vec![Uint8Array::from(&request[..]).into()])).run());
    let w = libp2p::env::with(std::mem::take);
    let told: Vec<_> = told.borrow().clone();
    let expected: Vec<Result<Status, String>> = expected.into_iter().map(Ok).collect();
    let seen: Vec<&str> = w.seen.iter().map(|s| s.as_str()).collect();
    let dial = format!("dial {}", c.address);
    let first = ["transport of mainnet", &dial, "request to peer7 by /mina-proxy/node-status", "close"];
    let ends = matches!(&seen[..], [a @ .., b, "idle"] if a == first && (*b == "response" || b.starts_with("failed")));
    let bad = match out {
        Outcome::Panic(e) => Some(format!("panics: {e}")),
        Outcome::Done(_) if told != expected => Some(format!("the page is told {told:?}, and should be {expected:?}")),
        Outcome::Done(Some(Err(e))) => Some(format!("connecting gives the error {e:?}")),
        Outcome::Done(_) if !ends => Some(format!("what is done is {seen:?}")),
        Outcome::Done(_) => None,
    };
    ctx.outcomes_n("statuses told", told.len() as u64);
    ctx.outcome(if w.seen.iter().any(|s| s == "response") { "connections ended" } else { "connections lost" });
    ctx.add(1, reads.len() as u64, 1);
    ctx.check(bad.is_none(), || format!("{} ({} reads): {}", desc(), reads.len(), bad.unwrap_or_default()))
}
const ADDRESS: &str = "/ip4/127.0.0.1/tcp/23333/ws/p2p/12D3KooW";

/// Requests to connect that are malformed or cannot be met, and those that can.
fn requests(ctx: &Ctx) {
    let good = Request { address: ADDRESS.into() }.write_to_bytes().unwrap();
    let mut all: Vec<Vec<u8>> = vec![good.clone(), vec![]];
    all.extend((0..good.len()).map(|i| good[..i].to_vec()));
    for i in 0..good.len() {
        for b in 0..=255 {
            let mut g = good.clone();
            g[i] = b;
            all.push(g);
        }
    }
    for a in ["", "/", "//", "127.0.0.1", "/ip4/127.0.0.1/tcp/65536", "/ip4/127.0.0.1/tcp", "/ip4/127.0.0.1/tcp/1/ws", "/dns4/a.example/tcp/443/wss", "\u{e9}", "/udp/1", "x/tcp/1"] {
        all.push(Request { address: a.into() }.write_to_bytes().unwrap());
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            all.push(vec![a, b]);
            all.push(vec![a, b, b'/', b't']);
        }
    }
    par_for(ctx, all.len(), |i| {
        js::inline(|_, _| {});
        let bytes = &all[i];
        let address = Request::parse_from_bytes(bytes).ok().map(|r| r.address).filter(|a| a.parse::<libp2p::Multiaddr>().is_ok());
        for (build_fails, dial_fails) in [(false, false), (false, true), (true, false)] {
            libp2p::env::set(World { build_fails, dial_fails, ..Default::default() });
            let desc = || format!("a request to connect of {bytes:?}, building fails: {build_fails}, dialling fails: {dial_fails}");
            let out = guarded(&desc, || Task::new(js::call(false, Function::Connect, vec![Uint8Array::from(&bytes[..]).into()])).run());
            let w = libp2p::env::with(std::mem::take);
            let dialled: Vec<&str> = w.seen.iter().filter_map(|s| s.strip_prefix("dial ")).collect();
            let want: Vec<&str> = address.iter().filter(|_| !build_fails).map(|a| a.as_str()).collect();
            let answer = |v: &JsValue| v.object::<Uint8Array>().and_then(|b| Answer::parse_from_bytes(&b.to_vec()).ok());
            let ok = match (&out, &address) {
                (Outcome::Panic(_), _) => false,
                // no success is claimed, by an error or by an answer
                (Outcome::Done(r), a) if a.is_none() || build_fails || dial_fails => match r {
                    Some(Err(_)) => true,
                    Some(Ok(v)) => answer(v).map_or(false, |a| !a.success && !a.error_message.is_empty()),
                    None => false,
                },
                (Outcome::Done(None), _) => true,
                (Outcome::Done(Some(Ok(v))), _) => answer(v).map_or(false, |a| a.success),
                _ => false,
            };
            let told = match &out {
                Outcome::Panic(e) => format!("panics: {e}"),
                Outcome::Done(Some(Ok(v))) => format!("gives {:?}", answer(v)),
                Outcome::Done(r) => format!("gives {r:?}"),
            };
            ctx.check(ok && dialled == want, || format!("{}: {told}, and dials {dialled:?}", desc()));
            ctx.outcome(if dialled.is_empty() { "requests refused" } else { "requests dialled" });
            ctx.add(1, 1, 1);
        }
    });
    ctx.bound(format!("{} requests to connect, each also with a transport or dialling that fails", all.len()));
}

pub fn c45(ctx: &Ctx) {
    ctx.assume("libp2p and protobuf are stand-ins: a connection is made at once, and a stream gives what the explorer says, in the pieces it says; addresses are of the common protocols");
    let lines = lines();
    requests(ctx);
    // without a page to tell, which is so only at first
    for l in &lines {
        explore(0, |ch| connection(ctx, &Case { lines: vec![l], ended: true, end: Read::End, address: ADDRESS, emitter: false }, ch, false));
    }
    let _ = Task::new(js::call(false, Function::SetEmitter, vec![JsValue::record(vec![])])).run();
    let n = lines.len();
    let most = if ctx.thorough() { 4 } else { 3 };
    // sequences of lines
    par_for(ctx, n * n, |i| {
        let mut all: Vec<Vec<usize>> = vec![vec![i / n, i % n]];
        let mut last = all.clone();
        for _ in 2..most {
            last = last.iter().flat_map(|s| (0..n).map(move |k| [&s[..], &[k]].concat())).collect();
            all.extend(last.iter().cloned());
        }
        if i / n == 0 {
            all.push(vec![i % n]);
        }
        if i == 0 {
            all.push(vec![]);
        }
        for s in all {
            let chosen: Vec<&Line> = s.iter().map(|i| &lines[*i]).collect();
            for ended in [true, false] {
                for end in [Read::End, Read::Fails] {
                    let c = Case { lines: chosen.clone(), ended, end, address: ADDRESS, emitter: true };
                    explore(0, |ch| connection(ctx, &c, ch, false));
                }
            }
        }
    });
    ctx.bound(format!("all sequences of up to {most} of {n} lines, the last with its end or without, then the end of the stream or its loss"));
    // in pieces
    let cuts = if ctx.thorough() { 3 } else { 2 };
    par_for(ctx, n * n, |i| {
        let chosen = vec![&lines[i / n], &lines[i % n]];
        ctx.sample(|| format!("{:?}", chosen.iter().map(|l| String::from_utf8_lossy(&l.0[..l.0.len().min(60)]).to_string()).collect::<Vec<_>>()));
        for ended in [true, false] {
            for end in [Read::End, Read::Fails] {
                let c = Case { lines: chosen.clone(), ended, end, address: ADDRESS, emitter: true };
                let x = explore(if chosen.iter().any(|l| l.0.len() > 1000) { 1 } else { cuts }, |ch| connection(ctx, &c, ch, true));
                ctx.add(0, x.choices, 0);
            }
        }
    });
    ctx.bound(format!("all pairs of lines, cut at up to {cuts} of the places near the ends of lines and every 64 bytes, the next piece at once or later"));
}
