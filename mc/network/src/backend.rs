//! C42: the backends that ask GraphQL nodes, whatever the nodes answer.
use mc_core::*;
use mina_network::processor::js::graphql_api_berkeley::*;
use mina_network::processor::js::graphql_api_v1::*;
use mina_network::processor::*;
use mina_serialization_types::json::ExternalTransitionJson;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake};
use tokio::sync::mpsc;
use wasm_bindgen::env::Value as Arg;
use wasm_bindgen::prelude::JsValue;

type Answer = Result<JsValue, JsValue>;
#[derive(Clone, Debug, PartialEq)]
struct Called(String, Vec<Arg>);

/// What is not the answer asked for: name, and the answer.
fn failures() -> Vec<(&'static str, Answer)> {
    let t = |s: &str| Ok(JsValue::from_str(s));
    vec![
        ("an error", Err(JsValue::from_str("no connection"))),
        ("an error without a text", Err(JsValue::undefined())),
        ("undefined", Ok(JsValue::undefined())),
        ("null", Ok(JsValue::null())),
        ("a number", Ok(JsValue::from_f64(3.0))),
        ("an empty text", t("")),
        ("a text that is no JSON", t("<html>404</html>")),
        ("JSON that is cut", t("[{\"blockHeight\": 1, ")),
        ("JSON and more", t("[] []")),
    ]
}

struct Woken(AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}

/// How what is delivered gets taken: at once, only when nothing else can happen, or not after a
/// number of blocks, when the channel is closed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Taker {
    AtOnce,
    Late,
    Closes(usize),
}
const TAKERS: [Taker; 5] = [Taker::AtOnce, Taker::Late, Taker::Closes(0), Taker::Closes(1), Taker::Closes(2)];

/// Runs a future to its end, and gives what it comes to; None if it never ends.
fn drive<T, B>(f: impl Future<Output = T>, rx: &mut Option<mpsc::Receiver<B>>, taker: Taker, out: &mut Vec<B>) -> Option<T> {
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    let woken = Arc::new(Woken(AtomicBool::new(true)));
    let waker = woken.clone().into();
    let mut ended = None;
    for _ in 0..1000 {
        let mut moved = false;
        if woken.0.swap(false, Relaxed) && ended.is_none() {
            moved = true;
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                ended = Some(r);
            }
        }
        if taker == Taker::Late && moved && ended.is_none() {
            continue;
        }
        if let Taker::Closes(n) = taker {
            if out.len() >= n {
                *rx = None;
            }
        }
        if let Some(rx) = rx.as_mut() {
            if let Ok(b) = rx.try_recv() {
                out.push(b);
                continue;
            }
        }
        if !moved {
            break;
        }
    }
    ended
}

/// Answers the calls by a function, and keeps them.
fn environment(answer: impl Fn(&Called) -> Answer + 'static) -> Rc<RefCell<Vec<Called>>> {
    let calls: Rc<RefCell<Vec<Called>>> = Default::default();
    let c = calls.clone();
    wasm_bindgen::env::set(Some(Box::new(move |name, args| {
        let call = Called(name.into(), args);
        let r = answer(&call);
        c.borrow_mut().push(call);
        r
    })));
    calls
}

fn block_text(i: usize) -> String {
    use mina_consensus::genesis::*;
    use mina_rs_base::types::ExternalTransition;
    let mut b = ExternalTransition::from_genesis_config(&MAINNET_CONFIG);
    b.protocol_state.body.consensus_state.blockchain_length.0 = 1000 + i as u32;
    let j: ExternalTransitionJson = b.into();
    serde_json::to_string(&j).expect("block")
}
/// The height of a block, if the rest of it is that of `block_text`.
fn number(b: &ExternalTransitionJson, texts: &[String]) -> Option<usize> {
    let t = serde_json::to_string(b).ok()?;
    texts.iter().position(|x| *x == t)
}

const HASHES: [&str; 4] = ["3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZ", "3NLoKn22eMnyQ7rxh5pxB6vBA3XhSAhhrf7akdqS6HbAKD14Dh1d", "\" } { 0\u{0}é", "3NLQanLUpZLAbkciDnUs6bQGkgg48UqatpZxShHuLWSudG4M9iyn"];
// the last block has the height of the first
const HEIGHTS: [u64; 4] = [25718, 0, u32::MAX as u64, 25718];

fn fetch(i: usize) -> Called {
    Called("fetch_block_json_str".into(), vec![Arg::Number(HEIGHTS[i]), Arg::Text(HASHES[i].into())])
}

fn v1(ctx: &Ctx) {
    let texts: Rc<Vec<String>> = Rc::new((0..4).map(block_text).collect());
    let mut outcomes: Vec<(&'static str, Option<Answer>)> = vec![("the block", None)];
    outcomes.extend(failures().into_iter().map(|(n, a)| (n, Some(a))));
    outcomes.push(("a block that is cut", Some(Ok(JsValue::from_str(&texts[0][..texts[0].len() - 1])))));
    outcomes.push(("an empty object", Some(Ok(JsValue::from_str("{}")))));
    let outcomes = Rc::new(outcomes);
    // one fetch and one request for each block and outcome
    for i in 0..4 {
        for (k, (name, _)) in outcomes.iter().enumerate() {
            let answers = |texts: &Rc<Vec<String>>, outcomes: &Rc<Vec<(&'static str, Option<Answer>)>>| {
                let (t, o) = (texts.clone(), outcomes.clone());
                environment(move |_| o[k].1.clone().unwrap_or_else(|| Ok(JsValue::from_str(&t[i]))))
            };
            let Called(_, args) = fetch(i);
            let (height, hash) = match &args[..] {
                [Arg::Number(n), Arg::Text(h)] => (*n as usize, h.clone()),
                _ => unreachable!(),
            };
            let say = || format!("fetching block {height} {hash:?}, which gives {name}");
            let calls = answers(&texts, &outcomes);
            let got = guarded(&say, || drive(fetch_block(height, &hash), &mut None::<mpsc::Receiver<()>>, Taker::AtOnce, &mut vec![]).map(|r| r.ok().and_then(|b| number(&b, &texts))));
            ctx.add(1, 1, 1);
            ctx.check(matches!(&got, Outcome::Done(Some(n)) if *n == (k == 0).then_some(i)) && *calls.borrow() == [fetch(i)], || format!("{}: {got:?}, calls {:?}", say(), calls.borrow()));
            for taker in TAKERS {
                for listens in [true, false] {
                    let calls = answers(&texts, &outcomes);
                    let (tx, rx) = mpsc::channel(1);
                    let (mut rx, mut out) = (Some(rx), vec![]);
                    let say = || format!("a request for block {height} {hash:?}, which gives {name}; {taker:?}, responder set: {listens}");
                    let got = guarded(&say, || {
                        let mut b = NonConsensusGraphQLV1Backend::new();
                        if listens {
                            b.set_block_responder(tx);
                        }
                        drive(b.query_block(&QueryBlockRequest { height, state_hash: hash.clone() }), &mut rx, taker, &mut out).map(|r| r.is_ok())
                    });
                    let out: Vec<Option<usize>> = out.iter().map(|b| number(b, &texts)).collect();
                    let closed = taker == Taker::Closes(0);
                    ctx.add(1, 2, 1);
                    if !listens {
                        ctx.outcome("nobody listens");
                        ctx.check(matches!(got, Outcome::Done(Some(_))) && out.is_empty() && calls.borrow().iter().all(|c| *c == fetch(i)), || format!("{}: {got:?}, calls {:?}", say(), calls.borrow()));
                        continue;
                    }
                    // a channel that closes as the block is sent may still have taken it
                    let ok = match &got {
                        Outcome::Done(Some(r)) => *calls.borrow() == [fetch(i)] && if k != 0 { !r && out.is_empty() } else if closed { out.is_empty() } else { *r && out == [Some(i)] },
                        _ => false,
                    };
                    ctx.outcome(if k != 0 { "a request fails" } else { "a request is served" });
                    ctx.check(ok, || format!("{}: {got:?}, delivered {out:?}, calls {:?}", say(), calls.borrow()));
                }
            }
        }
    }
    // requests and polls one after the other, with a queue for one block that is taken from late
    let steps = [None, Some(0), Some(1), Some(2)];
    for n in 1..=3u32 {
        for code in 0..steps.len().pow(n) {
            let seq: Vec<Option<usize>> = (0..n).map(|k| steps[code / steps.len().pow(k) % steps.len()]).collect();
            for failing in 0..8usize {
                for taker in [Taker::AtOnce, Taker::Late] {
                    let list = json!([{"blockHeight": 25718, "stateHash": HASHES[0]}, {"blockHeight": 0, "stateHash": HASHES[1]}]).to_string();
                    let t = texts.clone();
                    let _calls = environment(move |c| {
                        if c.0 == "query_latest_blocks_json_str" {
                            return Ok(JsValue::from_str(&list));
                        }
                        match (0..3).find(|i| fetch(*i) == *c) {
                            Some(i) if failing >> i & 1 == 0 => Ok(JsValue::from_str(&t[i])),
                            _ => Err(JsValue::from_str("no connection")),
                        }
                    });
                    let (tx, rx) = mpsc::channel(1);
                    let (mut rx, mut out) = (Some(rx), vec![]);
                    let say = || format!("polls (None) and requests {seq:?}, fetching fails for the blocks in {failing:03b}; {taker:?}");
                    let got = guarded(&say, || {
                        let mut b = NonConsensusGraphQLV1Backend::new();
                        b.set_block_responder(tx);
                        let all = async {
                            let mut results = vec![];
                            for s in &seq {
                                results.push(match s {
                                    None => b.poll_latest_once().await.is_ok(),
                                    Some(i) => b.query_block(&QueryBlockRequest { height: HEIGHTS[*i] as usize, state_hash: HASHES[*i].into() }).await.is_ok(),
                                });
                            }
                            results
                        };
                        drive(all, &mut rx, taker, &mut out)
                    });
                    let out: Vec<Option<usize>> = out.iter().map(|b| number(b, &texts)).collect();
                    let comes = |i: &usize| failing >> i & 1 == 0;
                    let want: Vec<Option<usize>> = seq.iter().flat_map(|s| s.map_or(vec![0, 1], |i| vec![i])).filter(comes).map(Some).collect();
                    let results: Vec<bool> = seq.iter().map(|s| s.map_or(true, |i| comes(&i))).collect();
                    ctx.add(1, n as u64, 1);
                    ctx.outcome("requests and polls in a row");
                    ctx.check(out == want && got == Outcome::Done(Some(results)), || format!("{}: {got:?}, delivered {out:?}, expected {want:?}", say()));
                }
            }
        }
    }
    // polls: what the list says, and what each fetch gives
    let entry = |i: usize| match &fetch(i).1[..] {
        [Arg::Number(n), Arg::Text(h)] => json!({"blockHeight": n, "stateHash": h}),
        _ => unreachable!(),
    };
    let mut lists: Vec<(String, Answer, Option<Vec<usize>>)> = failures().into_iter().map(|(n, a)| (n.to_string(), a, None)).collect();
    let text = |v: Value| Ok(JsValue::from_str(&v.to_string()));
    for ix in [vec![], vec![0], vec![1], vec![2], vec![0, 1], vec![1, 0], vec![0, 3], vec![2, 1, 0], vec![1, 2, 0], vec![3, 0, 1], vec![1, 0, 3]] {
        lists.push((format!("the list {ix:?}"), text(ix.iter().map(|i| entry(*i)).collect()), Some(ix.clone())));
        let more: Vec<Value> = ix.iter().map(|i| { let mut v = entry(*i); v["snarkFees"] = json!("0"); v }).collect();
        lists.push((format!("the list {ix:?} with other members"), text(more.into()), Some(ix)));
    }
    for (name, bad) in [("null", json!(null)), ("an object", json!({"blocks": [entry(0)]})), ("a text", json!("x")), ("a block without height", json!([entry(1), {"stateHash": "x"}])), ("a block without hash", json!([{"blockHeight": 1}])), ("a height that is text", json!([{"blockHeight": "1", "stateHash": "x"}])), ("a height below 0", json!([{"blockHeight": -1, "stateHash": "x"}])), ("a height that is no integer", json!([{"blockHeight": 1.5, "stateHash": "x"}])), ("a hash that is null", json!([entry(0), {"blockHeight": 1, "stateHash": null}]))] {
        lists.push((name.into(), text(bad), None));
    }
    let few: Vec<usize> = if ctx.thorough() { (0..outcomes.len()).collect() } else { vec![0, 1, 3, 7, 10] };
    for (name, list, want) in &lists {
        let n = want.as_ref().map_or(0, |w| w.len());
        for limit in [0usize, 1, 10, u32::MAX as usize] {
            let l = list.clone();
            let calls = environment(move |_| l.clone());
            let say = || format!("asking for {limit} blocks, which gives {name}");
            let got = guarded(&say, || drive(query_latest_blocks(limit), &mut None::<mpsc::Receiver<()>>, Taker::AtOnce, &mut vec![]).map(|r| r.ok().map(|v| v.into_iter().map(|b| Called("fetch_block_json_str".into(), vec![Arg::Number(b.block_height as u64), Arg::Text(b.state_hash)])).collect::<Vec<_>>())));
            let want: Option<Vec<Called>> = want.as_ref().map(|w| w.iter().map(|i| fetch(*i)).collect());
            ctx.add(1, 1, 1);
            ctx.check(matches!(&got, Outcome::Done(Some(g)) if *g == want) && *calls.borrow() == [Called("query_latest_blocks_json_str".into(), vec![Arg::Number(limit as u64)])], || format!("{}: {got:?}, calls {:?}", say(), calls.borrow()));
        }
        for code in 0..few.len().pow(n as u32) {
            let kinds: Vec<usize> = (0..n).map(|k| few[code / few.len().pow(k as u32) % few.len()]).collect();
            for taker in TAKERS {
                let (t, o, l, w, ks) = (texts.clone(), outcomes.clone(), list.clone(), want.clone().unwrap_or_default(), kinds.clone());
                let calls = environment(move |c| {
                    if c.0 == "query_latest_blocks_json_str" {
                        return l.clone();
                    }
                    match w.iter().position(|i| fetch(*i) == *c) {
                        Some(k) => o[ks[k]].1.clone().unwrap_or_else(|| Ok(JsValue::from_str(&t[w[k]]))),
                        None => Err(JsValue::from_str("a block that was not listed")),
                    }
                });
                let (tx, rx) = mpsc::channel(1);
                let (mut rx, mut out) = (Some(rx), vec![]);
                let say = || format!("polling, the list is {name}, the blocks give {:?}; {taker:?}", kinds.iter().map(|k| outcomes[*k].0).collect::<Vec<_>>());
                let got = guarded(&say, || {
                    let mut b = NonConsensusGraphQLV1Backend::new();
                    b.set_block_responder(tx);
                    drive(b.poll_latest_once(), &mut rx, taker, &mut out).map(|r| r.is_ok())
                });
                let out: Vec<Option<usize>> = out.iter().map(|b| number(b, &texts)).collect();
                let calls = calls.borrow();
                let listed = calls.iter().filter(|c| c.0 == "query_latest_blocks_json_str" && c.1 == [Arg::Number(10)]).count();
                let fetched: Vec<&Called> = calls.iter().filter(|c| c.0 != "query_latest_blocks_json_str").collect();
                let wanted: Vec<Called> = want.iter().flatten().map(|i| fetch(*i)).collect();
                let good: Vec<Option<usize>> = want.iter().flatten().zip(&kinds).filter(|(_, k)| **k == 0).map(|(i, _)| Some(*i)).collect();
                ctx.add(1, 1 + n as u64, 1);
                let ok = match &got {
                    Outcome::Done(Some(r)) => {
                        listed == 1
                            && *r == want.is_some()
                            && match taker {
                                Taker::Closes(_) => good.starts_with(&out) && wanted.iter().take(fetched.len()).eq(fetched.iter().copied()),
                                _ => out == good && fetched.iter().copied().eq(wanted.iter()),
                            }
                    }
                    _ => false,
                };
                // a channel that is closed may be reported or not
                let ok = ok || matches!((&got, taker), (Outcome::Done(Some(false)), Taker::Closes(_))) && good.starts_with(&out);
                ctx.outcome(if want.is_none() { "a poll fails" } else { "a poll" });
                ctx.check(ok, || format!("{}: {got:?}, delivered {out:?}, expected {good:?}, calls {calls:?}", say()));
            }
        }
    }
    ctx.bound(format!("v1: {} answers as list, all combinations of {} answers for up to 3 blocks, 5 ways of taking blocks", lists.len(), few.len()));
}

const ENDPOINTS: [&str; 3] = ["http://localhost:3085/graphql", "https://b.example/graphql", "c"];
const ACCOUNTS: [&str; 3] = ["B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg", "B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8", ""];

/// All lists of different members of 0..n.
fn arrangements(n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut at = 0;
    while at < all.len() {
        for i in 0..n {
            if !all[at].contains(&i) {
                let mut v: Vec<usize> = all[at].clone();
                v.push(i);
                all.push(v);
            }
        }
        at += 1;
    }
    all
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// What is wrong with one poll or request of the Berkeley backend.
fn judge(poll: bool, result: Option<bool>, calls: &[Called], out: &[Value], apis: &[usize], accounts: &[usize], kinds: &[usize], taker: Taker, good: impl Fn(usize) -> Value) -> Option<String> {
    let _ = poll;
    let Some(ok) = result else { return Some("it never ends".into()) };
    let track = sorted(accounts.iter().map(|i| ACCOUNTS[*i].to_string()).collect());
    let mut asked = vec![];
    for c in calls {
        match (&c.0[..], &c.1[..]) {
            ("fetch_best_chain_json_str", [Arg::Text(e), Arg::List(t)]) => {
                if sorted(t.clone()) != track {
                    return Some(format!("asks for accounts {t:?}"));
                }
                match ENDPOINTS.iter().position(|x| x == e) {
                    Some(i) if apis.contains(&i) && !asked.contains(&i) => asked.push(i),
                    _ => return Some(format!("asks {e:?}, of {apis:?}, after {asked:?}")),
                }
            }
            _ => return Some(format!("unexpected call {c:?}")),
        }
    }
    let answered: Vec<Value> = asked.iter().filter(|i| kinds[**i] == 0).map(|i| good(*i)).collect();
    let failed = asked.iter().any(|i| kinds[*i] != 0);
    if let Taker::Closes(_) = taker {
        return if answered.starts_with(out) { None } else { Some(format!("delivers {out:?}, of {answered:?}")) };
    }
    if *out != answered[..] {
        return Some(format!("delivers {out:?}, was given {answered:?}"));
    }
    if ok == failed {
        return Some(format!("success is {ok}, with answers {:?}", asked.iter().map(|i| kinds[*i]).collect::<Vec<_>>()));
    }
    if ok && asked.len() != apis.len() {
        return Some(format!("asks {asked:?} only, of {apis:?}"));
    }
    None
}

fn berkeley(ctx: &Ctx) {
    let good = |i: usize| json!({"bestChain": [{"n": i}], "text": "é\u{1F600}", "big": 18446744073709551615u64, "nested": {"a": [null, true, 1.5, "1013238001000001000"]}});
    let all: Vec<(&'static str, Answer)> = [("an answer", Ok(JsValue::null()))].into_iter().chain(failures()).collect();
    let all = Arc::new(all);
    let few: Vec<usize> = if ctx.thorough() { (0..all.len()).collect() } else { vec![0, 1, 2, 3, 7] };
    let answers = move |kinds: Vec<usize>, all: Arc<Vec<(&'static str, Answer)>>| {
        environment(move |c| match &c.1[..] {
            [Arg::Text(e), ..] => match ENDPOINTS.iter().position(|x| x == e) {
                Some(i) if kinds[i] == 0 => Ok(JsValue::from_str(&good(i).to_string())),
                Some(i) => all[kinds[i]].1.clone(),
                None => Err(JsValue::from_str("an unknown node")),
            },
            _ => Err(JsValue::from_str("not understood")),
        })
    };
    let lists = arrangements(3);
    for apis in &lists {
        for accounts in &lists {
            for code in 0..few.len().pow(3) {
                let kinds: Vec<usize> = (0..3).map(|k| few[code / few.len().pow(k) % few.len()]).collect();
                // nodes that are not asked need one answer only
                if (0..3).any(|i| kinds[i] != 0 && !apis.contains(&i)) {
                    continue;
                }
                for taker in TAKERS {
                    for poll in [true, false] {
                        let calls = answers(kinds.clone(), all.clone());
                        let (tx, rx) = mpsc::channel(1);
                        let (mut rx, mut out) = (Some(rx), vec![]);
                        let say = || format!("{} of nodes {apis:?} for accounts {accounts:?}, which give {:?}; {taker:?}", if poll { "a poll" } else { "a request" }, kinds.iter().map(|k| all[*k].0).collect::<Vec<_>>());
                        let got = guarded(&say, || {
                            let mut b = NonConsensusGraphQLBerkeleyBackend::new();
                            b.set_block_responder(tx);
                            b.set_api_list(apis.iter().chain(apis).map(|i| ENDPOINTS[*i].to_string()));
                            b.set_tracking_accounts(accounts.iter().chain(accounts).map(|i| ACCOUNTS[*i].to_string()));
                            if poll {
                                drive(b.poll_latest_once(), &mut rx, taker, &mut out).map(|r| r.is_ok())
                            } else {
                                drive(b.query_block(&QueryBlockRequest { height: 7, state_hash: "x".into() }), &mut rx, taker, &mut out).map(|r| r.is_ok())
                            }
                        });
                        let wrong = match got {
                            Outcome::Done(r) => judge(poll, r, &calls.borrow(), &out, apis, accounts, &kinds, taker, good),
                            Outcome::Panic(m) => Some(format!("panics: {m}")),
                        };
                        ctx.add(1, 1 + apis.len() as u64, 1);
                        ctx.outcome("nodes are asked");
                        ctx.check(wrong.is_none(), || format!("{}: {}", say(), wrong.clone().unwrap_or_default()));
                    }
                }
            }
        }
    }
    // single answers
    for (k, (name, _)) in all.iter().enumerate() {
        for e in 0..3 {
            for accounts in &lists {
                let calls = answers(vec![k; 3], all.clone());
                let say = || format!("asking {} for {accounts:?}, which gives {name}", ENDPOINTS[e]);
                let got = guarded(&say, || drive(fetch_best_chain_json(ENDPOINTS[e], accounts.iter().map(|i| ACCOUNTS[*i].to_string()).collect()), &mut None::<mpsc::Receiver<()>>, Taker::AtOnce, &mut vec![]).map(|r| r.ok()));
                let want = (k == 0).then(|| good(e));
                let call = Called("fetch_best_chain_json_str".into(), vec![Arg::Text(ENDPOINTS[e].into()), Arg::List(accounts.iter().map(|i| ACCOUNTS[*i].to_string()).collect())]);
                ctx.add(1, 1, 1);
                ctx.check(matches!(&got, Outcome::Done(Some(g)) if *g == want) && *calls.borrow() == [call], || format!("{}: {got:?}, calls {:?}", say(), calls.borrow()));
            }
        }
    }
    // histories: what was set last is what is used
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Apis(&'static [usize]),
        Accounts(&'static [usize]),
        Responder,
        Poll,
        Request,
        CloneIt,
    }
    let ops = [Op::Apis(&[]), Op::Apis(&[1]), Op::Apis(&[0, 2]), Op::Accounts(&[]), Op::Accounts(&[2]), Op::Accounts(&[1, 0]), Op::Responder, Op::Poll, Op::Request, Op::CloneIt];
    let depth = if ctx.thorough() { 6 } else { 5 };
    par_for(ctx, ops.len() * ops.len(), |first| {
        let count = Cell::new(0u64);
        for code in 0..ops.len().pow(depth - 2) {
            let seq: Vec<Op> = [first / ops.len(), first % ops.len()].into_iter().chain((0..depth - 2).map(|k| code / ops.len().pow(k) % ops.len())).map(|i| ops[i]).collect();
            if !matches!(seq[depth as usize - 1], Op::Poll | Op::Request) {
                continue;
            }
            let say = || format!("the history {seq:?}");
            let got = guarded(&say, || {
                let mut b = NonConsensusGraphQLBerkeleyBackend::new();
                let (mut apis, mut accounts): (&[usize], &[usize]) = (&[], &[]);
                let mut rx = None;
                for (n, op) in seq.iter().enumerate() {
                    match *op {
                        Op::Apis(l) => {
                            b.set_api_list(l.iter().map(|i| ENDPOINTS[*i].to_string()));
                            apis = l;
                        }
                        Op::Accounts(l) => {
                            b.set_tracking_accounts(l.iter().map(|i| ACCOUNTS[*i].to_string()));
                            accounts = l;
                        }
                        Op::Responder => {
                            let (t, r) = mpsc::channel(1);
                            b.set_block_responder(t);
                            rx = Some(r);
                        }
                        Op::CloneIt => b = b.clone(),
                        Op::Poll | Op::Request => {
                            let calls = answers(vec![0; 3], all.clone());
                            let mut out = vec![];
                            let r = if let Op::Poll = op {
                                drive(b.poll_latest_once(), &mut rx, Taker::AtOnce, &mut out).map(|r| r.is_ok())
                            } else {
                                drive(b.query_block(&QueryBlockRequest { height: n, state_hash: n.to_string() }), &mut rx, Taker::AtOnce, &mut out).map(|r| r.is_ok())
                            };
                            if rx.is_none() {
                                if r.is_none() || !out.is_empty() {
                                    return Some(format!("step {n}, without a responder: {r:?}"));
                                }
                                continue;
                            }
                            let calls = calls.borrow().clone();
                            if let Some(w) = judge(true, r, &calls, &out, apis, accounts, &[0; 3], Taker::AtOnce, good) {
                                return Some(format!("step {n}: {w}"));
                            }
                        }
                    }
                }
                None
            });
            count.set(count.get() + 1);
            ctx.check(matches!(got, Outcome::Done(None)), || format!("{}: {got:?}", say()));
        }
        ctx.add(count.get(), count.get() * depth as u64, count.get());
    });
    ctx.bound(format!("Berkeley: all arrangements of up to 3 nodes and 3 accounts, all combinations of {} answers, 5 ways of taking blocks, polls and requests; all histories of {depth} of {} operations that end in one", few.len(), ops.len()));
}

pub fn c42(ctx: &Ctx) {
    v1(ctx);
    berkeley(ctx);
}
