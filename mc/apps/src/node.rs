//! C46: the light nodes for browsers, in every order of what happens in the page.
use crate::js::{self, Function, Task};
use mc_core::*;
use mina_consensus::genesis::*;
use mina_network::processor::*;
use mina_rs_base::protocol_state::ProtocolStateHeader;
use mina_rs_base::types::*;
use mina_serialization_types::json::ExternalTransitionJson;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::env::Value as Arg;
use wasm_bindgen::JsValue;

const KEYS: [&str; 2] = ["B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg", "B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8"];
const HASH: &str = "3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x";
const LEDGER: &str = "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T";
/// The blocks there are: the length of the chain each ends, and the accounts given with it.
const BLOCKS: [(u32, usize); 4] = [(5, 2), (9, 0), (7, 1), (12, 2)];
const NODES: [&str; 2] = ["http://a/graphql", "b"];

/// What a node says when it is asked.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    Block(usize),
    /// JSON that is no block; a better block with a malformed account
    NoBlock,
    BadAccount,
    /// no JSON; no text; nothing at all
    NoJson,
    NoText,
    Fails,
}
use Reply::*;
impl Reply {
    fn text(self) -> bool {
        matches!(self, Block(_) | NoBlock | BadAccount)
    }
}

fn berkeley_block(i: usize) -> Value {
    let epoch = |length: &str| json!({"epochLength": length, "lockCheckpoint": HASH, "seed": "2vafPBQ3zQdHUEDDnFGuiNvJz7s2MhTLJgSzQSnu5fnZavT27cms", "startCheckpoint": HASH, "ledger": {"hash": LEDGER, "totalCurrency": "1013238001000001000"}});
    let mut v = json!({
        "bestChain": [{"protocolState": {
            "previousStateHash": "3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL",
            "consensusState": {
                "blockCreator": KEYS[0], "blockHeight": BLOCKS[i].0.to_string(), "blockStakeWinner": KEYS[0], "epoch": "0", "blockchainLength": BLOCKS[i].0.to_string(), "coinbaseReceiever": KEYS[0],
                "epochCount": "0", "hasAncestorInSameCheckpointWindow": true, "lastVrfOutput": "48H9Qk4D6RzS9kAJQX9HCDjiJ5qLiopxgxaS6xbDCWNaKQMQ9Y4C",
                "minWindowDensity": "77", "slot": BLOCKS[i].0.to_string(), "slotSinceGenesis": BLOCKS[i].0.to_string(), "superchargedCoinbase": true, "totalCurrency": "1013238001000001000",
                "nextEpochData": epoch("2"), "stakingEpochData": epoch("1"),
            },
            "blockchainState": {
                "bodyReference": "36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421", "date": "1655755201000", "snarkedLedgerHash": LEDGER,
                "stagedLedgerAuxHash": "UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom", "stagedLedgerHash": LEDGER,
                "stagedLedgerPendingCoinbaseAux": "WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7",
                "stagedLedgerPendingCoinbaseHash": "2mzvU1MA5JjDUrLsKk6KFFj4CPn6bnHjN5Fi779U96JUbZNwoTvF", "stagedLedgerProofEmitted": false,
                "utcDate": "1655755201000", "genesisLedgerHash": LEDGER,
            },
        }}],
        "genesisBlock": {"protocolState": {}},
    });
    for k in KEYS.iter().take(BLOCKS[i].1) {
        v[*k] = json!({"merklePath": [{"left": "1", "right": null}, {"left": null, "right": "2"}], "leafHash": "7"});
    }
    v
}
fn main_block(i: usize) -> ExternalTransitionJson {
    let mut b = ExternalTransition::from_genesis_config(&MAINNET_CONFIG);
    b.protocol_state.body.consensus_state.blockchain_length.0 = BLOCKS[i].0;
    b.protocol_state.previous_state_hash = [i as u8 + 1; 32].into();
    b.into()
}

/// What there is to know of the blocks.
struct Known {
    texts: Vec<String>,
    hashes: Vec<String>,
    /// of the main net
    states: Vec<Value>,
    previous: Vec<String>,
}
fn known(berkeley: bool) -> Known {
    let mut k = Known { texts: vec![], hashes: vec![], states: vec![], previous: vec![] };
    for i in 0..BLOCKS.len() {
        if berkeley {
            let v = berkeley_block(i);
            let b = ProtocolStateWithSparseMerkleLedger::try_from(&v).expect("block");
            k.hashes.push(b.0.state_hash_fp().to_string());
            k.texts.push(v.to_string());
        } else {
            let b = main_block(i);
            let v: Value = serde_json::to_value(&b).expect("block");
            k.previous.push(v["protocol_state"]["previous_state_hash"].as_str().expect("hash").into());
            k.states.push(v["protocol_state"].clone());
            k.texts.push(v.to_string());
            let b: ExternalTransition = b.try_into().expect("block");
            k.hashes.push(b.protocol_state.state_hash_fp().to_string());
        }
    }
    k
}

/// What a page does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Nodes(&'static [Option<&'static str>]),
    Accounts(&'static [Option<&'static str>]),
    Poll,
    Hash,
    State,
    Accounts2,
    Previous(usize),
}
use Call::*;

#[derive(Clone, Debug)]
struct Setup {
    berkeley: bool,
    pages: Vec<Vec<Call>>,
    /// the answers each node gives, again and again
    replies: [Vec<Reply>; 2],
    free: bool,
    bound: u32,
}

#[derive(Default)]
struct World {
    nodes: Vec<String>,
    accounts: Vec<String>,
    asked: [usize; 2],
    /// which page is running, and what its call asked so far, with the settings it found
    page: usize,
    asks: Vec<Asks>,
    given: Vec<usize>,
    /// the best chain seen
    floor: Option<u32>,
    wrong: Option<String>,
}
#[derive(Clone, Default)]
struct Asks {
    settings: Option<(Vec<String>, Vec<String>)>,
    nodes: Vec<String>,
    failed: bool,
}
impl World {
    fn wrong(&mut self, s: String) {
        self.wrong.get_or_insert(s);
    }
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn set(l: &[Option<&str>]) -> Option<Vec<String>> {
    let mut v: Vec<String> = l.iter().map(|x| x.map(String::from)).collect::<Option<_>>()?;
    v.sort();
    v.dedup();
    Some(v)
}
fn list(l: &[Option<&str>]) -> JsValue {
    JsValue::list(l.iter().map(|x| x.map_or(JsValue::from_f64(7.0), JsValue::from_str)).collect())
}

fn reply(w: &mut World, setup: &Setup, k: &Known, node: usize) -> (Reply, Result<JsValue, JsValue>) {
    let r = &setup.replies[node];
    let r = r[w.asked[node] % r.len()];
    w.asked[node] += 1;
    let text = |s: &str| Ok(JsValue::from_str(s));
    let answer = match r {
        Block(i) => text(&k.texts[i]),
        NoBlock => text("{\"bestChain\": []}"),
        BadAccount => {
            let mut v = berkeley_block(3);
            v[KEYS[1]]["leafHash"] = json!("x");
            text(&v.to_string())
        }
        NoJson => text("<html>"),
        NoText => Ok(JsValue::undefined()),
        Fails => Err(JsValue::from_str("no connection")),
    };
    (r, answer)
}

/// The outside world: answers what the light node asks.
fn answer(w: &mut World, setup: &Setup, k: &Known, name: &str, args: &[Arg]) -> Result<JsValue, JsValue> {
    let settings = (w.nodes.clone(), w.accounts.clone());
    let page = w.page;
    match (name, args) {
        ("fetch_best_chain_json_str", [Arg::Text(url), Arg::List(accounts)]) if setup.berkeley => {
            let found = w.asks[page].settings.get_or_insert(settings).clone();
            if sorted(accounts.clone()) != found.1 {
                w.wrong(format!("node {url} is asked for the accounts {accounts:?}, those tracked are {:?}", found.1));
            }
            if !found.0.contains(url) || w.asks[page].nodes.contains(url) {
                w.wrong(format!("node {url} is asked, after {:?}, the nodes are {:?}", w.asks[page].nodes, found.0));
            }
            w.asks[page].nodes.push(url.clone());
            let node = NODES.iter().position(|n| n == url).unwrap_or(0);
            let (r, a) = reply(w, setup, k, node);
            w.asks[page].failed |= !r.text();
            if let Block(i) = r {
                w.given.push(i);
            }
            a
        }
        ("query_latest_blocks_json_str", [Arg::Number(n)]) if !setup.berkeley => {
            if *n == 0 || !w.asks[page].nodes.is_empty() {
                w.wrong(format!("{n} blocks are asked for, after {:?}", w.asks[page].nodes));
            }
            // the blocks that can be had are the answers of the second node
            let r = setup.replies[0][w.asked[0] % setup.replies[0].len()];
            w.asked[0] += 1;
            w.asks[page].failed = !matches!(r, Block(_));
            let blocks: Vec<Value> = match r {
                Block(n) => (0..n).map(|_| {
                    let j = w.asked[1] % setup.replies[1].len();
                    w.asked[1] += 1;
                    w.asks[page].nodes.push(j.to_string());
                    json!({"blockHeight": 100 + j, "stateHash": j.to_string()})
                }).collect(),
                NoBlock | BadAccount => return Ok(JsValue::from_str("{\"blocks\": []}")),
                NoJson => return Ok(JsValue::from_str("<html>")),
                NoText => return Ok(JsValue::undefined()),
                Fails => return Err(JsValue::from_str("no connection")),
            };
            Ok(JsValue::from_str(&Value::from(blocks).to_string()))
        }
        ("fetch_block_json_str", [Arg::Number(height), Arg::Text(hash)]) if !setup.berkeley => {
            if let Some(i) = hash.strip_prefix("previous") {
                let i: usize = i.parse().expect("number");
                if *height != 200 + i as u64 {
                    w.wrong(format!("block {hash} is asked for at height {height}"));
                }
                return Ok(JsValue::from_str(&k.texts[i]));
            }
            if w.asks[page].nodes.first() != Some(hash) || format!("{}", height - 100) != *hash {
                w.wrong(format!("block {hash} at height {height} is asked for, those left are {:?}", w.asks[page].nodes));
                return Err(JsValue::undefined());
            }
            w.asks[page].nodes.remove(0);
            let r = setup.replies[1][hash.parse::<usize>().expect("number")];
            match r {
                Block(i) => {
                    w.given.push(i);
                    Ok(JsValue::from_str(&k.texts[i]))
                }
                NoBlock | BadAccount => Ok(JsValue::from_str("{}")),
                NoJson => Ok(JsValue::from_str("<html>")),
                NoText => Ok(JsValue::undefined()),
                Fails => Err(JsValue::from_str("no connection")),
            }
        }
        _ => {
            w.wrong(format!("call of {name} {args:?}"));
            Err(JsValue::undefined())
        }
    }
}

/// What a call gave, against what it may give.
fn judge(w: &mut World, setup: &Setup, k: &Known, call: Call, floor: Option<u32>, r: &Result<JsValue, JsValue>, at_rest: bool) {
    let page = w.page;
    let asks = std::mem::take(&mut w.asks[page]);
    let best = w.given.iter().copied().max_by_key(|i| BLOCKS[*i].0);
    // the blocks it may show; None for none
    let may = |i: Option<usize>| match i {
        _ if at_rest => i == best,
        None => floor.is_none(),
        Some(i) => w.given.contains(&i) && floor.map_or(true, |f| BLOCKS[i].0 >= f),
    };
    let options: Vec<Option<usize>> = std::iter::once(None).chain((0..BLOCKS.len()).map(Some)).filter(|i| may(*i)).collect();
    let say = |w: &mut World, want: String| w.wrong(format!("page {page}: {call:?} gives {r:?}, expected {want}"));
    if !matches!(call, Poll) && (asks.settings.is_some() || !asks.nodes.is_empty()) {
        say(w, "no request".into());
    }
    match call {
        Nodes(l) | Accounts(l) => match (set(l), r) {
            (Some(l), Ok(v)) if *v == JsValue::from_bool(true) => *(if matches!(call, Nodes(_)) { &mut w.nodes } else { &mut w.accounts }) = l,
            (None, Err(_)) => {}
            (l, _) => say(w, if l.is_some() { "true".into() } else { "an error".into() }),
        },
        Poll => {
            // without any request, nothing can be wrong but that there should have been one
            let want = match &asks.settings {
                Some(s) => s.0.clone(),
                None if setup.berkeley => w.nodes.clone(),
                None => vec![],
            };
            if r.is_err() != asks.failed {
                return say(w, if asks.failed { "an error".into() } else { "success".into() });
            }
            if setup.berkeley && !asks.failed && sorted(asks.nodes.clone()) != want {
                return say(w, format!("requests to {want:?}, there were to {:?}", asks.nodes));
            }
            if !setup.berkeley && !asks.nodes.is_empty() {
                return say(w, format!("that the blocks {:?} are asked for too", asks.nodes));
            }
        }
        Hash => match r {
            Ok(v) => match v.as_string() {
                Some(h) => match options.iter().flatten().find(|i| k.hashes[**i] == h) {
                    Some(i) => w.floor = w.floor.max(Some(BLOCKS[*i].0)),
                    None => say(w, format!("the hash of one of {options:?}")),
                },
                None if v.is_undefined() && options.contains(&None) => {}
                None => say(w, format!("the hash of one of {options:?}")),
            },
            Err(_) => say(w, "no error".into()),
        },
        State => {
            let shown = match r {
                Ok(v) if v.is_undefined() => options.contains(&None),
                Ok(v) if setup.berkeley => v.is_object() && options.iter().any(Option::is_some),
                Ok(v) => v.as_string().and_then(|t| serde_json::from_str::<Value>(&t).ok()).map_or(false, |v| options.iter().flatten().any(|i| k.states[*i] == v)),
                Err(_) => false,
            };
            if !shown {
                say(w, format!("the state of one of {options:?}"));
            }
        }
        Accounts2 => {
            let n = r.as_ref().ok().and_then(|v| v.items()).filter(|l| l.iter().all(|x| x.is_object())).map(|l| l.len());
            if !options.iter().any(|i| n == Some(i.map_or(0, |i| BLOCKS[i].1))) {
                say(w, format!("the accounts given with one of {options:?}"));
            }
        }
        Previous(i) => {
            if r.as_ref().ok().and_then(|v| v.as_string()).as_ref() != Some(&k.previous[i]) {
                say(w, k.previous[i].clone());
            }
        }
    }
}

fn start(berkeley: bool, c: Call) -> Task {
    let (f, args) = match c {
        Nodes(l) => (Function::SetNodes, vec![list(l)]),
        Accounts(l) => (Function::SetAccounts, vec![list(l)]),
        Poll => (Function::Poll, vec![]),
        Hash => (Function::Hash, vec![]),
        State => (Function::State, vec![]),
        Accounts2 => (Function::Ledger, vec![]),
        Previous(i) => (Function::Previous, vec![JsValue::from_f64(200.0 + i as f64), JsValue::from_str(&format!("previous{i}"))]),
    };
    Task::new(js::call(berkeley, f, args))
}

struct Page {
    calls: Vec<Call>,
    next: usize,
    now: Option<(Task, Call, Option<u32>)>,
}
impl Page {
    fn new(calls: Vec<Call>) -> Self {
        Self { calls, next: 0, now: None }
    }
    fn ready(&self) -> bool {
        match &self.now {
            Some((t, ..)) => t.ready(),
            None => self.next < self.calls.len(),
        }
    }
    fn ended(&self) -> bool {
        self.now.is_none() && self.next == self.calls.len()
    }
}

fn execute(setup: &Setup, k: &Rc<Known>, ch: &Rc<RefCell<Chooser>>) -> Result<usize, String> {
    let world = Rc::new(RefCell::new(World { asks: vec![Asks::default(); setup.pages.len() + 1], ..World::default() }));
    let (w, s, kk) = (world.clone(), setup.clone(), k.clone());
    wasm_bindgen::env::set(Some(Box::new(move |name, args| answer(&mut w.borrow_mut(), &s, &kk, name, &args))));
    let c = ch.clone();
    let free = setup.free;
    tokio::model::set_pick(Some(Box::new(move |n| c.borrow_mut().deviate(n))));
    let mut processor = Task::new(js::call(setup.berkeley, Function::Run, vec![]));
    let mut pages: Vec<Page> = setup.pages.iter().map(|p| Page::new(p.clone())).collect();
    let (mut steps, mut last, mut at_rest) = (0, 0, false);
    loop {
        // 0 is the processor
        let mut ready: Vec<usize> = (0..=pages.len()).filter(|i| if *i == 0 { processor.ready() } else { pages[i - 1].ready() }).collect();
        if ready.is_empty() {
            if let Some(i) = pages.iter().position(|p| !p.ended()) {
                let p = &pages[i];
                return Err(format!("page {i}: {:?} never ends", p.calls[p.next - 1]));
            }
            if at_rest {
                break;
            }
            at_rest = true;
            let mut last = vec![Hash, State];
            if setup.berkeley {
                last.push(Accounts2);
            }
            pages.push(Page::new(last));
            continue;
        }
        steps += 1;
        if steps > 2000 {
            return Err("the page never comes to rest".into());
        }
        let at = ready.iter().position(|i| *i > last).unwrap_or(0);
        ready.rotate_left(at);
        let n = if at_rest { 0 } else if free { ch.borrow_mut().choose(ready.len()) } else { ch.borrow_mut().deviate(ready.len()) };
        let i = ready[n];
        last = i;
        if i == 0 {
            processor.step();
            if processor.result.is_some() {
                return Err("the processor has ended".into());
            }
        } else {
            let p = &mut pages[i - 1];
            world.borrow_mut().page = i - 1;
            let floor = world.borrow().floor;
            let (mut t, c, floor) = p.now.take().unwrap_or_else(|| {
                p.next += 1;
                let c = p.calls[p.next - 1];
                (start(setup.berkeley, c), c, floor)
            });
            t.step();
            match &t.result {
                Some(r) => judge(&mut world.borrow_mut(), setup, k, c, floor, r, at_rest),
                None => p.now = Some((t, c, floor)),
            }
        }
        if let Some(e) = world.borrow_mut().wrong.take() {
            return Err(e);
        }
    }
    Ok(steps)
}

fn run(ctx: &Ctx, setup: &Setup, known: impl Fn() -> Known) {
    let k = Rc::new(known());
    let x = explore(setup.bound, |ch| {
        let _e = ctx.enter(|| format!("{setup:?}"));
        let shared = Rc::new(RefCell::new(std::mem::replace(ch, Chooser::replay(vec![], 0))));
        let r = guarded(&|| format!("{setup:?}"), || execute(setup, &k, &shared));
        tokio::model::set_pick(None);
        wasm_bindgen::env::set(None);
        lazy_static::reset();
        *ch = Rc::try_unwrap(shared).ok().expect("chooser").into_inner();
        let say = |e: &str| format!("{setup:?}, schedule {:?}: {e}", ch.choices());
        match r {
            Outcome::Panic(e) => ctx.violate(|| say(&format!("panic: {e}"))),
            Outcome::Done(Ok(steps)) => ctx.add(0, steps as u64, 1),
            Outcome::Done(Err(e)) => ctx.violate(|| say(&e)),
        };
        !ctx.stopped()
    });
    ctx.add(x.nodes, 0, 0);
    ctx.outcomes_n(if setup.berkeley { "schedules of the light node" } else { "schedules of the first light node" }, x.runs);
}

fn lists<T: Copy>(of: &[T], n: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|l: Vec<T>| of.iter().map(move |x| [&l[..], &[*x]].concat())).collect();
    }
    v
}

pub fn c46(ctx: &Ctx) {
    let t = ctx.thorough();
    let mut setups = vec![];
    const A: Option<&str> = Some(NODES[0]);
    const B: Option<&str> = Some(NODES[1]);
    const X: Option<&str> = Some(KEYS[0]);
    const Y: Option<&str> = Some("y");
    let all = [
        Nodes(&[]), Nodes(&[A]), Nodes(&[B, A]), Nodes(&[A, None]), Nodes(&[B, B]),
        Accounts(&[]), Accounts(&[X, Y]), Accounts(&[None, X]), Poll, Hash, State, Accounts2,
    ];
    let few = [Nodes(&[B]), Nodes(&[None]), Accounts(&[Y]), Poll, Hash, Accounts2];
    let profiles: Vec<[Vec<Reply>; 2]> = vec![
        [vec![Block(0), Block(3)], vec![Block(1), Block(2)]],
        [vec![Block(2), NoBlock, Block(1)], vec![Block(1), Fails]],
        [vec![NoJson, Block(1), Block(0)], vec![Block(0), BadAccount]],
        [vec![BadAccount, Block(1), NoText], vec![Block(2), Block(2), Block(3)]],
        [vec![Block(2), Block(0), Block(1)], vec![Block(0), Fails, Block(2)]],
    ];
    for (n, r) in profiles.iter().enumerate() {
        let s = Setup { berkeley: true, pages: vec![], replies: r.clone(), free: false, bound: 0 };
        // one page: every sequence of calls, every schedule
        for l in lists(&all, if t { 3 } else { 2 }) {
            setups.push(Setup { pages: vec![[&[Nodes(&[A, B])], &l[..]].concat()], free: true, bound: 1, ..s.clone() });
        }
        // two pages, or one that does not wait for its calls
        for l in lists(&few, if t { 2 } else { 1 }) {
            for m in lists(&few, 2) {
                setups.push(Setup { pages: vec![[&[Nodes(&[A, B]), Poll], &l[..]].concat(), m.clone()], bound: if t { 3 } else { 2 - n as u32 % 2 }, ..s.clone() });
            }
        }
        for c in few {
            for d in few {
                if t || n == 0 {
                    setups.push(Setup { pages: vec![vec![Nodes(&[A, B]), Accounts(&[X]), Poll], vec![c, Poll, Hash], vec![d, Poll, Hash]], bound: 2, ..s.clone() });
                }
            }
        }
    }
    // the first light node: how many blocks each poll lists, and what fetching them gives
    let calls = [Poll, Hash, State, Previous(1), Previous(3)];
    for lists_blocks in [vec![Block(2)], vec![Block(3), Fails, Block(1)], vec![NoJson, Block(2), NoText, Block(0), NoBlock, Block(4)]] {
        for blocks in [vec![Block(0), Block(3), Block(1)], vec![Block(2), Fails, Block(0), NoJson, Block(3)], vec![NoText, NoBlock, Block(1)]] {
            let s = Setup { berkeley: false, pages: vec![], replies: [lists_blocks.clone(), blocks], free: false, bound: 0 };
            for l in lists(&calls, if t { 3 } else { 2 }) {
                setups.push(Setup { pages: vec![[&[Poll], &l[..]].concat()], free: true, bound: 1, ..s.clone() });
            }
            for l in lists(&calls, if t { 2 } else { 1 }) {
                for m in lists(&calls, 2) {
                    setups.push(Setup { pages: vec![[&[Poll], &l[..]].concat(), m.clone()], bound: if t { 3 } else { 1 }, ..s.clone() });
                }
            }
        }
    }
    ctx.bound(format!("{} set-ups: one page that makes every sequence of {} of 12 calls, in every schedule with the processor; two and three that make every sequence of up to {} of 6, with up to {} departures from taking turns; 5 behaviours of two nodes, 9 of the main net's", setups.len(), if t { 3 } else { 2 }, if t { "2 and 2" } else { "1 and 2" }, if t { "2 or 3" } else { "1 or 2" }));
    ctx.assume("a page runs one task at a time, and an answer comes after the call is suspended; the blocks are of one epoch, C38 has the others");
    par_for(ctx, setups.len(), |i| run(ctx, &setups[i], || known(setups[i].berkeley)));
}
