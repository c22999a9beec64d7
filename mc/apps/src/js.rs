//! The JavaScript around the apps: the functions they export, and the inline ones they import,
//! which are run by node, once for all values.
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::process::Command;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake};
use wasm_bindgen::env::Value as Arg;
use wasm_bindgen::{Exported, JsValue};

extern "Rust" {
    fn js_mina_berkeley_sendPayment(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_lockAccount(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_unlockAccount(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_sendPayment(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_lockAccount(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_unlockAccount(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_accountInfo(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_connect(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_set_event_emitter(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_runProcessor(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_setApiList(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_setTrackingAccounts(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_pollLatestBlocks(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_getBestChainStateHash(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_getBestChainState(a: Vec<JsValue>) -> Exported;
    fn js_mina_berkeley_getSparseMerkleLedger(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_run_processor(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_poll_latest_blocks_once(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_get_best_chain_state_hash(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_get_best_chain_state_json(a: Vec<JsValue>) -> Exported;
    fn js_mina_rs_wasm_mvp_fetch_block_previous_state_hash(a: Vec<JsValue>) -> Exported;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Function {
    Send,
    Lock,
    Unlock,
    Info,
    Connect,
    SetEmitter,
    Run,
    SetNodes,
    SetAccounts,
    Poll,
    Hash,
    State,
    Ledger,
    Previous,
}
/// The function of the app for the test network (`berkeley`), or of the first one.
pub fn call(berkeley: bool, f: Function, a: Vec<JsValue>) -> Exported {
    use Function::*;
    unsafe {
        match (berkeley, f) {
            (true, Send) => js_mina_berkeley_sendPayment(a),
            (true, Lock) => js_mina_berkeley_lockAccount(a),
            (true, Unlock) => js_mina_berkeley_unlockAccount(a),
            (false, Send) => js_mina_rs_wasm_mvp_sendPayment(a),
            (false, Lock) => js_mina_rs_wasm_mvp_lockAccount(a),
            (false, Unlock) => js_mina_rs_wasm_mvp_unlockAccount(a),
            (false, Info) => js_mina_rs_wasm_mvp_accountInfo(a),
            (false, Connect) => js_mina_rs_wasm_mvp_connect(a),
            (false, SetEmitter) => js_mina_rs_wasm_mvp_set_event_emitter(a),
            (true, Run) => js_mina_berkeley_runProcessor(a),
            (true, SetNodes) => js_mina_berkeley_setApiList(a),
            (true, SetAccounts) => js_mina_berkeley_setTrackingAccounts(a),
            (true, Poll) => js_mina_berkeley_pollLatestBlocks(a),
            (true, Hash) => js_mina_berkeley_getBestChainStateHash(a),
            (true, State) => js_mina_berkeley_getBestChainState(a),
            (true, Ledger) => js_mina_berkeley_getSparseMerkleLedger(a),
            (false, Run) => js_mina_rs_wasm_mvp_run_processor(a),
            (false, Poll) => js_mina_rs_wasm_mvp_poll_latest_blocks_once(a),
            (false, Hash) => js_mina_rs_wasm_mvp_get_best_chain_state_hash(a),
            (false, State) => js_mina_rs_wasm_mvp_get_best_chain_state_json(a),
            (false, Previous) => js_mina_rs_wasm_mvp_fetch_block_previous_state_hash(a),
            (_, f) => unreachable!("{f:?}"),
        }
    }
}

/// All values that are given to inline functions of one argument.
static VALUES: Mutex<Vec<String>> = Mutex::new(vec![]);
type Table = Arc<BTreeMap<String, Option<String>>>;
static TABLES: Mutex<BTreeMap<(String, String), Table>> = Mutex::new(BTreeMap::new());

pub fn declare(values: &[JsValue]) {
    let mut v = VALUES.lock().unwrap();
    v.extend(values.iter().map(|v| v.expression()));
    v.sort();
    v.dedup();
}
/// What a function of this JavaScript gives for a declared value; None if it throws.
pub fn run(name: &str, js: &str, v: &JsValue) -> Option<String> {
    let mut tables = TABLES.lock().unwrap();
    let table = tables.entry((name.into(), js.into())).or_insert_with(|| {
        let values = VALUES.lock().unwrap();
        let script = format!(
            "const module = {{exports: {{}}}};\n(() => {{ {js}\n}})();\nconst f = module.exports[{name:?}];\n\
             const r = [{}].map(g => {{ try {{ const t = f(g()); return typeof t == 'string' ? t : null }} catch (e) {{ return null }} }});\n\
             process.stdout.write(JSON.stringify(r));",
            values.iter().map(|e| format!("() => ({e})")).collect::<Vec<_>>().join(",\n")
        );
        let out = Command::new("node").arg("-e").arg(script).output().unwrap_or_else(|e| {
            eprintln!("node: {e}");
            std::process::exit(3)
        });
        let r: Vec<Option<String>> = serde_json::from_slice(&out.stdout).unwrap_or_else(|_| vec![None; values.len()]);
        Arc::new(values.iter().cloned().zip(r).collect())
    });
    let table = table.clone();
    drop(tables);
    let e = v.expression();
    table.get(&e).unwrap_or_else(|| panic!("the value {e} is not declared")).clone()
}
/// Inline functions are run; what else is called is noted.
pub fn inline(mut other: impl FnMut(&str, &[Arg]) + 'static) {
    wasm_bindgen::env::set_sync(Some(Box::new(move |name, js, args| {
        if let (Some(js), [Arg::Js(v)]) = (js, &args[..]) {
            return run(name, js, v).map_or_else(|| panic!("{name} throws for {}", v.expression()), JsValue::from);
        }
        other(name, &args);
        JsValue::UNDEFINED
    })));
}

pub struct Woken(pub AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}
/// A call under way.
pub struct Task {
    f: Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>,
    woken: Arc<Woken>,
    pub result: Option<Result<JsValue, JsValue>>,
}
impl Task {
    pub fn new(f: Exported) -> Self {
        Self { f, woken: Arc::new(Woken(AtomicBool::new(true))), result: None }
    }
    pub fn ready(&self) -> bool {
        self.result.is_none() && self.woken.0.load(Relaxed)
    }
    pub fn step(&mut self) {
        self.woken.0.store(false, Relaxed);
        let waker = self.woken.clone().into();
        if let Poll::Ready(r) = self.f.as_mut().poll(&mut Context::from_waker(&waker)) {
            self.result = Some(r);
        }
    }
    /// Runs it as far as it gets.
    pub fn run(mut self) -> Option<Result<JsValue, JsValue>> {
        for _ in 0..100_000 {
            if !self.ready() {
                break;
            }
            self.step();
        }
        self.result
    }
}
