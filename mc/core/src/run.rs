use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::cell::Cell;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// How a call into the implementation ended.
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome<T> {
    Done(T),
    /// panic message
    Panic(String),
}

impl<T> Outcome<T> {
    pub fn done(self) -> Option<T> {
        match self {
            Outcome::Done(t) => Some(t),
            _ => None,
        }
    }
}

static CTX: OnceLock<Arc<Ctx>> = OnceLock::new();

thread_local! {
    static CASE: Cell<Option<&'static dyn Fn() -> String>> = const { Cell::new(None) };
}

pub(crate) fn too_large(size: usize) -> ! {
    let case = CASE.with(|c| c.get()).map(|f| f()).unwrap_or_default();
    let ctx = CTX.get().expect("ctx");
    ctx.violate(|| format!("memory out of proportion to the input (a request of {size} bytes): {case}"));
    std::process::exit(ctx.finish())
}

static CURRENT: Mutex<BTreeMap<usize, (Instant, String)>> = Mutex::new(BTreeMap::new());

/// Memory a single call of the implementation may hold, unless the case says otherwise.
pub const CAP: usize = 64 << 20;

/// Call into the implementation, turning a panic into an outcome. `desc` describes the case.
pub fn guarded<T>(desc: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Outcome<T> {
    // the reference is dropped from CASE before this function returns
    let d: &'static dyn Fn() -> String = unsafe { std::mem::transmute(desc) };
    let old = CASE.with(|c| c.replace(Some(d)));
    let r = catch_unwind(AssertUnwindSafe(|| crate::alloc::with_cap(CAP, f)));
    CASE.with(|c| c.set(old));
    match r {
        Ok(t) => Outcome::Done(t),
        Err(e) => {
            if let Some(s) = e.downcast_ref::<&str>() {
                Outcome::Panic(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Outcome::Panic(s.clone())
            } else {
                Outcome::Panic("?".into())
            }
        }
    }
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    stop: AtomicBool,
    violation: Mutex<Option<String>>,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    findings: Mutex<BTreeMap<String, (u64, String)>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    start: Instant,
    pub out: String,
}

impl Ctx {
    /// `known`: entries "known: property=<id> key=<key> text" of the known-findings file.
    pub fn new(property: &str) -> Arc<Ctx> {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, k, t) = (it.next(), it.next(), it.next());
                    if let (Some(p), Some(k), Some(t)) = (p, k, t) {
                        if p == property {
                            if let Some(k) = k.strip_prefix("key=") {
                                known.push((k.to_string(), t.to_string()));
                            }
                        }
                    }
                }
            }
        }
        // panics of the implementation are outcomes; others are shown, a few of them
        std::panic::set_hook(Box::new(|info| {
            static SHOWN: AtomicUsize = AtomicUsize::new(0);
            if CASE.with(|c| c.get()).is_none() && SHOWN.fetch_add(1, Relaxed) < 3 {
                eprintln!("{info}");
            }
        }));
        let ctx = Arc::new(Ctx {
            property: property.into(),
            tier,
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            violation: Mutex::new(None),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            findings: Mutex::new(BTreeMap::new()),
            bounds: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            known,
            start: Instant::now(),
            out: root,
        });
        let _ = CTX.set(ctx.clone());
        let c = ctx.clone();
        // a case that does not come back at all is a violation (endless loop)
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(5));
            let stuck = {
                let cur = CURRENT.lock().unwrap();
                cur.values()
                    .find(|(t, _)| t.elapsed() > Duration::from_secs(120))
                    .map(|(_, s)| s.clone())
            };
            if let Some(s) = stuck {
                c.violate(|| format!("no return within 120 s (endless loop): {s}"));
                std::process::exit(c.finish());
            }
        });
        ctx
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Announce the case a thread works on, for the endless-loop watch.
    pub fn enter(&self, what: impl FnOnce() -> String) -> Entered {
        static ID: AtomicUsize = AtomicUsize::new(0);
        let id = ID.fetch_add(1, Relaxed);
        CURRENT.lock().unwrap().insert(id, (Instant::now(), what()));
        Entered(id)
    }

    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }

    pub fn outcome(&self, k: &str) {
        self.outcomes_n(k, 1)
    }

    pub fn outcomes_n(&self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        let mut o = self.outcomes.lock().unwrap();
        match o.get_mut(k) {
            Some(c) => *c += n,
            None => {
                o.insert(k.to_string(), n);
            }
        }
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let s = s();
            v.push(s);
        }
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// A listed finding of this property: true if the file lists `key`.
    pub fn known_finding(&self, key: &str, what: impl FnOnce() -> String) -> bool {
        if !self.known.iter().any(|(k, _)| k == key) {
            return false;
        }
        let mut f = self.findings.lock().unwrap();
        match f.get_mut(key) {
            Some((n, _)) => *n += 1,
            None => {
                f.insert(key.to_string(), (1, what()));
            }
        }
        true
    }

    pub fn violate(&self, what: impl FnOnce() -> String) {
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(what());
        }
        self.stop.store(true, Relaxed);
    }

    /// Check a condition; on failure record the violation. Returns the condition.
    #[inline]
    pub fn check(&self, ok: bool, what: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(what);
        }
        ok
    }

    /// Write evidence, print the verdict, return the exit code.
    pub fn finish(&self) -> i32 {
        let violation = self.violation.lock().unwrap().clone();
        let mut ev = String::new();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let list = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        let outcomes = self
            .outcomes
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        let findings = self.findings.lock().unwrap();
        let _ = write!(
            ev,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"counting\": \"states: distinct inputs, configurations or nodes of the explored tree; transitions: steps between them (bytes or choices consumed, calls made); traces: executions of the implementation compared with the model\",\n  \"exhaustive\": {},\n  \"bounds\": [{}],\n  \"outcomes\": {{{}}},\n  \"known_findings_seen\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
            js(&self.property),
            if self.thorough() { "thorough" } else { "quick" },
            seed,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            violation.is_none(),
            list(&self.bounds.lock().unwrap()),
            outcomes,
            findings.iter().map(|(k, (n, s))| format!("{}: {}", js(k), js(&format!("{n} cases, first: {s}")))).collect::<Vec<_>>().join(", "),
            list(&self.samples.lock().unwrap()),
            list(&self.assumptions.lock().unwrap()),
            violation.is_some() as u8,
            self.start.elapsed().as_secs_f64()
        );
        let dir = format!("{}/evidence", self.out);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.property), ev) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        for (k, (n, s)) in findings.iter() {
            println!("KNOWN-FINDING: property={} {} ({} cases, first: {})", self.property, k, n, s);
        }
        println!(
            "{}: states={} transitions={} traces={} wall={:.1}s",
            self.property,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            self.start.elapsed().as_secs_f64()
        );
        match violation {
            None => 0,
            Some(v) => {
                let dir = format!("{}/evidence/replay", self.out);
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{}.txt", self.property);
                let _ = std::fs::write(&path, format!("{v}\n\nThe exploration is deterministic: run the check of {} again to replay it.\n", self.property));
                println!("{v}");
                println!("VIOLATION property={} replay={}", self.property, path);
                let _ = std::io::stdout().flush();
                1
            }
        }
    }
}

pub struct Entered(usize);
impl Drop for Entered {
    fn drop(&mut self) {
        CURRENT.lock().unwrap().remove(&self.0);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Work through 0..n on all cores, in ascending order of start; every index is visited
/// unless a violation stops the run.
pub fn par_for(ctx: &Ctx, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let failed = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || ctx.stopped() {
                        break;
                    }
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i))) {
                        let msg = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        *failed.lock().unwrap() = Some(format!("the exploration cannot go on at item {i}: {msg}"));
                        break;
                    }
                })
                .unwrap();
        }
    });
    if let Some(m) = failed.into_inner().unwrap() {
        // this does not happen on a tree where the property holds: what the explorer itself does
        // is the same on every run, so the implementation did not give what it is built on
        ctx.violate(|| m);
        std::process::exit(ctx.finish());
    }
}
