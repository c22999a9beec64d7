//! C39: what the network sends reaches the frontier, and what the frontier asks for reaches the
//! network, in every schedule.
use async_trait::async_trait;
use mc_core::*;
use mina_network::processor::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::sync::mpsc;
use tokio::task::yield_now;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Good,
    /// cannot be converted to the frontier's type of block
    Broken,
    /// refused by the frontier
    Refused,
    /// makes the frontier ask for another block
    Asks,
    /// makes the frontier ask for another block, and is refused
    AsksRefused,
}
use Kind::*;

#[derive(Clone, Copy, Debug)]
struct Sent(usize, Kind);
struct Accepted(usize, Kind);
impl TryFrom<Sent> for Accepted {
    type Error = String;
    fn try_from(s: Sent) -> Result<Self, String> {
        if s.1 == Broken {
            Err("broken".into())
        } else {
            Ok(Accepted(s.0, s.1))
        }
    }
}

/// What is seen from outside.
#[derive(Default, Debug)]
struct Log {
    /// blocks the frontier was given
    added: Vec<usize>,
    /// of the requests it made, and those the network was given
    asked: Vec<usize>,
    queried: Vec<usize>,
    in_frontier: bool,
    in_network: bool,
    /// where calls are waiting for a channel
    waits_to_ask: bool,
    waits_to_reply: usize,
    wrong: Option<String>,
    finished: usize,
}
impl Log {
    fn wrong(&mut self, s: String) {
        self.wrong.get_or_insert(s);
    }
}
type Shared = Rc<RefCell<Log>>;

struct Frontier {
    log: Shared,
    ask: Option<mpsc::Sender<QueryBlockRequest>>,
    slow: bool,
}
struct Network {
    log: Shared,
    reply: Rc<RefCell<Option<mpsc::Sender<Sent>>>>,
    slow: bool,
    replies: usize,
    fails: bool,
}

#[async_trait(?Send)]
impl TransitionFrontier for Frontier {
    type Block = Accepted;
    async fn add_block(&mut self, block: Accepted) -> anyhow::Result<()> {
        {
            let mut l = self.log.borrow_mut();
            if l.in_frontier {
                l.wrong(format!("block {} added while another is", block.0));
            }
            l.in_frontier = true;
        }
        if self.slow {
            yield_now().await;
        }
        self.log.borrow_mut().added.push(block.0);
        if matches!(block.1, Asks | AsksRefused) {
            self.log.borrow_mut().waits_to_ask = true;
            let r = self.ask.as_ref().expect("requester").send(QueryBlockRequest { height: block.0, state_hash: format!("h{}", block.0) }).await;
            let mut l = self.log.borrow_mut();
            l.waits_to_ask = false;
            match r {
                Ok(()) => l.asked.push(block.0),
                Err(_) => l.wrong("the channel of requests is closed".into()),
            }
        }
        if self.slow {
            yield_now().await;
        }
        self.log.borrow_mut().in_frontier = false;
        anyhow::ensure!(!matches!(block.1, Refused | AsksRefused), "refused");
        Ok(())
    }
    fn set_block_requester(&mut self, sender: mpsc::Sender<QueryBlockRequest>) {
        self.ask = Some(sender);
    }
}

#[async_trait(?Send)]
impl NonConsensusNetworkingOps for Network {
    type Block = Sent;
    fn set_block_responder(&mut self, sender: mpsc::Sender<Sent>) {
        *self.reply.borrow_mut() = Some(sender);
    }
    async fn query_block(&mut self, request: &QueryBlockRequest) -> anyhow::Result<()> {
        {
            let mut l = self.log.borrow_mut();
            if l.in_network {
                l.wrong(format!("request {} made while the network is in use", request.height));
            }
            if request.state_hash != format!("h{}", request.height) {
                l.wrong(format!("request {} with state hash {}", request.height, request.state_hash));
            }
            l.in_network = true;
            l.queried.push(request.height);
        }
        if self.slow {
            yield_now().await;
        }
        let reply = self.reply.borrow().clone().expect("responder");
        for i in 0..self.replies {
            self.log.borrow_mut().waits_to_reply += 1;
            let r = reply.send(Sent(1000 * (i + 1) + request.height, Good)).await;
            let mut l = self.log.borrow_mut();
            l.waits_to_reply -= 1;
            if r.is_err() {
                l.wrong("the channel of blocks is closed".into());
            }
        }
        self.log.borrow_mut().in_network = false;
        anyhow::ensure!(!self.fails, "not found");
        Ok(())
    }
}

#[derive(Clone, Debug)]
struct Setup {
    /// what each task pushes, one after the other
    pushers: Vec<Vec<Kind>>,
    slow_frontier: bool,
    slow_network: bool,
    replies: usize,
    fails: bool,
    /// tasks that look at the frontier, and that use the network themselves
    readers: usize,
    users: usize,
    /// the first pusher pushes as the network does while it polls, that is, holding its lock
    polls: bool,
}

struct Woken(AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}

type Task = Pin<Box<dyn Future<Output = ()>>>;

fn execute(setup: &Setup, ch: Rc<RefCell<Chooser>>, free: bool) -> (Log, usize, usize) {
    let log = Shared::default();
    let reply = Rc::new(RefCell::new(None));
    let frontier = Frontier { log: log.clone(), ask: None, slow: setup.slow_frontier };
    let network = Network { log: log.clone(), reply: reply.clone(), slow: setup.slow_network, replies: setup.replies, fails: setup.fails };
    let p = Rc::new(NetworkMessageProcessor::<Sent, Accepted, _, _>::new(frontier, network));
    let mut tasks: Vec<Task> = vec![];
    let q = p.clone();
    tasks.push(Box::pin(async move { q.run().await }));
    let mut id = 0;
    for (n, kinds) in setup.pushers.iter().enumerate() {
        let (to, log, p) = (reply.borrow().clone().expect("responder"), log.clone(), p.clone());
        let blocks: Vec<Sent> = kinds.iter().map(|k| {
            id += 1;
            Sent(id, *k)
        }).collect();
        let polls = setup.polls && n == 0;
        tasks.push(Box::pin(async move {
            let _held = if polls { Some(p.nonconsensus_ops().await) } else { None };
            for b in blocks {
                if polls {
                    log.borrow_mut().waits_to_reply += 1;
                }
                if to.send(b).await.is_err() {
                    log.borrow_mut().wrong("the channel of blocks is closed".into());
                }
                if polls {
                    log.borrow_mut().waits_to_reply -= 1;
                }
            }
            log.borrow_mut().finished += 1;
        }));
    }
    for _ in 0..setup.readers {
        let (p, log) = (p.clone(), log.clone());
        tasks.push(Box::pin(async move {
            for _ in 0..2 {
                let f = p.transition_frontier().await;
                let before = f.log.borrow().added.len();
                if f.log.borrow().in_frontier {
                    log.borrow_mut().wrong("the frontier is seen while it adds a block".into());
                }
                yield_now().await;
                if f.log.borrow().added.len() != before {
                    log.borrow_mut().wrong("the frontier changes while it is looked at".into());
                }
            }
            log.borrow_mut().finished += 1;
        }));
    }
    for _ in 0..setup.users {
        let (p, log) = (p.clone(), log.clone());
        tasks.push(Box::pin(async move {
            let n = p.nonconsensus_ops_mut().await;
            if std::mem::replace(&mut n.log.borrow_mut().in_network, true) {
                log.borrow_mut().wrong("the network is given out while it is in use".into());
            }
            yield_now().await;
            n.log.borrow_mut().in_network = false;
            drop(n);
            log.borrow_mut().finished += 1;
        }));
    }
    let woken: Vec<Arc<Woken>> = tasks.iter().map(|_| Arc::new(Woken(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = woken.iter().map(|w| w.clone().into()).collect();
    let mut tasks: Vec<Option<Task>> = tasks.into_iter().map(Some).collect();
    let c = ch.clone();
    tokio::model::set_pick(Some(Box::new(move |n| c.borrow_mut().deviate(n))));
    let (mut steps, mut last) = (0, 0);
    loop {
        let mut ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some() && woken[*i].0.load(Relaxed)).collect();
        if ready.is_empty() {
            break;
        }
        steps += 1;
        if steps > 2000 {
            log.borrow_mut().wrong("the tasks never come to rest".into());
            break;
        }
        // by default, in turn
        let at = ready.iter().position(|i| *i > last).unwrap_or(0);
        ready.rotate_left(at);
        let k = if free { ch.borrow_mut().choose(ready.len()) } else { ch.borrow_mut().deviate(ready.len()) };
        let i = ready[k];
        last = i;
        woken[i].0.store(false, Relaxed);
        let t = tasks[i].as_mut().expect("task");
        if let Poll::Ready(()) = t.as_mut().poll(&mut Context::from_waker(&wakers[i])) {
            tasks[i] = None;
        }
    }
    tokio::model::set_pick(None);
    let ended = tasks[0].is_none();
    if ended {
        log.borrow_mut().wrong("the processor has ended".into());
    }
    let others = tasks.len() - 1;
    drop(tasks);
    drop(p);
    reply.borrow_mut().take();
    (Rc::try_unwrap(log).expect("log").into_inner(), others, steps)
}

/// What is wrong with an execution that has come to rest, and whether it is the known deadlock.
fn judge(setup: &Setup, l: &Log, tasks: usize) -> Option<(String, bool)> {
    if let Some(w) = &l.wrong {
        return Some((w.clone(), false));
    }
    let mut id = 0;
    let mut all = vec![];
    let mut asks = vec![];
    for p in &setup.pushers {
        let mut want = vec![];
        for k in p {
            id += 1;
            if *k != Broken {
                want.push(id);
            }
            if matches!(k, Asks | AsksRefused) {
                asks.push(id);
            }
        }
        let got: Vec<usize> = l.added.iter().copied().filter(|x| id - p.len() < *x && *x <= id).collect();
        if !want.starts_with(&got) {
            return Some((format!("blocks {want:?} were pushed, the frontier was given {got:?} of them"), false));
        }
        all.extend(want);
    }
    for a in &asks {
        all.extend((0..setup.replies).map(|i| 1000 * (i + 1) + a));
    }
    // requests are those of the blocks added, in that order; none is lost, doubled or out of turn
    let order: Vec<usize> = l.added.iter().copied().filter(|x| asks.contains(x)).collect();
    if !order.starts_with(&l.asked) || !l.asked.starts_with(&l.queried) {
        return Some((format!("the frontier asked for {:?}, the network was asked for {:?}", l.asked, l.queried), false));
    }
    let mut added = l.added.clone();
    added.sort();
    if added.windows(2).any(|w| w[0] == w[1]) {
        return Some((format!("the frontier was given a block twice: {:?}", l.added), false));
    }
    all.sort();
    if l.finished == tasks && added == all && l.queried.len() == asks.len() && l.asked.len() == asks.len() {
        return None;
    }
    let known = l.waits_to_ask && l.waits_to_reply > 0;
    Some((
        format!("stuck: {} of {tasks} tasks have ended; blocks added {:?} of {all:?}; requests made {:?} and served {:?} of {asks:?}{}", l.finished, l.added, l.asked, l.queried, if known { "; the frontier waits to make a request, the network to deliver a block" } else { "" }),
        known,
    ))
}

fn run(ctx: &Ctx, setup: &Setup, free: bool, bound: u32) {
    let mut stuck = 0u64;
    let x = explore(bound, |ch| {
        let _e = ctx.enter(|| format!("{setup:?}"));
        let shared = Rc::new(RefCell::new(std::mem::replace(ch, Chooser::replay(vec![], 0))));
        let r = guarded(&|| format!("{setup:?}"), || execute(setup, shared.clone(), free));
        tokio::model::set_pick(None);
        *ch = Rc::try_unwrap(shared).ok().expect("chooser").into_inner();
        let say = |e: &str| format!("{setup:?}, schedule {:?}: {e}", ch.choices());
        match r {
            Outcome::Panic(e) => ctx.violate(|| say(&format!("panic: {e}"))),
            Outcome::Done((l, tasks, steps)) => {
                ctx.add(0, steps as u64, 1);
                if let Some((e, known)) = judge(setup, &l, tasks) {
                    if known {
                        stuck += 1;
                    }
                    if !known || !ctx.known_finding("request-reply-deadlock", || say(&e)) {
                        ctx.violate(|| say(&e));
                    }
                }
            }
        }
        !ctx.stopped()
    });
    ctx.add(x.nodes, 0, 0);
    ctx.outcomes_n("schedules", x.runs);
    if stuck > 0 {
        ctx.outcomes_n("schedules that end stuck", stuck);
    }
}

fn lists(kinds: &[Kind], n: usize) -> Vec<Vec<Kind>> {
    let mut v = vec![vec![]];
    let mut at = 0;
    while at < v.len() {
        if v[at].len() < n {
            for k in kinds {
                let mut l = v[at].clone();
                l.push(*k);
                v.push(l);
            }
        }
        at += 1;
    }
    v
}

pub fn c39(ctx: &Ctx) {
    let base = Setup { pushers: vec![], slow_frontier: false, slow_network: false, replies: 0, fails: false, readers: 0, users: 0, polls: false };
    let kinds = [Good, Broken, Refused, Asks, AsksRefused];
    let mut setups: Vec<(Setup, bool, u32)> = vec![];
    let t = ctx.thorough();
    let more = |quick: u32, thorough: u32| if t { thorough } else { quick };
    for slow in [false, true] {
        for net in 0..4 {
            let s = Setup { slow_frontier: slow, slow_network: net & 1 == 1, fails: net & 2 == 2, ..base.clone() };
            // one pusher: every list, every schedule
            for l in lists(&kinds, 3) {
                for replies in [0, 1] {
                    setups.push((Setup { pushers: vec![l.clone()], replies, ..s.clone() }, true, more(1, 2)));
                }
            }
            // with others that look on, and use the network
            for l in lists(&kinds, 2) {
                setups.push((Setup { pushers: vec![l.clone()], readers: 1, users: 1, ..s.clone() }, false, more(4, 6)));
            }
        }
        // several pushers
        for a in lists(&kinds, 2) {
            for b in lists(&kinds, 2) {
                for replies in [0, 1] {
                    setups.push((Setup { pushers: vec![a.clone(), b.clone()], slow_frontier: slow, replies, ..base.clone() }, false, more(3, 5)));
                }
            }
        }
        for replies in [0, 1, 2] {
            for polls in [false, true] {
                for k in [Good, Asks, Refused] {
                    setups.push((Setup { pushers: vec![vec![k; 2]; 3], slow_frontier: slow, replies, polls, readers: 1, ..base.clone() }, false, more(2, 4)));
                }
            }
        }
    }
    ctx.bound(format!("{} set-ups of tasks that push up to 3 blocks each (accepted, refused, broken, causing requests), with up to 3 pushing tasks, tasks that hold the frontier or the network, replies of 0 to 2 blocks; every schedule for one pusher (the two loops of the processor changing their turn up to {} times), with up to {} departures from taking turns for more", setups.len(), more(1, 2), if t { "4 to 6" } else { "2 to 4" }));
    ctx.assume("channels and locks serve their waiters in the order they come, as tokio documents; one thread");
    par_for(ctx, setups.len(), |i| {
        let (s, free, bound) = &setups[i];
        run(ctx, s, *free, *bound)
    });
}
