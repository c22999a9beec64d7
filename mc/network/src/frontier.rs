//! C38: the frontier follows the best valid block, in every order in which blocks arrive.
use crate::world::*;
use ark_ff::{BigInteger256, PrimeField};
use mc_core::*;
use mina_consensus::common::*;
use mina_consensus::genesis::*;
use mina_merkle::MerkleProof;
use mina_network::processor::*;
use mina_rs_base::account::*;
use mina_rs_base::protocol_state::*;
use mina_rs_base::staged_ledger_diff::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder;
use mina_rs_base::user_commands::*;
use mina_serialization_types::v1::*;
use proof_systems::mina_hasher::Fp;
use proof_systems::mina_signer::{Keypair, NetworkId};
use serde_json::{json, Value};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

struct Idle;
impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}
/// A future that never waits for others.
fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = Arc::new(Idle).into();
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(t) => t,
        Poll::Pending => panic!("waits for something that never comes"),
    }
}

// ---- what a node has to do with a block, as in C24

type Single<T> = ProtocolStateChain<T>;
fn moves<T: ProtocolStateHeader + Clone>(a: (&Tip, &T), b: (&Tip, &T)) -> Result<bool, ()> {
    let rank = |t: &(&Tip, &T)| (t.0.length, hashes::blake2b(32, &t.0.vrf), t.1.state_hash_fp());
    let longer = rank(&b) > rank(&a);
    if short_range(a.0, b.0) {
        return Ok(longer);
    }
    if !well_formed(b.0) {
        return Ok(false);
    }
    let (ca, cb): (Single<T>, Single<T>) = (ProtocolStateChain(vec![a.1.clone()]), ProtocolStateChain(vec![b.1.clone()]));
    let (da, db) = (ca.relative_min_window_density(&cb).map_err(|_| ())?, cb.relative_min_window_density(&ca).map_err(|_| ())?);
    Ok(db > da || db == da && longer)
}

fn tips() -> Vec<Tip> {
    let t = Tip::default();
    vec![
        t.clone(),
        // longer; shorter but later; same length with a larger output; the same facts in another block
        Tip { length: 101, hash: 6, ..t.clone() },
        Tip { length: 99, slot: 30_100, hash: 7, ..t.clone() },
        Tip { vrf: vec![7, 7, 7], hash: 8, ..t.clone() },
        Tip { hash: 9, ..t.clone() },
        // far forks: denser, sparser, malformed
        Tip { staking_lock: 8, length: 50, min_density: 70, densities: vec![7; 11], hash: 10, ..t.clone() },
        Tip { staking_lock: 9, length: 500, min_density: 3, densities: vec![1; 11], hash: 11, ..t.clone() },
        Tip { staking_lock: 10, length: 600, min_density: 77, densities: vec![9; 11], hash: 12, ..t.clone() },
        Tip { staking_lock: 10, length: 700, densities: vec![4; 10], hash: 13, ..t.clone() },
        // the next epoch
        Tip { epoch: 4, slot: 37_000, staking_lock: 2, length: 130, hash: 14, ..t },
    ]
}

/// Runs all histories of up to `depth` blocks; the frontier is rebuilt for each history.
fn histories<S>(ctx: &Ctx, n: usize, depth: usize, start: impl Fn() -> S + Sync, step: impl Fn(&mut S, usize, usize) -> Result<(), String> + Sync, name: &str) {
    let one = |h: &[usize]| {
        let say = || format!("{name} frontier given blocks {h:?}");
        let r = guarded(&say, || {
            let mut s = start();
            for (i, b) in h.iter().enumerate() {
                step(&mut s, *b, i)?;
            }
            Ok(())
        });
        match r {
            Outcome::Done(Ok(())) => ctx.add(1, h.len() as u64, 1),
            Outcome::Done(Err(e)) | Outcome::Panic(e) => {
                ctx.violate(|| format!("{}: {e}", say()));
            }
        }
    };
    // every history of the full depth has the shorter ones as its beginnings
    par_for(ctx, n.pow(depth as u32), |mut i| {
        let h: Vec<usize> = (0..depth)
            .map(|_| {
                let b = i % n;
                i /= n;
                b
            })
            .collect();
        one(&h)
    });
}

// ---- main net

fn pair(n: u8) -> Keypair {
    Keypair::from_hex(&format!("{:064x}", 0x1234_5678_9abc_def0u64 as u128 * (n as u128 + 1))).unwrap()
}
fn command(good: bool) -> UserCommandWithStatus {
    let key = |n: u8| pair(n).public.into_compressed();
    let p = SignedTransferCommandBuilder::new(key(1), key(2), Amount(5), Amount(1), AccountNonce(7)).build();
    let mut c = SignedCommand::from_payload(p, pair(1), NetworkId::MAINNET);
    if !good {
        c.payload.common.nonce = AccountNonce(8);
    }
    let balances = TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None };
    UserCommandWithStatus {
        data: UserCommand::SignedCommand(c),
        status: TransactionStatus::Applied(TransactionStatusAuxiliaryData { fee_payer_account_creation_fee_paid: None, receiver_account_creation_fee_paid: None, created_token: None }, balances),
    }
}
fn part(commands: &[bool]) -> StagedLedgerPreDiffV1 {
    StagedLedgerPreDiff { completed_works: vec![], commands: commands.iter().map(|g| command(*g)).collect(), coinbase: CoinBase::Zero, internal_command_balances: vec![] }.into()
}

fn mainnet(ctx: &Ctx, depth: usize) {
    let base = ExternalTransition::from_genesis_config(&MAINNET_CONFIG);
    // each tip with good commands, and with one bad command in either part
    let mut blocks = vec![];
    for (i, t) in tips().into_iter().enumerate() {
        let kinds: &[(&[bool], Option<&[bool]>)] = match i {
            0 | 1 | 5 => &[(&[true], Some(&[true])), (&[true, false], None), (&[true], Some(&[false]))],
            _ => &[(&[], None), (&[], Some(&[true, false]))],
        };
        for (one, two) in kinds {
            let mut b = base.clone();
            b.protocol_state.body.consensus_state = state(&t);
            b.protocol_state.previous_state_hash = [t.hash as u8; 32].into();
            b.staged_ledger_diff = StagedLedgerDiff { diff: mina_serialization_types::staged_ledger_diff::StagedLedgerDiffTuple(part(one), two.map(part)).into() };
            let good = one.iter().chain(two.iter().copied().flatten()).all(|g| *g);
            blocks.push((t.clone(), b, good));
        }
    }
    let rule: Vec<Vec<Result<bool, ()>>> = blocks.iter().map(|a| blocks.iter().map(|b| moves((&a.0, &a.1.protocol_state), (&b.0, &b.1.protocol_state))).collect()).collect();
    type F = NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet>;
    let step = |s: &mut (F, Option<usize>), i: usize, _: usize| {
        let (_, b, good) = &blocks[i];
        let r = now(s.0.add_block(b.clone()));
        let mut err = !good;
        if *good {
            match s.1 {
                None => s.1 = Some(i),
                Some(t) => match rule[t][i] {
                    Ok(true) => s.1 = Some(i),
                    Ok(false) => {}
                    Err(()) => err = true,
                },
            }
        }
        let chain = &s.0.get_best_chain().0;
        let want: Vec<&ProtocolStateLegacy> = s.1.iter().map(|t| &blocks[*t].1.protocol_state).collect();
        if r.is_err() != err {
            return Err(format!("block {i} ({:?}, {}): {r:?}", blocks[i].0, if *good { "valid" } else { "invalid" }));
        }
        if chain.iter().collect::<Vec<_>>() != want {
            let got: Vec<_> = chain.iter().map(|p| blocks.iter().position(|b| b.1.protocol_state == *p)).collect();
            return Err(format!("the best chain after block {i} is {got:?}, not {:?}", s.1));
        }
        if !s.0.get_sparse_merkle_ledger().is_empty() {
            return Err("accounts from nowhere".into());
        }
        Ok(())
    };
    histories(ctx, blocks.len(), depth, || (F::new(), None), step, "main net");
    ctx.bound(format!("main net: all sequences of {depth} of {} blocks (10 tips, with valid and invalid commands)", blocks.len()));
}

// ---- Berkeley

fn fp(v: u64) -> Fp {
    v.into()
}
fn decimal(f: Fp) -> String {
    let b: BigInteger256 = f.into_repr();
    num::BigUint::from(b).to_string()
}
const KEY_A: &str = "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg";
const KEY_B: &str = "B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8";
const HASH: &str = "3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x";
const LEDGER: &str = "jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T";

fn answer() -> Value {
    let epoch = |length: &str| json!({"epochLength": length, "lockCheckpoint": HASH, "seed": "2vafPBQ3zQdHUEDDnFGuiNvJz7s2MhTLJgSzQSnu5fnZavT27cms", "startCheckpoint": HASH, "ledger": {"hash": LEDGER, "totalCurrency": "1013238001000001000"}});
    json!({
        "bestChain": [{"protocolState": {
            "previousStateHash": "3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL",
            "consensusState": {
                "blockCreator": KEY_A, "blockHeight": "1", "blockStakeWinner": KEY_A, "epoch": "0", "blockchainLength": "1", "coinbaseReceiever": KEY_A,
                "epochCount": "0", "hasAncestorInSameCheckpointWindow": true, "lastVrfOutput": "48H9Qk4D6RzS9kAJQX9HCDjiJ5qLiopxgxaS6xbDCWNaKQMQ9Y4C",
                "minWindowDensity": "77", "slot": "0", "slotSinceGenesis": "0", "superchargedCoinbase": true, "totalCurrency": "1013238001000001000",
                "nextEpochData": epoch("2"), "stakingEpochData": epoch("1"),
            },
            "blockchainState": {
                "bodyReference": "36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421", "date": "1655755201000", "snarkedLedgerHash": LEDGER,
                "stagedLedgerAuxHash": "UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom", "stagedLedgerHash": LEDGER,
                "stagedLedgerPendingCoinbaseAux": "WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7",
                "stagedLedgerPendingCoinbaseHash": "2mzvU1MA5JjDUrLsKk6KFFj4CPn6bnHjN5Fi779U96JUbZNwoTvF", "stagedLedgerProofEmitted": false,
                "utcDate": "1655755201000", "genesisLedgerHash": LEDGER,
            },
        }}],
    })
}

/// A path as the API gives it: the sides of the node, and its siblings' hashes.
fn account(leaf: u64, sides: &[bool]) -> Value {
    let path: Vec<Value> = sides.iter().enumerate().map(|(i, left)| if *left { json!({"left": decimal(fp(100 + i as u64)), "right": null}) } else { json!({"left": null, "right": decimal(fp(100 + i as u64))}) }).collect();
    json!({"merklePath": path, "leafHash": decimal(fp(leaf))})
}
fn root(leaf: u64, sides: &[bool]) -> Fp {
    sides.iter().enumerate().fold(fp(leaf), |h, (i, left)| {
        let s = fp(100 + i as u64);
        let (l, r) = if *left { (h, s) } else { (s, h) };
        mina_hasher::ideal("kimchi", Some(&format!("CodaMklTree{i:03}")), &[l, r])
    })
}

fn answers(ctx: &Ctx) {
    // members of the answer besides the chain, each with what it gives: a proof, nothing, an error
    #[derive(Clone)]
    enum Gives {
        Proof(Fp),
        Nothing,
        Error,
    }
    use Gives::*;
    let mut forms: Vec<(String, Value, Gives)> = vec![];
    for n in 1..=4 {
        for m in 0..1 << n {
            let sides: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
            forms.push((format!("path {sides:?}"), account(7, &sides), Proof(root(7, &sides))));
        }
    }
    let bad = |what: &str, f: &dyn Fn(&mut Value)| {
        let mut v = account(7, &[true, false]);
        f(&mut v);
        (what.to_string(), v, Error)
    };
    let modulus = "28948022309329048855892746252171976963363056481941560715954676764349967630337";
    forms.push(bad("no path", &|v| v["merklePath"] = Value::Null));
    forms.push(bad("empty path", &|v| v["merklePath"] = json!([])));
    forms.push(bad("two hashes", &|v| v["merklePath"][0] = json!({"left": "1", "right": "2"})));
    forms.push(bad("no hash", &|v| v["merklePath"][1] = json!({"left": null, "right": null})));
    forms.push(bad("text as hash", &|v| v["merklePath"][1] = json!({"left": "x", "right": null})));
    forms.push(bad("hash not below the modulus", &|v| v["merklePath"][1] = json!({"left": modulus, "right": null})));
    forms.push(bad("no leaf", &|v| v["leafHash"] = Value::Null));
    forms.push(bad("number as leaf", &|v| v["leafHash"] = json!(7)));
    forms.push(bad("empty leaf", &|v| v["leafHash"] = json!("")));
    forms.push(bad("leaf not below the modulus", &|v| v["leafHash"] = json!(modulus)));
    forms.push(bad("a text", &|v| *v = json!("x")));
    forms.push(bad("nothing", &|v| *v = Value::Null));
    forms.push(bad("an account that is not there", &|v| *v = json!({})));
    let good = forms.iter().position(|f| f.0.starts_with("path")).unwrap();
    let keys = [KEY_A, KEY_B];
    let names: Vec<&str> = vec!["genesisBlock", "", "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgh", "B62q", "bestchain"];
    let run = |members: Vec<(&str, &(String, Value, Gives))>, chain: Option<&dyn Fn(&mut Value)>| {
        let mut v = answer();
        for (k, f) in &members {
            v[*k] = f.1.clone();
        }
        let mut broken = false;
        if let Some(f) = chain {
            f(&mut v);
            broken = true;
        }
        let say = || format!("the answer {v}");
        let got = guarded(&say, || ProtocolStateWithSparseMerkleLedger::try_from(&v).map(|x| (x.0.body.consensus_state.blockchain_length.0, x.1.iter().map(|p| p.root_hash().ok()).collect::<Vec<_>>())).map_err(|e| e.to_string()));
        let by_value = guarded(&say, || ProtocolStateWithSparseMerkleLedger::try_from(v.clone()).map(|x| (x.0.body.consensus_state.blockchain_length.0, x.1.iter().map(|p| p.root_hash().ok()).collect::<Vec<_>>())).map_err(|e| e.to_string()));
        ctx.add(1, 1, 1);
        let error = broken || members.iter().any(|m| matches!(m.1 .2, Error));
        let mut want: Vec<Option<Fp>> = members.iter().filter_map(|m| if let Proof(r) = m.1 .2 { Some(Some(r)) } else { None }).collect();
        let ok = match &got {
            Outcome::Done(Ok((1, roots))) => {
                let mut roots = roots.clone();
                roots.sort_by_key(|r| r.map(decimal));
                want.sort_by_key(|r| r.map(decimal));
                !error && roots == want
            }
            Outcome::Done(Err(_)) => error,
            _ => false,
        };
        ctx.check(ok && got == by_value, || format!("{}: {got:?} and {by_value:?}, expected {}", say(), if error { "an error".into() } else { format!("{want:?}") }));
        ctx.outcome(if error { "answers refused" } else { "answers read" });
    };
    run(vec![], None);
    for f in &forms {
        run(vec![(KEY_A, f)], None);
        for g in &forms {
            run(vec![(keys[0], f), (keys[1], g)], None);
        }
        for n in &names {
            // other members are nobody's accounts, whatever they hold
            let other = (f.0.clone(), f.1.clone(), Nothing);
            run(vec![(*n, &other)], None);
            run(vec![(*n, &other), (KEY_B, &forms[good])], None);
        }
    }
    run(vec![(KEY_A, &forms[good])], Some(&|v| v["bestChain"] = json!([])));
    run(vec![(KEY_A, &forms[good])], Some(&|v| v["bestChain"] = Value::Null));
    run(vec![(KEY_A, &forms[good])], Some(&|v| *v = json!([v.clone()])));
    run(vec![(KEY_A, &forms[good])], Some(&|v| *v = Value::Null));
    run(vec![(KEY_A, &forms[good])], Some(&|v| v["bestChain"][0] = json!({})));
    // the first block of the chain is the best
    let mut two = answer();
    let mut second = two["bestChain"][0].clone();
    second["protocolState"]["consensusState"]["blockchainLength"] = json!("2");
    second["protocolState"]["consensusState"]["blockHeight"] = json!("2");
    two["bestChain"].as_array_mut().unwrap().push(second);
    let got = guarded(&|| "two blocks".into(), || ProtocolStateWithSparseMerkleLedger::try_from(&two).map(|x| x.0.body.consensus_state.blockchain_length.0).ok());
    ctx.check(got == Outcome::Done(Some(1)), || format!("a chain of two blocks: height {got:?}"));
    ctx.bound(format!("Berkeley answers with up to 2 accounts in {} forms, or one of 5 other members", forms.len()));
}

fn berkeley(ctx: &Ctx, depth: usize) {
    let base = ProtocolStateWithSparseMerkleLedger::try_from(&answer()).map(|x| x.0).unwrap_or_else(|e| {
        ctx.violate(|| format!("the answer {} is refused: {e}", answer()));
        Default::default()
    });
    let mut blocks = vec![];
    for t in tips() {
        let mut p = base.clone();
        p.body.consensus_state = state(&t);
        p.previous_state_hash = [t.hash as u8; 32].into();
        blocks.push((t, p));
    }
    let rule: Vec<Vec<Result<bool, ()>>> = blocks.iter().map(|a| blocks.iter().map(|b| moves((&a.0, &a.1), (&b.0, &b.1))).collect()).collect();
    // the accounts that come with the n-th block
    let come = |n: usize| {
        let mut v = answer();
        v[KEY_A] = account(n as u64 + 1, &[true]);
        if n % 2 == 1 {
            v[KEY_B] = account(n as u64 + 50, &[false]);
        }
        v
    };
    let roots = |n: usize| {
        let mut r = vec![Some(root(n as u64 + 1, &[true]))];
        if n % 2 == 1 {
            r.push(Some(root(n as u64 + 50, &[false])));
        }
        r
    };
    let answers: Vec<Value> = (0..depth).map(come).collect();
    type F = NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet>;
    let step = |s: &mut (F, Option<(usize, Vec<usize>)>), i: usize, n: usize| {
        let proofs = ProtocolStateWithSparseMerkleLedger::try_from(&answers[n]).map_err(|e| e.to_string())?.1;
        let r = now(s.0.add_block(ProtocolStateWithSparseMerkleLedger(blocks[i].1.clone(), proofs)));
        let mut err = false;
        match &mut s.1 {
            None => s.1 = Some((i, vec![n])),
            // the same block again: its accounts, old or new
            Some((t, at)) if *t == i => at.push(n),
            Some((t, _)) => match rule[*t][i] {
                Ok(true) => s.1 = Some((i, vec![n])),
                Ok(false) => {}
                Err(()) => err = true,
            },
        }
        let (t, at) = s.1.as_ref().unwrap();
        if r.is_err() != err {
            return Err(format!("block {i} ({:?}): {r:?}", blocks[i].0));
        }
        let chain = &s.0.get_best_chain().0;
        if chain.len() != 1 || chain[0].state_hash_fp() != blocks[*t].1.state_hash_fp() {
            let got: Vec<_> = chain.iter().map(|p| blocks.iter().position(|b| b.1.state_hash_fp() == p.state_hash_fp())).collect();
            return Err(format!("the best chain after block {i} is {got:?}, not {t}"));
        }
        let got: Vec<Option<Fp>> = s.0.get_sparse_merkle_ledger().iter().map(|p| p.root_hash().ok()).collect();
        if !at.iter().any(|n| roots(*n) == got) {
            return Err(format!("the accounts after step {n} are those with the proofs {got:?}, the best block is {t} of steps {at:?}"));
        }
        Ok(())
    };
    histories(ctx, blocks.len(), depth, || (F::new(), None), step, "Berkeley");
    ctx.bound(format!("Berkeley: all sequences of {depth} of {} blocks, each with accounts of its own", blocks.len()));
}

pub fn c38(ctx: &Ctx) {
    answers(ctx);
    berkeley(ctx, if ctx.thorough() { 5 } else { 4 });
    mainnet(ctx, if ctx.thorough() { 4 } else { 3 });
    ctx.assume("hash and signature are ideal");
    ctx.assume("chain selection between two blocks is as C24 and C25 have it");
}
