//! C43: what the fetching functions deliver when the network fails, and what is asked for.
//! The functions are JavaScript; js/driver.js enumerates and judges them, this part reads
//! the answers they give as the frontier does.
use mc_core::*;
use mina_merkle::MerkleProof;
use mina_network::processor::naive_transition_frontier::ProtocolStateWithSparseMerkleLedger;
use serde_json::Value;
use std::process::Command;

pub fn c43(ctx: &Ctx) {
    let script = concat!(env!("CARGO_MANIFEST_DIR"), "/js/driver.js");
    let ran = Command::new("node").arg(script).arg(if ctx.thorough() { "thorough" } else { "quick" }).output();
    let ran = ran.unwrap_or_else(|e| {
        eprintln!("node {script}: {e}");
        std::process::exit(3)
    });
    let text = String::from_utf8_lossy(&ran.stdout);
    let Ok(out) = serde_json::from_str::<Value>(&text) else {
        // it loads the scripts and calls them; a failure of a call it counts itself
        ctx.violate(|| format!("the functions cannot be loaded or end the program they run in: {}", String::from_utf8_lossy(&ran.stderr)));
        return;
    };
    let n = |k: &str| out[k].as_u64().unwrap_or(0);
    ctx.add(n("states"), n("transitions"), n("traces"));
    for (k, v) in out["outcomes"].as_object().into_iter().flatten() {
        ctx.outcomes_n(k, v.as_u64().unwrap_or(0));
    }
    for b in out["bounds"].as_array().into_iter().flatten() {
        ctx.bound(b.as_str().unwrap_or(""));
    }
    for w in out["violations"].as_array().into_iter().flatten() {
        ctx.violate(|| w.as_str().unwrap_or("").to_string());
    }
    let read = |v: &Value| {
        guarded(&|| format!("the answer {v}"), || {
            let r = ProtocolStateWithSparseMerkleLedger::try_from(v).map_err(drop)?;
            Ok::<_, ()>((format!("{:?}", r.0), r.1.iter().map(|p| format!("{:?}", p.root_hash().map_err(drop))).collect::<Vec<_>>()))
        })
    };
    ctx.assume("the network is a stand-in for fetch, the node a small GraphQL server with the fields that are asked for today");
    let answers = out["answers"].as_array().cloned().unwrap_or_default();
    for a in &answers {
        let (full, got) = (read(&a["full"]), read(&a["got"]));
        let missing = a["missing"].as_bool().unwrap_or(false);
        // what was asked for is what is read: all members that a node knows give nothing else
        ctx.check(full == got && matches!(got, Outcome::Done(Ok(_))) != missing, || {
            format!("the answer {} is read as {got:?}, all that the node knows as {full:?}{}", a["got"], if missing { ", and an account is missing" } else { "" })
        });
        ctx.sample(|| a["got"].to_string());
        ctx.add(1, 2, 1);
        ctx.outcome(if missing { "answers that lack an account" } else { "answers read" });
    }
    ctx.bound(format!("{} answers of nodes, read as the frontier reads them and compared with all that the node knows", answers.len()));
}
