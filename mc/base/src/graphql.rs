//! C28: reading states and accounts from the JSON of the GraphQL interface. Builders make a JSON
//! document and the value it describes from the same members.
use crate::ro::*;
use crate::vals::*;
use mc_core::*;
use mina_crypto::hash::*;
use mina_rs_base::account::timing::TimedData;
use mina_rs_base::account::{Account, AuthRequired, Permissions, Timing, TokenPermissions};
use mina_rs_base::types::*;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use proof_systems::mina_signer::CompressedPubKey;
use serde_json::{json, Value};
use std::fmt::Debug;

const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Base58check.
pub fn b58(payload: &[u8]) -> String {
    let mut m = payload.to_vec();
    m.extend_from_slice(&hashes::sha256(&hashes::sha256(payload))[..4]);
    let mut n = num::BigUint::from_bytes_be(&m);
    let mut out = vec![];
    while n > 0u32.into() {
        let d = &n % 58u32;
        n /= 58u32;
        out.push(ALPHABET[d.to_u32_digits().first().copied().unwrap_or(0) as usize]);
    }
    out.extend(m.iter().take_while(|b| **b == 0).map(|_| b'1'));
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn hash_text(version: u8, h: &[u8; 32]) -> String {
    let mut p = vec![version, 1];
    p.extend_from_slice(h);
    b58(&p)
}

pub fn key_text(k: &CompressedPubKey) -> String {
    let mut p = vec![0xcb, 1, 1];
    p.extend_from_slice(&le32(&big(k.x)));
    p.push(k.is_odd as u8);
    b58(&p)
}

/// Members read from strings.
struct B<'a, 'b>(&'a mut Vals<'b>);

impl<'a, 'b> B<'a, 'b> {
    fn u32(&mut self) -> (u32, Value) {
        let n = self.0.u32();
        (n, json!(n.to_string()))
    }
    fn u64(&mut self) -> (u64, Value) {
        let n = self.0.u64();
        (n, json!(n.to_string()))
    }
    fn bool(&mut self) -> (bool, Value) {
        let b = self.0.bool();
        (b, json!(b))
    }
    fn hash(&mut self, version: u8) -> ([u8; 32], Value) {
        let h = self.0.hash();
        (h, json!(hash_text(version, &h)))
    }
    fn key(&mut self) -> (CompressedPubKey, Value) {
        let k = self.0.key();
        let t = key_text(&k);
        (k, json!(t))
    }
}

const LEDGER: u8 = 5;
const COINBASE: u8 = 12;
const SEED: u8 = 13;
const AUX: u8 = 14;
const PENDING_AUX: u8 = 15;
const STATE: u8 = 16;
const VRF: u8 = 21;

fn epoch(v: &mut Vals) -> (EpochData, Value) {
    let mut b = B(v);
    let (hash, j_hash) = b.hash(LEDGER);
    let (total, j_total) = b.u64();
    let (seed, j_seed) = b.hash(SEED);
    let (start, j_start) = b.hash(STATE);
    let (lock, j_lock) = b.hash(STATE);
    let (length, j_length) = b.u32();
    (
        EpochData {
            ledger: EpochLedger { hash: hash_of(&hash), total_currency: Amount(total) },
            seed: seed_of(&seed),
            start_checkpoint: start.into(),
            lock_checkpoint: lock.into(),
            epoch_length: Length(length),
        },
        json!({"ledger": {"hash": j_hash, "totalCurrency": j_total}, "seed": j_seed, "startCheckpoint": j_start, "lockCheckpoint": j_lock, "epochLength": j_length}),
    )
}

fn consensus(v: &mut Vals) -> (ConsensusState, Value) {
    let (staking, j_staking) = epoch(v);
    let (next, j_next) = epoch(v);
    let vrf = v.bytes();
    let mut text = vec![VRF, 32];
    text.extend_from_slice(&vrf);
    let mut b = B(v);
    let (len, j_len) = b.u32();
    let (count, j_count) = b.u32();
    let (min, j_min) = b.u32();
    let (total, j_total) = b.u64();
    let (slot, j_slot) = b.u32();
    let (since, j_since) = b.u32();
    let (ancestor, j_ancestor) = b.bool();
    let (winner, j_winner) = b.key();
    let (creator, j_creator) = b.key();
    let (receiver, j_receiver) = b.key();
    let (supercharge, j_supercharge) = b.bool();
    (
        ConsensusState {
            blockchain_length: Length(len),
            epoch_count: Length(count),
            min_window_density: Length(min),
            // not part of the JSON
            sub_window_densities: [1, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7].iter().map(|n| Length(*n)).collect(),
            last_vrf_output: VrfOutputTruncated(vrf.to_vec()),
            total_currency: Amount(total),
            curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(slot), slots_per_epoch: Length(7140) },
            global_slot_since_genesis: GlobalSlotNumber(since),
            staking_epoch_data: staking,
            next_epoch_data: next,
            has_ancestor_in_same_checkpoint_window: ancestor,
            block_stake_winner: winner,
            block_creator: creator,
            coinbase_receiver: receiver,
            supercharge_coinbase: supercharge,
        },
        json!({
            "blockHeight": j_len.clone(), "blockchainLength": j_len, "epoch": "0", "epochCount": j_count, "minWindowDensity": j_min,
            "lastVrfOutput": b58(&text), "totalCurrency": j_total, "slot": j_slot, "slotSinceGenesis": j_since,
            "stakingEpochData": j_staking, "nextEpochData": j_next, "hasAncestorInSameCheckpointWindow": j_ancestor,
            "blockStakeWinner": j_winner, "blockCreator": j_creator, "coinbaseReceiever": j_receiver, "superchargedCoinbase": j_supercharge,
        }),
    )
}

fn blockchain(v: &mut Vals) -> (BlockchainState, Value) {
    let (aux, pending_aux, reference) = (v.bytes(), v.bytes(), v.bytes());
    let text = |version: u8, b: &[u8]| {
        let mut p = vec![version];
        p.extend_from_slice(b);
        b58(&p)
    };
    let mut b = B(v);
    let (ledger, j_ledger) = b.hash(LEDGER);
    let (coinbase, j_coinbase) = b.hash(COINBASE);
    let (genesis, j_genesis) = b.hash(LEDGER);
    let (snarked, j_snarked) = b.hash(LEDGER);
    let (time, j_time) = b.u64();
    (
        BlockchainState {
            staged_ledger_hash: StagedLedgerHash {
                non_snark: NonSnarkStagedLedgerHash { ledger_hash: hash_of(&ledger), aux_hash: AuxHash(aux.to_vec()), pending_coinbase_aux: PendingCoinbaseAuxHash(pending_aux.to_vec()) },
                pending_coinbase_hash: coinbase_of(&coinbase),
            },
            genesis_ledger_hash: hash_of(&genesis),
            registers: BlockchainStateRegisters { ledger: hash_of(&snarked), pending_coinbase_stack: (), local_state: Default::default() },
            timestamp: BlockTime(time),
            body_reference: BodyReference(reference),
        },
        json!({
            "stagedLedgerHash": j_ledger, "stagedLedgerAuxHash": text(AUX, &aux), "stagedLedgerPendingCoinbaseAux": text(PENDING_AUX, &pending_aux),
            "stagedLedgerPendingCoinbaseHash": j_coinbase, "genesisLedgerHash": j_genesis, "snarkedLedgerHash": j_snarked,
            "date": j_time.clone(), "utcDate": j_time, "stagedLedgerProofEmitted": false,
            "bodyReference": reference.iter().map(|b| format!("{b:02x}")).collect::<String>(),
        }),
    )
}

fn state(v: &mut Vals) -> (ProtocolState, Value) {
    let previous = v.hash();
    let (consensus_state, j_consensus) = consensus(v);
    let (blockchain_state, j_blockchain) = blockchain(v);
    let genesis = "3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf";
    (
        ProtocolState {
            previous_state_hash: previous.into(),
            // genesis and constants are those of the network
            body: ProtocolStateBody { genesis_state_hash: genesis.parse().unwrap(), blockchain_state, consensus_state, constants: Default::default() },
        },
        json!({"previousStateHash": hash_text(STATE, &previous), "consensusState": j_consensus, "blockchainState": j_blockchain}),
    )
}

fn permissions(v: &mut Vals) -> (Permissions, Value) {
    let mut a = || match v.pick(6) {
        0 => (AuthRequired::None, "None"),
        1 => (AuthRequired::Either, "Either"),
        2 => (AuthRequired::Proof, "Proof"),
        3 => (AuthRequired::Signature, "Signature"),
        4 => (AuthRequired::Both, "Both"),
        _ => (AuthRequired::Impossible, "Impossible"),
    };
    let p: Vec<_> = (0..11).map(|_| a()).collect();
    (
        Permissions {
            edit_state: p[0].0.clone(),
            send: p[1].0.clone(),
            receive: p[2].0.clone(),
            set_delegate: p[3].0.clone(),
            set_permissions: p[4].0.clone(),
            set_verification_key: p[5].0.clone(),
            set_zkapp_uri: p[6].0.clone(),
            edit_sequence_state: p[7].0.clone(),
            set_token_symbol: p[8].0.clone(),
            increment_nonce: p[9].0.clone(),
            set_voting_for: p[10].0.clone(),
        },
        json!({
            "editState": p[0].1, "send": p[1].1, "receive": p[2].1, "setDelegate": p[3].1, "setPermissions": p[4].1,
            "setVerificationKey": p[5].1, "setZkappUri": p[6].1, "editSequenceState": p[7].1, "setTokenSymbol": p[8].1,
            "incrementNonce": p[9].1, "setVotingFor": p[10].1,
        }),
    )
}

fn timed(v: &mut Vals) -> (TimedData, Value) {
    let mut b = B(v);
    let (initial, j_initial) = b.u64();
    let (time, j_time) = b.u32();
    let (cliff, j_cliff) = b.u64();
    let (period, j_period) = b.u32();
    let (increment, j_increment) = b.u64();
    (
        TimedData { initial_minimum_balance: Amount(initial), cliff_time: BlockTime(time as u64), cliff_amount: Amount(cliff), vesting_period: BlockTime(period as u64), vesting_increment: Amount(increment) },
        json!({"initialMinimumBalance": j_initial, "cliffTime": j_time, "cliffAmount": j_cliff, "vestingPeriod": j_period, "vestingIncrement": j_increment}),
    )
}

fn timing(v: &mut Vals) -> (Timing, Value) {
    match v.pick(3) {
        0 => {
            let (t, j) = timed(v);
            (Timing::Timed(t), j)
        }
        // for untimed accounts, the node answers with nulls
        k => {
            timed(v);
            (Timing::Untimed, if k == 1 { Value::Null } else { json!({"initialMinimumBalance": null, "cliffTime": null, "cliffAmount": null, "vestingPeriod": null, "vestingIncrement": null}) })
        }
    }
}

fn account(v: &mut Vals) -> (Account, Value) {
    let (permissions, j_permissions) = permissions(v);
    let (timing, j_timing) = timing(v);
    let has_delegate = v.pick(2) == 0;
    let mut b = B(v);
    let (key, j_key) = b.key();
    let (delegate, j_delegate) = b.key();
    let (token, j_token) = b.u64();
    let (balance, j_balance) = b.u64();
    let (nonce, j_nonce) = b.u32();
    let receipt = b.0.hash();
    // written the way such hashes are written, whatever kind of text that is
    let j_receipt = ChainHash::from(receipt).to_string();
    let (voting, j_voting) = b.hash(STATE);
    let (owner, j_owner) = b.bool();
    let (disabled, j_disabled) = b.bool();
    (
        Account {
            public_key: key,
            token_id: TokenId(token),
            balance: Amount(balance),
            token_permissions: if owner { TokenPermissions::TokenOwned { disable_new_accounts: disabled } } else { TokenPermissions::NotOwned { account_disabled: disabled } },
            token_symbol: Default::default(),
            nonce: AccountNonce(nonce),
            receipt_chain_hash: receipt.into(),
            delegate: has_delegate.then_some(delegate),
            voting_for: voting.into(),
            timing,
            permissions,
            zkapp: None,
            zkapp_uri: None,
        },
        json!({
            "publicKey": j_key, "token": j_token, "balance": {"total": j_balance}, "nonce": j_nonce, "receiptChainHash": j_receipt,
            "delegate": if has_delegate { j_delegate } else { Value::Null }, "votingFor": j_voting, "timing": j_timing,
            "permissions": j_permissions, "isTokenOwner": j_owner, "isDisabled": j_disabled,
        }),
    )
}

/// Members that are not read.
const IGNORED: [&str; 4] = ["blockchainLength", "epoch", "date", "stagedLedgerProofEmitted"];

fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, v)| leaves(v, &format!("{at}/{k}"), out)),
        Value::String(_) if !IGNORED.iter().any(|i| at.ends_with(&format!("/{i}"))) => out.push(at.into()),
        _ => {}
    }
}

fn reader<T: FromGraphQLJson + Debug>(ctx: &Ctx, name: &str, k: usize, make: fn(&mut Vals) -> (T, Value)) {
    let a = arity(|v| {
        make(v);
    });
    // what is described is what is read
    vary(ctx, name, &a, k, |c| {
        let (want, json) = make(&mut Vals::new(c));
        let say = || format!("{name} of {json}");
        let got = guarded(&say, || T::from_graphql_json(&json).map(|t| format!("{t:?}")).map_err(|e| e.to_string()));
        ctx.check(got == Outcome::Done(Ok(format!("{want:?}"))), || format!("{}: {got:?}, expected {want:?}", say()));
    });
    // what is malformed is refused
    let (_, json) = make(&mut Vals::new(&[]));
    let mut paths = vec![];
    leaves(&json, "", &mut paths);
    par_for(ctx, paths.len(), |i| {
        let path = &paths[i];
        let text = json.pointer(path).unwrap().as_str().unwrap().to_string();
        let refused = |with: Option<Value>| {
            let mut j = json.clone();
            let shown = format!("{with:?}");
            match with {
                Some(v) => *j.pointer_mut(path).unwrap() = v,
                None => {
                    let (parent, key) = path.rsplit_once('/').unwrap();
                    j.pointer_mut(parent).unwrap().as_object_mut().unwrap().remove(key);
                }
            }
            let say = || format!("{name} with {path} replaced by {shown}");
            let got = guarded(&say, || T::from_graphql_json(&j).map(|t| format!("{t:?}")).map_err(|_| ()));
            ctx.check(got == Outcome::Done(Err(())), || format!("{}: {got:?}, expected an error", say()));
            ctx.add(1, 1, 1);
        };
        if !path.ends_with("/delegate") {
            // a delegate that is not a string is none
            refused(None);
            [json!(null), json!(5), json!(true), json!([]), json!({}), json!([text])].into_iter().for_each(|v| refused(Some(v)));
        }
        let key = key_text(&mut Vals::new(&[]).key());
        let chars: Vec<char> = text.chars().collect();
        let (number, hex) = (text.parse::<u64>().is_ok(), path.ends_with("/bodyReference"));
        let mut bad: Vec<String> = ["", " ", "x", "-1", "1.5", "18446744073709551616", "None ", "none", "\u{e9}"].iter().map(|s| s.to_string()).collect();
        if text.len() < 11 {
            bad.push("4294967296".into());
            if path.contains("timing") || name.starts_with("tim") {
                bad.pop();
            }
        }
        if !text.starts_with("B62") {
            bad.push(key);
        }
        // hashes of every kind but this
        for version in 0..=255u8 {
            let t = hash_text(version, &[3; 32]);
            if number || hex || b58_version(&text) != version {
                bad.push(t);
            }
        }
        if !number {
            // every character lost, doubled or replaced
            for at in 0..chars.len() {
                let mut c = chars.clone();
                c.remove(at);
                bad.push(c.iter().collect());
                let mut c = chars.clone();
                c.insert(at, chars[at]);
                bad.push(c.iter().collect());
                for r in (1..128u8).map(char::from) {
                    if r != chars[at] && !(hex && r.is_ascii_hexdigit()) {
                        let mut c = chars.clone();
                        c[at] = r;
                        bad.push(c.iter().collect());
                    }
                }
            }
        }
        bad.into_iter().filter(|b| *b != text).for_each(|b| refused(Some(json!(b))));
    });
}

fn b58_version(text: &str) -> u8 {
    let n = text.bytes().fold(num::BigUint::from(0u32), |n, c| n * 58u32 + ALPHABET.iter().position(|a| *a == c).unwrap_or(0));
    n.to_bytes_be()[0]
}

pub fn c28(ctx: &Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    ctx.bound(format!("documents in which every member takes 5 significant values (all, for enumerations), {k} (of small ones {}) at a time, from 5 bases; every string of a document missing, of another type, of another kind, out of range, or with any one character lost, doubled or replaced by any other ASCII character", k + 1));
    ctx.assume("epoch is 0 (the interface's slot counts from the start of the epoch, the reader takes it as global); flags are given; height and date have the same value under both of their names");
    reader(ctx, "epoch data", k + 1, epoch);
    reader(ctx, "consensus state", k, consensus);
    reader(ctx, "blockchain state", k + 1, blockchain);
    reader(ctx, "protocol state", k, state);
    reader(ctx, "permissions", k + 1, permissions);
    reader(ctx, "timed data", k + 1, timed);
    reader(ctx, "timing", k + 1, timing);
    reader(ctx, "account", k, account);
}
