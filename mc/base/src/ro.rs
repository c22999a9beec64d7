//! C27: what is hashed of blocks and accounts. Builders make a value and, from the same members,
//! the input its hash has to be computed of.
use crate::pack::reference;
use crate::vals::*;
use mc_core::*;
use mina_crypto::hash::*;
use mina_rs_base::account::{Account, AuthRequired, Permissions, Timing, TokenPermissions};
use mina_rs_base::types::*;
use num::BigUint;
use proof_systems::mina_hasher::{Fp, Hashable, ROInput};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::*;

/// Input of a hash: field elements and numbers of some bits, both in order.
#[derive(Default, Clone)]
pub struct Ro {
    pub fields: Vec<BigUint>,
    pub chunks: Vec<(BigUint, u32)>,
}

impl Ro {
    pub fn field(&mut self, v: impl Into<BigUint>) {
        self.fields.push(v.into());
    }
    pub fn num(&mut self, v: impl Into<BigUint>, bits: u32) {
        self.chunks.push((v.into(), bits));
    }
    pub fn bool(&mut self, b: bool) {
        self.num(b as u32, 1);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            for i in 0..8 {
                self.bool(x >> i & 1 == 1);
            }
        }
    }
    fn hash(&mut self, h: &[u8; 32]) {
        self.field(BigUint::from_bytes_le(h));
    }
    fn key(&mut self, k: &CompressedPubKey) {
        self.field(big(k.x));
        self.bool(k.is_odd);
    }
    /// The elements of the new hash function's input.
    fn kimchi(&self) -> Vec<BigUint> {
        reference(&self.fields, &self.chunks)
    }
    /// The elements of the old one's: all bits, lowest first, cut into 254 each.
    pub fn legacy(&self) -> Vec<BigUint> {
        let mut out = self.fields.clone();
        let bits: Vec<bool> = self.chunks.iter().flat_map(|(v, n)| (0..*n as u64).map(move |i| v.bit(i))).collect();
        for c in bits.chunks(254) {
            out.push(c.iter().enumerate().fold(BigUint::from(0u32), |mut s, (i, b)| {
                s.set_bit(i as u64, *b);
                s
            }));
        }
        out
    }
}

pub fn ideal(kind: &str, domain: &str, v: &[BigUint]) -> BigUint {
    let f: Vec<Fp> = v.iter().map(|v| Fp::from(ark_ff::BigInteger256::try_from(v.clone()).unwrap())).collect();
    big(mina_hasher_ideal(kind, domain, &f))
}
fn mina_hasher_ideal(kind: &str, domain: &str, f: &[Fp]) -> Fp {
    proof_systems::mina_hasher::ideal(kind, Some(domain), f)
}

fn slot(v: &mut Vals, r: &mut Ro) -> GlobalSlot {
    let (n, per) = (v.u32(), v.u32());
    r.num(n, 32);
    r.num(per, 32);
    GlobalSlot { slot_number: GlobalSlotNumber(n), slots_per_epoch: Length(per) }
}

/// Seed, start, length, ledger, lock.
fn epoch(v: &mut Vals, r: &mut Ro) -> EpochData {
    let (seed, start, length, ledger, total, lock) = (v.hash(), v.hash(), v.u32(), v.hash(), v.u64(), v.hash());
    r.hash(&seed);
    r.hash(&start);
    r.num(length, 32);
    r.hash(&ledger);
    r.num(total, 64);
    r.hash(&lock);
    EpochData {
        ledger: EpochLedger { hash: hash_of(&ledger), total_currency: Amount(total) },
        seed: seed_of(&seed),
        start_checkpoint: start.into(),
        lock_checkpoint: lock.into(),
        epoch_length: Length(length),
    }
}

pub fn as_fp(h: &[u8; 32]) -> Fp {
    Fp::from(ark_ff::BigInteger256::try_from(BigUint::from_bytes_le(h)).unwrap())
}
pub fn hash_of(h: &[u8; 32]) -> LedgerHash {
    (&as_fp(h)).into()
}
use mina_serialization_types::v1::{Hash2V1, HashV1};
pub fn v1(h: &[u8; 32]) -> HashV1 {
    HashV1::from(*h)
}
pub fn seed_of(h: &[u8; 32]) -> EpochSeed {
    v1(h).into()
}
pub fn coinbase_of(h: &[u8; 32]) -> CoinBaseHash {
    v1(h).into()
}

fn consensus(v: &mut Vals, r: &mut Ro) -> ConsensusState {
    let (len, count, min) = (v.u32(), v.u32(), v.u32());
    for x in [len, count, min] {
        r.num(x, 32);
    }
    let densities: Vec<u32> = (0..11).map(|_| v.u32()).collect();
    for d in &densities {
        r.num(*d, 32);
    }
    // of the 32 bytes of a truncated VRF output, the upper 3 bits of the last are not hashed
    let mut vrf = v.bytes();
    vrf[31] &= 0x1f;
    r.bytes(&vrf[..31]);
    (0..5).for_each(|i| r.bool(vrf[31] >> i & 1 == 1));
    let total = v.u64();
    r.num(total, 64);
    let curr = slot(v, r);
    let since = v.u32();
    r.num(since, 32);
    let (ancestor, supercharge) = (v.bool(), v.bool());
    r.bool(ancestor);
    r.bool(supercharge);
    let staking = epoch(v, r);
    let next = epoch(v, r);
    let keys = [v.key(), v.key(), v.key()];
    keys.iter().for_each(|k| r.key(k));
    let [block_stake_winner, block_creator, coinbase_receiver] = keys;
    ConsensusState {
        blockchain_length: Length(len),
        epoch_count: Length(count),
        min_window_density: Length(min),
        sub_window_densities: densities.into_iter().map(Length).collect(),
        last_vrf_output: VrfOutputTruncated(vrf.to_vec()),
        total_currency: Amount(total),
        curr_global_slot: curr,
        global_slot_since_genesis: GlobalSlotNumber(since),
        staking_epoch_data: staking,
        next_epoch_data: next,
        has_ancestor_in_same_checkpoint_window: ancestor,
        block_stake_winner,
        block_creator,
        coinbase_receiver,
        supercharge_coinbase: supercharge,
    }
}

fn constants(v: &mut Vals, r: &mut Ro) -> ProtocolConstants {
    let (k, delta, per_epoch, per_sub, genesis) = (v.u32(), v.u32(), v.u32(), v.u32(), v.u64());
    for x in [k, delta, per_epoch, per_sub] {
        r.num(x, 32);
    }
    r.num(genesis, 64);
    ProtocolConstants { k: Length(k), delta: Length(delta), slots_per_epoch: Length(per_epoch), slots_per_sub_window: Length(per_sub), genesis_state_timestamp: BlockTime(genesis) }
}

/// The digest of the staged ledger's hashes, bit by bit, then the pending coinbase's.
fn staged(v: &mut Vals, r: &mut Ro) -> StagedLedgerHash {
    let (ledger, aux, pending_aux, pending) = (v.hash(), v.bytes(), v.bytes(), v.hash());
    let mut m: Vec<u8> = ledger.iter().rev().cloned().collect();
    m.extend(aux);
    m.extend(pending_aux);
    r.bytes(&hashes::sha256(&m));
    r.hash(&pending);
    StagedLedgerHash {
        non_snark: NonSnarkStagedLedgerHash { ledger_hash: hash_of(&ledger), aux_hash: AuxHash(aux.to_vec()), pending_coinbase_aux: PendingCoinbaseAuxHash(pending_aux.to_vec()) },
        pending_coinbase_hash: coinbase_of(&pending),
    }
}

fn legacy_state(v: &mut Vals) -> (ProtocolStateLegacy, BigUint) {
    let mut r = Ro::default();
    let constants = constants(v, &mut r);
    let genesis = v.hash();
    r.hash(&genesis);
    let staged_ledger_hash = staged(v, &mut r);
    let (snarked, ledger, token, time) = (v.hash(), v.hash(), v.u64(), v.u64());
    r.hash(&snarked);
    r.hash(&ledger);
    r.num(token, 64);
    r.num(time, 64);
    let consensus_state = consensus(v, &mut r);
    let previous = v.hash();
    let body_hash = ideal("legacy", "CodaProtoStateBody", &r.legacy());
    let state_hash = ideal("legacy", "CodaProtoState", &[BigUint::from_bytes_le(&previous), body_hash]);
    let state = ProtocolStateLegacy {
        previous_state_hash: previous.into(),
        body: ProtocolStateBodyLegacy {
            genesis_state_hash: genesis.into(),
            blockchain_state: BlockchainStateLegacy { staged_ledger_hash, snarked_ledger_hash: hash_of(&snarked), genesis_ledger_hash: hash_of(&ledger), snarked_next_available_token: TokenId(token), timestamp: BlockTime(time) },
            consensus_state,
            constants,
        },
    };
    (state, state_hash)
}

fn kimchi_state(v: &mut Vals) -> (ProtocolState, BigUint) {
    let mut r = Ro::default();
    let constants = constants(v, &mut r);
    let genesis = v.hash();
    r.hash(&genesis);
    let staged_ledger_hash = staged(v, &mut r);
    let (ledger, snarked) = (v.hash(), v.hash());
    r.hash(&ledger);
    r.hash(&snarked);
    let parts = [v.hash(), v.hash(), v.hash(), v.hash()];
    parts.iter().for_each(|p| r.hash(p));
    let (token, excess, positive, local_ledger, party, success) = (v.u64(), v.u64(), v.bool(), v.hash(), v.u32(), v.bool());
    r.field(token);
    r.num(excess, 64);
    r.bool(positive);
    r.hash(&local_ledger);
    r.num(party, 32);
    r.bool(success);
    let (time, body_reference) = (v.u64(), v.bytes());
    r.num(time, 64);
    r.bytes(&body_reference);
    let consensus_state = consensus(v, &mut r);
    let previous = v.hash();
    let body_hash = ideal("kimchi", "CodaProtoStateBody", &r.kimchi());
    let state_hash = ideal("kimchi", "CodaProtoState", &[BigUint::from_bytes_le(&previous), body_hash]);
    let f = |i: usize| Field::from(parts[i]);
    let state = ProtocolState {
        previous_state_hash: previous.into(),
        body: ProtocolStateBody {
            genesis_state_hash: genesis.into(),
            blockchain_state: BlockchainState {
                staged_ledger_hash,
                genesis_ledger_hash: hash_of(&ledger),
                registers: BlockchainStateRegisters {
                    ledger: hash_of(&snarked),
                    pending_coinbase_stack: (),
                    local_state: BlockchainStateRegistersLocalState {
                        stack_frame: f(0),
                        call_stack: f(1),
                        transaction_commitment: f(2),
                        full_transaction_commitment: f(3),
                        token_id: TokenId(token),
                        excess: SignedAmount(excess, positive),
                        ledger: hash_of(&local_ledger),
                        success,
                        party_index: MinaIndex(party),
                        failure_status_tbl: vec![],
                    },
                },
                timestamp: BlockTime(time),
                body_reference: BodyReference(body_reference),
            },
            consensus_state,
            constants,
        },
    };
    (state, state_hash)
}

fn auth(v: &mut Vals, r: &mut Ro) -> AuthRequired {
    // constant, signature necessary, signature sufficient
    let (a, bits) = match v.pick(6) {
        0 => (AuthRequired::None, [1, 0, 1u32]),
        1 => (AuthRequired::Either, [0, 0, 1]),
        2 => (AuthRequired::Proof, [0, 0, 0]),
        3 => (AuthRequired::Signature, [0, 1, 1]),
        4 => (AuthRequired::Both, [0, 1, 0]),
        _ => (AuthRequired::Impossible, [1, 1, 0]),
    };
    bits.iter().for_each(|b| r.num(*b, 1));
    a
}

fn permissions(v: &mut Vals, r: &mut Ro) -> Permissions {
    let mut a = || auth(v, r);
    Permissions {
        edit_state: a(),
        send: a(),
        receive: a(),
        set_delegate: a(),
        set_permissions: a(),
        set_verification_key: a(),
        set_zkapp_uri: a(),
        edit_sequence_state: a(),
        set_token_symbol: a(),
        increment_nonce: a(),
        set_voting_for: a(),
    }
}

/// Times are slots: numbers of 32 bits.
fn timing(v: &mut Vals, r: &mut Ro) -> Timing {
    let timed = v.pick(2) == 1;
    let (initial, cliff_time, cliff, period, increment) = (v.u64(), v.u32(), v.u64(), v.u32(), v.u64());
    r.bool(timed);
    if timed {
        for (n, bits) in [(initial, 64), (cliff_time as u64, 32), (cliff, 64), (period as u64, 32), (increment, 64)] {
            r.num(n, bits);
        }
        Timing::Timed(timing::TimedData { initial_minimum_balance: Amount(initial), cliff_time: BlockTime(cliff_time as u64), cliff_amount: Amount(cliff), vesting_period: BlockTime(period as u64), vesting_increment: Amount(increment) })
    } else {
        for (n, bits) in [(0u32, 64), (0, 32), (0, 64), (1, 32), (0, 64)] {
            r.num(n, bits);
        }
        Timing::Untimed
    }
}
use mina_rs_base::account::timing;

/// The default account's zkapp state, as the protocol fixes it.
fn zkapp() -> (BigUint, BigUint) {
    let p = |s: &str| s.parse::<BigUint>().unwrap();
    let mut r = Ro::default();
    for _ in 0..5 {
        r.field(p("12935064460869035604753254773225484359407575580289870070671311469994328713165"));
    }
    r.field(p("15836741414052211301983886193856353162526040956490609761139212467629447291325"));
    for _ in 0..8 {
        r.field(0u32);
    }
    for bits in [1, 32, 32] {
        r.num(0u32, bits);
    }
    let mut uri = Ro::default();
    uri.num(1u32, 1);
    (ideal("kimchi", "CodaZkappAccount", &r.kimchi()), ideal("kimchi", "MinaZkappUri", &uri.kimchi()))
}

fn account(v: &mut Vals, zk: &(BigUint, BigUint)) -> (Account, Ro) {
    let mut r = Ro::default();
    r.field(zk.1.clone());
    r.field(zk.0.clone());
    let permissions = permissions(v, &mut r);
    let timing = timing(v, &mut r);
    let voting = v.hash();
    r.hash(&voting);
    let delegate = if v.pick(2) == 0 { Some(v.key()) } else { v.key(); None };
    match &delegate {
        Some(k) => r.key(k),
        None => {
            r.field(0u32);
            r.bool(false);
        }
    }
    let (receipt, nonce, balance, symbol) = (v.hash(), v.u32(), v.u64(), v.u64() >> 16);
    r.hash(&receipt);
    r.num(nonce, 32);
    r.num(balance, 64);
    r.num(symbol, 48);
    let mut text = [0; 32];
    text[..6].copy_from_slice(&symbol.to_le_bytes()[..6]);
    let (owner, disabled) = (v.bool(), v.bool());
    r.num(owner as u32 + 2 * disabled as u32, 2);
    let token = v.u64();
    r.field(token);
    let public_key = v.key();
    r.key(&public_key);
    let a = Account {
        public_key,
        token_id: TokenId(token),
        balance: Amount(balance),
        token_permissions: if owner { TokenPermissions::TokenOwned { disable_new_accounts: disabled } } else { TokenPermissions::NotOwned { account_disabled: disabled } },
        token_symbol: text.into(),
        nonce: AccountNonce(nonce),
        receipt_chain_hash: receipt.into(),
        delegate,
        voting_for: voting.into(),
        timing,
        permissions,
        zkapp: None,
        zkapp_uri: None,
    };
    (a, r)
}

pub fn arity(f: impl Fn(&mut Vals)) -> Vec<u8> {
    let mut v = Vals::new(&[]);
    f(&mut v);
    v.arity
}

pub fn c27(ctx: &Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    ctx.bound(format!("every member of a protocol state (old and new) and of an account over 5 significant values (all variants for enumerations), varied up to {k} members at a time from 5 bases; all values of the 11 permissions one and two at a time"));
    ctx.assume("Poseidon is replaced by an ideal hash; hash members are field elements, VRF outputs and auxiliary hashes have 32 bytes, token symbols 6, slots of vesting schedules fit 32 bits; zkapp members are not in use (the crate supports their defaults only)");
    let a = arity(|v| {
        legacy_state(v);
    });
    let seen = Distinct::new();
    vary(ctx, "protocol state (legacy)", &a, k, |c| {
        let (s, want) = legacy_state(&mut Vals::new(c));
        let say = || format!("state hash of {s:?}");
        let got = guarded(&say, || (big(s.state_hash_fp()), big(ProtocolStateHeader::state_hash_fp(&s)), s.state_hash()));
        let h: StateHash = le32(&want).into();
        ctx.check(got == Outcome::Done((want.clone(), want.clone(), h)), || format!("{}: {got:?}, expected {want}", say()));
        unique(ctx, &seen, &want, c, &say);
    });
    let a = arity(|v| {
        kimchi_state(v);
    });
    let seen = Distinct::new();
    vary(ctx, "protocol state", &a, k, |c| {
        let (s, want) = kimchi_state(&mut Vals::new(c));
        let say = || format!("state hash of {s:?}");
        let got = guarded(&say, || (big(s.state_hash_fp()), big(ProtocolStateHeader::state_hash_fp(&s)), s.state_hash()));
        let h: StateHash = le32(&want).into();
        ctx.check(got == Outcome::Done((want.clone(), want.clone(), h)), || format!("{}: {got:?}, expected {want}", say()));
        unique(ctx, &seen, &want, c, &say);
    });
    let zk = zkapp();
    let a = arity(|v| {
        account(v, &zk);
    });
    let seen = Distinct::new();
    vary(ctx, "account", &a, k, |c| {
        let (acc, r) = account(&mut Vals::new(c), &zk);
        let say = || format!("hash of {acc:?}");
        let want = r.kimchi();
        let got = guarded(&say, || {
            let i = acc.to_chunked_roinput();
            let roi: ROInput = Hashable::to_roinput(&acc);
            (i.fields.into_iter().map(big).collect::<Vec<_>>(), i.packed.into_iter().map(|(f, n)| (big(f), n)).collect::<Vec<_>>(), roi.to_fields().into_iter().map(big).collect::<Vec<_>>())
        });
        ctx.check(got == Outcome::Done((r.fields.clone(), r.chunks.clone(), want.clone())), || format!("{}: {got:?}, expected fields {:?}, chunks {:?}", say(), r.fields, r.chunks));
        // untimed accounts and such without delegate have members that do not exist; the empty key
        // stands for no delegate
        let mut shown = acc.clone();
        shown.delegate = shown.delegate.filter(|k| *k != CompressedPubKey { x: as_fp(&[0; 32]), is_odd: false });
        let mut thing = format!("{shown:?}").into_bytes();
        thing.truncate(4000);
        if let Some(other) = seen.clash(format!("{want:?}").as_bytes(), &thing) {
            ctx.violate(|| format!("{} equals that of {}", say(), String::from_utf8_lossy(&other)));
        }
    });
    ctx.check(Account::domain_string(()) == Some("CodaAccount".into()), || "domain of accounts".into());
    // slots beyond 32 bits
    let t = |cliff: u64, period: u64| timing::TimedData { initial_minimum_balance: Amount(1), cliff_time: BlockTime(cliff), cliff_amount: Amount(2), vesting_period: BlockTime(period), vesting_increment: Amount(3) };
    for k in 32..64 {
        for (x, y) in [(t(5, 6), t(5 + (1 << k), 6)), (t(5, 6), t(5, 6 + (1 << k)))] {
            ctx.add(1, 2, 1);
            if x.to_chunked_roinput() == y.to_chunked_roinput() && !ctx.known_finding("slot-above-32-bits", || format!("{x:?} and {y:?} are hashed alike")) {
                ctx.violate(|| format!("{x:?} and {y:?} are hashed alike"));
            }
        }
    }
    let _ = Hash2V1::from([0; 32]);
    ctx.sample(|| format!("{} members of a legacy state, {} of a state", arity(|v| { legacy_state(v); }).len(), arity(|v| { kimchi_state(v); }).len()));
}

fn unique(ctx: &Ctx, seen: &Distinct, hash: &BigUint, c: &[u8], say: &dyn Fn() -> String) {
    if let Some(other) = seen.clash(&le32(hash), c) {
        ctx.violate(|| format!("{} equals that of the state with members {other:?} (this one {c:?})", say()));
    }
}
