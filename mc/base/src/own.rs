//! C34: the types blocks and accounts are worked with, against the ones they are sent and stored in.
use crate::leaves::*;
use mc_core::*;
use mina_rs_base::account::permissions::*;
use mina_rs_base::account::timing::*;
use mina_rs_base::account::*;
use mina_rs_base::staged_ledger_diff::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::StakeDelegation;
use mina_rs_base::user_commands::*;
use mina_rs_base::BinProtSerializationType;
use mina_serialization_types::account::{AccountV0, AccountV1};
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::{ExternalTransitionV1, HashV1};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use std::collections::BTreeMap;

/// What is at a place of a value.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Said {
    Number(u64),
    Flag(bool),
    Bytes(Vec<u8>),
    /// length of a list, index of a variant, presence of an option
    Shape(usize),
}
use Said::*;

type Told = BTreeMap<String, Said>;

/// Proofs are only looked at as a whole.
fn opaque(p: &[Part]) -> bool {
    p.iter().any(|c| matches!(c, Part::Name("protocol_state_proof" | "transaction_snark_proof" | "validation_callback")))
}

fn key(p: &[Part]) -> String {
    let mut s = String::new();
    for c in p {
        match c {
            Part::Inner | Part::Name("version") => continue,
            Part::Name("?") => continue,
            Part::Name(n) => s.push_str(n),
            Part::Item(i) | Part::Of(i, _) | Part::Payload(i) => s.push_str(&i.to_string()),
        }
        s.push('/');
    }
    s
}

/// What a serializable value says.
fn of_leaves(leaves: &[(Path, Leaf)]) -> Told {
    let mut t = Told::new();
    for (p, l) in leaves {
        if opaque(p) {
            continue;
        }
        match l {
            Leaf::Uint(n, 8) => match t.entry(key(&p[..p.len() - 1])).or_insert(Bytes(vec![])) {
                Bytes(b) => b.push(*n as u8),
                other => *other = Bytes(vec![*n as u8]),
            },
            Leaf::Uint(n, _) => drop(t.insert(key(p), Number(*n))),
            Leaf::Int(n, _) => drop(t.insert(key(p), Number(*n as u32 as u64))),
            Leaf::Bool(b) => drop(t.insert(key(p), Flag(*b))),
            Leaf::Some(b) => drop(t.insert(key(p) + "?", Shape(*b as usize))),
            Leaf::Variant(i, n) if *n > 1 => drop(t.insert(key(p) + "|", Shape(*i as usize))),
            Leaf::Len(n) => drop(t.insert(key(p) + "#", Shape(*n))),
            _ => (),
        }
    }
    t
}

/// Tells what a value has at the places of the serializable one.
struct Teller(Told, String);

impl Teller {
    fn at(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        let n = self.1.len();
        self.1.push_str(name);
        self.1.push('/');
        f(self);
        self.1.truncate(n);
    }
    fn put(&mut self, suffix: &str, s: Said) {
        self.0.insert(format!("{}{suffix}", self.1), s);
    }
    fn list<T>(&mut self, l: &[T], f: impl Fn(&mut Self, &T)) {
        self.put("#", Shape(l.len()));
        for (i, x) in l.iter().enumerate() {
            self.at(&i.to_string(), |t| f(t, x));
        }
    }
    fn option<T>(&mut self, o: &Option<T>, f: impl FnOnce(&mut Self, &T)) {
        self.put("?", Shape(o.is_some() as usize));
        if let Some(x) = o {
            f(self, x);
        }
    }
    fn bytes(&mut self, b: &[u8]) {
        self.put("#", Shape(b.len()));
        if !b.is_empty() {
            self.put("", Bytes(b.to_vec()));
        }
    }
}

/// One member after the other.
macro_rules! members {
    ($t:expr, $v:expr, $($name:ident: $how:expr),* $(,)?) => {{ $( $t.at(stringify!($name), |t| $how(t, &$v.$name)); )* }};
}

fn number<T: Copy + Into<u64>>(t: &mut Teller, n: &T) {
    t.put("", Number((*n).into()));
}
macro_rules! numbers {
    ($($f:ident $t:ty),* $(,)?) => { $( fn $f(t: &mut Teller, n: &$t) { t.put("", Number(n.0 as u64)); } )* };
}
numbers!(length Length, amount Amount, token TokenId, nonce AccountNonce, slot GlobalSlotNumber, time BlockTime);
fn flag(t: &mut Teller, b: &bool) {
    t.put("", Flag(*b));
}
fn hash<T: Clone + Into<HashV1>>(t: &mut Teller, h: &T) {
    let h: HashV1 = h.clone().into();
    t.put("", Bytes(h.t.to_vec()));
}
fn public_key(t: &mut Teller, k: &CompressedPubKey) {
    t.at("x", |t| t.put("", Bytes(k.x.to_bytes())));
    t.at("is_odd", |t| flag(t, &k.is_odd));
}

fn block(b: &ExternalTransition) -> Told {
    let mut t = Teller(Told::new(), String::new());
    members!(t, b,
        protocol_state: |t: &mut Teller, s: &ProtocolStateLegacy| members!(t, s, previous_state_hash: hash, body: body),
        staged_ledger_diff: |t: &mut Teller, d: &StagedLedgerDiff| t.at("diff", |t| {
            t.at("0", |t| diff(t, d.diff.diff_two()));
            t.at("1", |t| t.option(d.diff.diff_one(), diff));
        }),
        delta_transition_chain_proof: |t: &mut Teller, p: &DeltaTransitionChainProof| {
            t.at("0", |t| hash(t, &p.0));
            t.at("1", |t| t.list(&p.1, hash));
        },
        current_protocol_version: version,
        proposed_protocol_version_opt: |t: &mut Teller, v: &Option<ProtocolVersion>| t.option(v, version),
    );
    t.0
}

fn version(t: &mut Teller, v: &ProtocolVersion) {
    members!(t, v, major: number, minor: number, patch: number);
}

fn body(t: &mut Teller, b: &ProtocolStateBodyLegacy) {
    members!(t, b,
        genesis_state_hash: hash,
        blockchain_state: |t: &mut Teller, s: &BlockchainStateLegacy| members!(t, s,
            staged_ledger_hash: |t: &mut Teller, h: &mina_crypto::hash::StagedLedgerHash| members!(t, h,
                non_snark: |t: &mut Teller, n: &mina_crypto::hash::NonSnarkStagedLedgerHash| members!(t, n,
                    ledger_hash: hash,
                    aux_hash: |t: &mut Teller, b: &mina_crypto::hash::AuxHash| t.bytes(&b.0),
                    pending_coinbase_aux: |t: &mut Teller, b: &mina_crypto::hash::PendingCoinbaseAuxHash| t.bytes(&b.0),
                ),
                pending_coinbase_hash: hash,
            ),
            snarked_ledger_hash: hash,
            genesis_ledger_hash: hash,
            snarked_next_available_token: token,
            timestamp: time,
        ),
        consensus_state: consensus,
        constants: |t: &mut Teller, c: &ProtocolConstants| members!(t, c,
            k: length, slots_per_epoch: length, slots_per_sub_window: length, delta: length, genesis_state_timestamp: time),
    );
}

fn consensus(t: &mut Teller, c: &ConsensusState) {
    members!(t, c,
        blockchain_length: length,
        epoch_count: length,
        min_window_density: length,
        sub_window_densities: |t: &mut Teller, l: &Vec<Length>| t.list(l, length),
        last_vrf_output: |t: &mut Teller, v: &VrfOutputTruncated| t.bytes(&v.0),
        total_currency: amount,
        curr_global_slot: |t: &mut Teller, s: &GlobalSlot| members!(t, s, slot_number: slot, slots_per_epoch: length),
        global_slot_since_genesis: slot,
        staking_epoch_data: epoch,
        next_epoch_data: epoch,
        has_ancestor_in_same_checkpoint_window: flag,
        block_stake_winner: public_key,
        block_creator: public_key,
        coinbase_receiver: public_key,
        supercharge_coinbase: flag,
    );
}

fn epoch(t: &mut Teller, e: &EpochData) {
    members!(t, e,
        ledger: |t: &mut Teller, l: &EpochLedger| members!(t, l, hash: hash, total_currency: amount),
        seed: hash,
        start_checkpoint: hash,
        lock_checkpoint: hash,
        epoch_length: length,
    );
}

fn diff(t: &mut Teller, d: &StagedLedgerPreDiff) {
    members!(t, d,
        completed_works: |t: &mut Teller, l: &Vec<TransactionSnarkWork>| t.list(l, work),
        commands: |t: &mut Teller, l: &Vec<UserCommandWithStatus>| t.list(l, |t, c| members!(t, c, data: command, status: status)),
        coinbase: |t: &mut Teller, c: &CoinBase| match c {
            CoinBase::Zero => t.put("|", Shape(0)),
            CoinBase::One(a) => {
                t.put("|", Shape(1));
                t.at("0", |t| t.option(a, transfer));
            }
            CoinBase::Two(a, b) => {
                t.put("|", Shape(2));
                t.at("0", |t| t.option(a, transfer));
                t.at("1", |t| t.option(b, transfer));
            }
        },
        internal_command_balances: |t: &mut Teller, l: &Vec<InternalCommandBalanceData>| t.list(l, |t, i| match i {
            InternalCommandBalanceData::CoinBase(b) => {
                t.put("|", Shape(0));
                t.at("0", |t| members!(t, b, coinbase_receiver_balance: amount, fee_transfer_receiver_balance: maybe))
            }
            InternalCommandBalanceData::FeeTransfer(b) => {
                t.put("|", Shape(1));
                t.at("0", |t| members!(t, b, receiver1_balance: amount, receiver2_balance: maybe))
            }
        }),
    );
}

fn maybe(t: &mut Teller, a: &Option<Amount>) {
    t.option(a, amount);
}

fn transfer(t: &mut Teller, f: &CoinBaseFeeTransfer) {
    members!(t, f, receiver_pk: public_key, fee: amount);
}

fn work(t: &mut Teller, w: &TransactionSnarkWork) {
    members!(t, w,
        fee: amount,
        proofs: |t: &mut Teller, p: &OneORTwo| match p {
            OneORTwo::One(a) => {
                t.put("|", Shape(0));
                t.at("0", |t| members!(t, a, statement: statement));
            }
            OneORTwo::Two(a, b) => {
                t.put("|", Shape(1));
                t.at("0", |t| members!(t, a, statement: statement));
                t.at("1", |t| members!(t, b, statement: statement));
            }
        },
        prover: public_key,
    );
}

fn statement(t: &mut Teller, s: &Statement) {
    let pending = |t: &mut Teller, p: &PendingCoinbase| members!(t, p,
        data_stack: hash,
        state_stack: |t: &mut Teller, s: &StateStack| members!(t, s, init: hash, curr: hash),
    );
    let excess = |t: &mut Teller, e: &FeeExcess| members!(t, e,
        token: token,
        amount: |t: &mut Teller, a: &Signed| members!(t, a,
            magnitude: amount,
            sgn: |t: &mut Teller, s: &SgnType| t.put("|", Shape(match s {
                SgnType::Pos => 0,
                SgnType::Neg => 1,
            })),
        ),
    );
    members!(t, s,
        source: hash,
        target: hash,
        supply_increase: amount,
        pending_coinbase_stack_state: |t: &mut Teller, p: &PendingCoinbaseStackState| members!(t, p, source: pending, target: pending),
        fee_excess: |t: &mut Teller, f: &FeeExcessPair| {
            t.at("0", |t| excess(t, &f.0));
            t.at("1", |t| excess(t, &f.1));
        },
        next_available_token_before: token,
        next_available_token_after: token,
        sok_digest: |t: &mut Teller, b: &ByteVec| t.bytes(&b.0),
    );
}

fn command(t: &mut Teller, c: &UserCommand) {
    let UserCommand::SignedCommand(c) = c;
    t.at("0", |t| members!(t, c,
        payload: |t: &mut Teller, p: &SignedCommandPayload| members!(t, p,
            common: |t: &mut Teller, c: &SignedCommandPayloadCommon| members!(t, c,
                fee: amount,
                fee_token: token,
                fee_payer_pk: public_key,
                nonce: nonce,
                valid_until: slot,
                memo: |t: &mut Teller, m: &SignedCommandMemo| t.bytes(&m.0),
            ),
            body: |t: &mut Teller, b: &SignedCommandPayloadBody| match b {
                SignedCommandPayloadBody::PaymentPayload(p) => {
                    t.put("|", Shape(0));
                    t.at("0", |t| members!(t, p, source_pk: public_key, receiver_pk: public_key, token_id: token, amount: amount));
                }
                SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator, new_delegate }) => {
                    t.put("|", Shape(1));
                    t.at("0", |t| t.at("0", |t| {
                        t.at("delegator", |t| public_key(t, delegator));
                        t.at("new_delegate", |t| public_key(t, new_delegate));
                    }));
                }
            },
        ),
        signer: public_key,
        signature: |t: &mut Teller, s: &proof_systems::mina_signer::Signature| {
            t.at("0", |t| t.put("", Bytes(s.rx.to_bytes())));
            t.at("1", |t| t.put("", Bytes(s.s.to_bytes())));
        },
    ));
}

fn status(t: &mut Teller, s: &TransactionStatus) {
    let balances = |t: &mut Teller, b: &TransactionStatusBalanceData| members!(t, b, fee_payer_balance: maybe, source_balance: maybe, receiver_balance: maybe);
    match s {
        TransactionStatus::Applied(a, b) => {
            t.put("|", Shape(0));
            t.at("0", |t| members!(t, a,
                fee_payer_account_creation_fee_paid: maybe,
                receiver_account_creation_fee_paid: maybe,
                created_token: |t: &mut Teller, o: &Option<TokenId>| t.option(o, token),
            ));
            t.at("1", |t| balances(t, b));
        }
        TransactionStatus::Failed(l, b) => {
            use TransactionStatusFailedType::*;
            t.put("|", Shape(1));
            t.at("0", |t| t.list(l, |t, f| t.put("|", Shape(match f {
                Predicate => 0,
                SourceNotPresent => 1,
                ReceiverNotPresent => 2,
                AmountInsufficientToCreateAccount => 3,
                CannotPayCreationFeeInToken => 4,
                SourceInsufficientBalance => 5,
                SourceMinimumBalanceViolation => 6,
                ReceiverAlreadyExists => 7,
                NotTokenOwner => 8,
                MismatchedTokenPermissions => 9,
                Overflow => 10,
                SignedCommandOnSnappAccount => 11,
                SnappAccountNotPresent => 12,
                UpdateNotPermitted => 13,
                IncorrectNonce => 14,
            }))));
            t.at("1", |t| balances(t, b));
        }
    }
}

fn legacy_account(a: &AccountLegacy) -> Told {
    let mut t = Teller(Told::new(), String::new());
    members!(t, a,
        public_key: public_key,
        token_id: token,
        token_permissions: token_permissions,
        balance: amount,
        nonce: nonce,
        receipt_chain_hash: hash,
        delegate: |t: &mut Teller, d: &Option<CompressedPubKey>| t.option(d, public_key),
        voting_for: hash,
        timing: timing,
        permissions: |t: &mut Teller, p: &PermissionsLegacy| members!(t, p,
            stake: flag, edit_state: auth, send: auth, receive: auth, set_delegate: auth, set_permissions: auth, set_verification_key: auth),
        snapp: |t: &mut Teller, o: &Option<()>| t.option(o, |_, _| ()),
    );
    t.0
}

fn account(a: &Account) -> Told {
    let mut t = Teller(Told::new(), String::new());
    members!(t, a,
        public_key: public_key,
        token_id: token,
        token_permissions: token_permissions,
        token_symbol: |t: &mut Teller, s: &TokenSymbol| t.put("", Bytes(<[u8; 32]>::from(s.clone()).to_vec())),
        balance: amount,
        nonce: nonce,
        receipt_chain_hash: hash,
        delegate: |t: &mut Teller, d: &Option<CompressedPubKey>| t.option(d, public_key),
        voting_for: hash,
        timing: timing,
        permissions: |t: &mut Teller, p: &Permissions| members!(t, p,
            edit_state: auth, send: auth, receive: auth, set_delegate: auth, set_permissions: auth, set_verification_key: auth,
            set_zkapp_uri: auth, edit_sequence_state: auth, set_token_symbol: auth, increment_nonce: auth, set_voting_for: auth),
        zkapp: |t: &mut Teller, o: &Option<ZkApp>| t.option(o, |_, _| ()),
        zkapp_uri: |t: &mut Teller, o: &Option<ZkAppUri>| t.option(o, |_, _| ()),
    );
    t.0
}

/// By name, as the order of the alternatives is the stored format's affair.
fn token_permissions(t: &mut Teller, p: &TokenPermissions) {
    match p {
        TokenPermissions::NotOwned { account_disabled } => t.at("0", |t| t.at("account_disabled", |t| flag(t, account_disabled))),
        TokenPermissions::TokenOwned { disable_new_accounts } => t.at("0", |t| t.at("disable_new_accounts", |t| flag(t, disable_new_accounts))),
    }
}

fn timing(t: &mut Teller, x: &Timing) {
    match x {
        Timing::Untimed => t.put("|", Shape(0)),
        Timing::Timed(d) => {
            t.put("|", Shape(1));
            t.at("0", |t| members!(t, d, initial_minimum_balance: amount, cliff_time: time, cliff_amount: amount, vesting_period: time, vesting_increment: amount));
        }
    }
}

fn auth(t: &mut Teller, a: &AuthRequired) {
    t.put("|", Shape(match a {
        AuthRequired::None => 0,
        AuthRequired::Either => 1,
        AuthRequired::Proof => 2,
        AuthRequired::Signature => 3,
        AuthRequired::Both => 4,
        AuthRequired::Impossible => 5,
    }))
}

/// The first place where two tellings differ.
fn first_difference(a: &Told, b: &Told) -> String {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("{k}: {:?} and {:?}", a.get(k), b.get(k));
        }
    }
    String::new()
}

/// One form of a value in which it is sent, and the one in which it is worked with.
trait Form: serde::Serialize + serde::de::DeserializeOwned + Clone + PartialEq + Send + Sync {
    type Own: Clone + From<Self> + Into<Self>;
    const WHAT: &'static str;
    fn told(o: &Self::Own) -> Told;
    /// whatever else there is to compare
    fn more(_: &Self, _: &Self::Own) -> Result<(), String> {
        Ok(())
    }
}

/// The bytes of a value are those of its other form, and so is what is read from them.
fn binprot<'de, T, O>(v: &T, o: &O) -> Result<(), String>
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq,
    O: BinProtSerializationType<'de> + Clone + Into<T>,
{
    let mut bytes = vec![];
    bin_prot::to_writer(&mut bytes, v).map_err(|e| e.to_string())?;
    let own = o.clone().try_into_binprot().map_err(|e| e.to_string())?;
    if own != bytes {
        return Err("is written as other bytes".into());
    }
    let want: Option<T> = bin_prot::from_reader_strict(&bytes[..]).ok();
    let is: Option<T> = O::try_from_binprot(&bytes[..]).ok().map(|o| o.into());
    (is == want).then_some(()).ok_or("is read from its bytes as another".into())
}

impl Form for ExternalTransitionV1 {
    type Own = ExternalTransition;
    const WHAT: &'static str = "block";
    fn told(o: &ExternalTransition) -> Told {
        block(o)
    }
    fn more(v: &Self, o: &ExternalTransition) -> Result<(), String> {
        binprot(v, o)?;
        let j: ExternalTransitionJson = v.clone().into();
        let k: ExternalTransitionJson = o.clone().into();
        if j != k {
            return Err("is another in JSON".into());
        }
        let r: ExternalTransition = k.into();
        let want = ExternalTransition {
            current_protocol_version: r.current_protocol_version.clone(),
            proposed_protocol_version_opt: r.proposed_protocol_version_opt.clone(),
            validation_callback: (),
            ..o.clone()
        };
        if r != want {
            return Err(format!("is another when made from JSON ({})", first_difference(&block(&r), &block(&want))));
        }
        Ok(())
    }
}

impl Form for AccountV1 {
    type Own = AccountLegacy;
    const WHAT: &'static str = "account";
    fn told(o: &AccountLegacy) -> Told {
        legacy_account(o)
    }
    fn more(v: &Self, o: &AccountLegacy) -> Result<(), String> {
        binprot(v, o)
    }
}

impl Form for AccountV0 {
    type Own = Account;
    const WHAT: &'static str = "account of the successor";
    fn told(o: &Account) -> Told {
        account(o)
    }
    fn more(v: &Self, o: &Account) -> Result<(), String> {
        binprot(v, o)
    }
}

/// A value is made into the other form, says the same there, and is made back.
fn same<T: Form>(ctx: &Ctx, v: &T, leaves: &[(Path, Leaf)], what: impl Fn() -> String) {
    let r = guarded(&what, || {
        let o: T::Own = v.clone().into();
        let back: T = o.clone().into();
        let mut want = of_leaves(leaves);
        want.retain(|k, _| k != "token_permissions/|");
        let is = T::told(&o);
        if is != want {
            return Err(format!("says something else ({})", first_difference(&is, &want)));
        }
        if back != *v {
            return Err("is made back into another".into());
        }
        T::more(v, &o)
    });
    ctx.check(r == Outcome::Done(Ok(())), || format!("{} {}: {r:?}", T::WHAT, what()));
}

/// Every leaf and every structure of a value changed.
fn vary<T: Form>(ctx: &Ctx, len: usize, deep: bool) {
    let mut work = vec![(Map::new(), None::<Path>)];
    let mut seen = std::collections::HashSet::new();
    while let Some((map, below)) = work.pop() {
        let name = below.as_ref().map(|p| format!("with {:?} at {}", map.get(p).unwrap(), show(p))).unwrap_or_default();
        let (v, leaves) = build::<T>(&map, len).unwrap();
        same(ctx, &v, &leaves, || name.clone());
        let todo: Vec<_> = leaves.iter().filter(|(p, _)| below.as_ref().map_or(true, |b| p.starts_with(b) && p != b)).collect();
        let next = std::sync::Mutex::new(vec![]);
        par_for(ctx, todo.len(), |i| {
            let (p, l) = todo[i];
            let _e = ctx.enter(|| format!("{} {name}, varied at {}", T::WHAT, show(p)));
            let mut n = 0;
            for o in others(l, p, deep) {
                n += 1;
                let mut m = map.clone();
                m.insert(p.clone(), o.clone());
                let (v, leaves) = build::<T>(&m, len).unwrap();
                same(ctx, &v, &leaves, || format!("{name}, and {o:?} at {}", show(p)));
                if structural(l) && (!matches!(o, Leaf::Len(_) | Leaf::Some(false)) || deep) {
                    next.lock().unwrap().push((m, Some(p.clone())));
                }
            }
            ctx.add(n, n, 3 * n);
        });
        for (m, p) in next.into_inner().unwrap() {
            let q = p.clone().unwrap();
            if seen.insert(format!("{} {:?}", crate::blocks::shape(&q), m.get(&q).unwrap())) {
                work.push((m, p));
            }
        }
    }
}

pub fn c34(ctx: &Ctx) {
    let deep = ctx.thorough();
    ctx.bound("a block with one element in each list, and accounts, and their neighbours: every option, length and variant changed, and every number, flag and byte, also in what the other variants hold");
    ctx.assume("proofs are compared as a whole");
    vary::<AccountV1>(ctx, 1, true);
    vary::<AccountV0>(ctx, 1, true);
    vary::<ExternalTransitionV1>(ctx, 1, deep);
}
