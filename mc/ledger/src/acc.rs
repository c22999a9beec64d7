//! The bytes of accounts as Mina's ledger databases hold them, stated independently of the
//! repository (and checked against every account of the two databases in its test data).
use mc_core::Chooser;
use mina_rs_base::account::*;
use mina_serialization_types::v1::HashV1;

pub type Key = ([u8; 32], bool);

/// What an account says.
#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub pk: Key,
    pub token: [u8; 32],
    /// (owns the token, flag)
    pub perms: (bool, bool),
    pub symbol: Vec<u8>,
    pub balance: u64,
    pub nonce: u64,
    pub receipt: [u8; 32],
    pub delegate: Option<Key>,
    pub voting: [u8; 32],
    /// initial minimum balance, cliff time, cliff amount, vesting period, vesting increment
    pub timing: Option<[u64; 5]>,
    pub stake: bool,
    pub auth: Vec<u8>,
}

pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let (a, b) = (self.0.get(..n)?, self.0.get(n..)?);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn b32(&mut self) -> Option<[u8; 32]> {
        self.take(32)?.try_into().ok()
    }
    fn flag(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn ones(&mut self, n: usize) -> Option<()> {
        self.take(n)?.iter().all(|b| *b == 1).then_some(())
    }
    fn key(&mut self) -> Option<Key> {
        Some((self.b32()?, self.flag()?))
    }
    fn int(&mut self) -> Option<u64> {
        let le = |b: &[u8]| b.iter().rev().fold(0, |a, x| a << 8 | *x as u64);
        match self.u8()? {
            b @ 0..=0x7f => Some(b as u64),
            0xfe => self.take(2).map(le),
            0xfd => self.take(4).map(le),
            0xfc => self.take(8).map(le),
            _ => None,
        }
    }
}
pub fn int(o: &mut Vec<u8>, v: u64) {
    let b = v.to_le_bytes();
    match v {
        0..=0x7f => o.push(b[0]),
        0x80..=0x7fff => {
            o.push(0xfe);
            o.extend(&b[..2])
        }
        0x8000..=0x7fff_ffff => {
            o.push(0xfd);
            o.extend(&b[..4])
        }
        _ => {
            o.push(0xfc);
            o.extend(&b)
        }
    }
}
fn key(o: &mut Vec<u8>, k: &Key) {
    o.extend(k.0);
    o.push(k.1 as u8);
}
fn ones(o: &mut Vec<u8>, n: usize) {
    o.extend(std::iter::repeat(1).take(n));
}
pub fn small(v: u64) -> [u8; 32] {
    let mut o = [0; 32];
    o[..8].copy_from_slice(&v.to_le_bytes());
    o
}
fn num(b: &[u8; 32]) -> u64 {
    u64::from_le_bytes(b[..8].try_into().unwrap())
}

/// One of the two forms.
pub trait Form: 'static {
    const NAME: &'static str;
    type Account;
    fn enc(a: &Acc) -> Vec<u8>;
    fn dec(b: &[u8]) -> Option<Acc>;
    fn told(a: &Self::Account) -> Acc;
    /// The account for some choices; the token is the default one unless `tokens`.
    fn build(ch: &mut Chooser, tokens: bool) -> Acc;
}

/// Accounts of the first main net.
pub struct V1;
/// Accounts of the test net the repository calls Berkeley.
pub struct V0;

impl Form for V1 {
    const NAME: &'static str = "main net";
    type Account = AccountLegacy;
    fn enc(a: &Acc) -> Vec<u8> {
        let mut o = vec![];
        ones(&mut o, 6);
        key(&mut o, &a.pk);
        ones(&mut o, 3);
        int(&mut o, num(&a.token));
        // one version; a token's owner comes first
        o.extend([1, !a.perms.0 as u8, a.perms.1 as u8]);
        ones(&mut o, 3);
        int(&mut o, a.balance);
        ones(&mut o, 2);
        int(&mut o, a.nonce);
        o.push(1);
        o.extend(a.receipt);
        o.push(a.delegate.is_some() as u8);
        if let Some(d) = &a.delegate {
            ones(&mut o, 2);
            key(&mut o, d);
        }
        o.push(1);
        o.extend(a.voting);
        ones(&mut o, 2);
        o.push(a.timing.is_some() as u8);
        if let Some([min, cliff, amount, period, inc]) = a.timing {
            ones(&mut o, 3);
            int(&mut o, min);
            for v in [cliff, amount, period, inc] {
                ones(&mut o, 2);
                int(&mut o, v);
            }
        }
        ones(&mut o, 2);
        o.push(a.stake as u8);
        for x in &a.auth {
            o.extend([1, *x]);
        }
        o.push(0);
        o
    }
    fn dec(b: &[u8]) -> Option<Acc> {
        let mut r = R(b);
        r.ones(6)?;
        let pk = r.key()?;
        r.ones(3)?;
        let token = small(r.int()?);
        r.ones(1)?;
        let perms = (!r.flag()?, r.flag()?);
        r.ones(3)?;
        let balance = r.int()?;
        r.ones(2)?;
        let nonce = r.int()?;
        r.ones(1)?;
        let receipt = r.b32()?;
        let delegate = if r.flag()? {
            r.ones(2)?;
            Some(r.key()?)
        } else {
            None
        };
        r.ones(1)?;
        let voting = r.b32()?;
        r.ones(2)?;
        let timing = if r.flag()? {
            let mut t = [0; 5];
            for (i, x) in t.iter_mut().enumerate() {
                r.ones(if i == 0 { 3 } else { 2 })?;
                *x = r.int()?;
            }
            Some(t)
        } else {
            None
        };
        r.ones(2)?;
        let stake = r.flag()?;
        let mut auth = vec![];
        for _ in 0..6 {
            r.ones(1)?;
            auth.push(r.u8()?);
        }
        (r.u8()? == 0 && r.0.is_empty()).then_some(Acc { pk, token, perms, symbol: vec![], balance, nonce, receipt, delegate, voting, timing, stake, auth })
    }
    fn told(a: &AccountLegacy) -> Acc {
        let p = &a.permissions;
        Acc {
            pk: pk(&a.public_key),
            token: small(a.token_id.0),
            perms: perms(&a.token_permissions),
            symbol: vec![],
            balance: a.balance.0,
            nonce: a.nonce.0 as u64,
            receipt: HashV1::from(a.receipt_chain_hash.clone()).t,
            delegate: a.delegate.as_ref().map(pk),
            voting: a.voting_for.clone().into(),
            timing: timing(&a.timing),
            stake: p.stake,
            auth: [&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key].iter().map(|x| auth(x)).collect(),
        }
    }
    fn build(ch: &mut Chooser, tokens: bool) -> Acc {
        build(ch, 6, tokens, true)
    }
}

impl Form for V0 {
    const NAME: &'static str = "Berkeley";
    type Account = Account;
    fn enc(a: &Acc) -> Vec<u8> {
        let mut o = vec![];
        key(&mut o, &a.pk);
        o.extend(a.token);
        o.extend([!a.perms.0 as u8, a.perms.1 as u8]);
        int(&mut o, a.symbol.len() as u64);
        o.extend(&a.symbol);
        int(&mut o, a.balance);
        int(&mut o, a.nonce);
        o.extend(a.receipt);
        o.push(a.delegate.is_some() as u8);
        if let Some(d) = &a.delegate {
            key(&mut o, d);
        }
        o.extend(a.voting);
        o.push(a.timing.is_some() as u8);
        for v in a.timing.iter().flatten() {
            int(&mut o, *v);
        }
        o.extend(&a.auth);
        o.extend([0, 0]);
        o
    }
    fn dec(b: &[u8]) -> Option<Acc> {
        let mut r = R(b);
        let (pk, token) = (r.key()?, r.b32()?);
        let perms = (!r.flag()?, r.flag()?);
        let n = r.int()?;
        let symbol = r.take(n as usize)?.to_vec();
        let (balance, nonce, receipt) = (r.int()?, r.int()?, r.b32()?);
        let delegate = if r.flag()? { Some(r.key()?) } else { None };
        let voting = r.b32()?;
        let timing = if r.flag()? { Some([r.int()?, r.int()?, r.int()?, r.int()?, r.int()?]) } else { None };
        let auth = r.take(11)?.to_vec();
        (r.0 == [0, 0]).then_some(Acc { pk, token, perms, symbol, balance, nonce, receipt, delegate, voting, timing, stake: false, auth })
    }
    fn told(a: &Account) -> Acc {
        let p = &a.permissions;
        // as many characters as a symbol has
        let mut symbol = <[u8; 32]>::from(a.token_symbol.clone())[..6].to_vec();
        while symbol.last() == Some(&0) {
            symbol.pop();
        }
        Acc {
            pk: pk(&a.public_key),
            token: small(a.token_id.0),
            perms: perms(&a.token_permissions),
            symbol,
            balance: a.balance.0,
            nonce: a.nonce.0 as u64,
            receipt: HashV1::from(a.receipt_chain_hash.clone()).t,
            delegate: a.delegate.as_ref().map(pk),
            voting: a.voting_for.clone().into(),
            timing: timing(&a.timing),
            stake: false,
            auth: [
                &p.edit_state,
                &p.send,
                &p.receive,
                &p.set_delegate,
                &p.set_permissions,
                &p.set_verification_key,
                &p.set_zkapp_uri,
                &p.edit_sequence_state,
                &p.set_token_symbol,
                &p.increment_nonce,
                &p.set_voting_for,
            ]
            .iter()
            .map(|x| auth(x))
            .collect(),
        }
    }
    fn build(ch: &mut Chooser, tokens: bool) -> Acc {
        build(ch, 11, tokens, false)
    }
}

fn pk(k: &proof_systems::mina_signer::CompressedPubKey) -> Key {
    let b: ark_ff::BigInteger256 = k.x.into();
    let mut o = [0; 32];
    let n = num::BigUint::from(b).to_bytes_le();
    o[..n.len()].copy_from_slice(&n);
    (o, k.is_odd)
}
fn perms(p: &TokenPermissions) -> (bool, bool) {
    match p {
        TokenPermissions::TokenOwned { disable_new_accounts: f } => (true, *f),
        TokenPermissions::NotOwned { account_disabled: f } => (false, *f),
    }
}
fn timing(t: &Timing) -> Option<[u64; 5]> {
    match t {
        Timing::Untimed => None,
        Timing::Timed(t) => Some([t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0]),
    }
}
fn auth(a: &AuthRequired) -> u8 {
    match a {
        AuthRequired::None => 0,
        AuthRequired::Either => 1,
        AuthRequired::Proof => 2,
        AuthRequired::Signature => 3,
        AuthRequired::Both => 4,
        AuthRequired::Impossible => 5,
    }
}

/// p - 1 for the field of hashes and keys.
pub fn largest() -> [u8; 32] {
    let p = num::BigUint::parse_bytes(b"28948022309329048855892746252171976963363056481941560715954676764349967630336", 10).unwrap();
    p.to_bytes_le().try_into().unwrap()
}

fn build(ch: &mut Chooser, auths: usize, tokens: bool, stake: bool) -> Acc {
    // the first value of a member occurs in no other member
    let mut tag = 0u64;
    let mut fresh = || {
        tag += 1;
        tag
    };
    let mut b32 = |ch: &mut Chooser| {
        let t = fresh();
        match ch.deviate(4) {
            0 => {
                let mut o = [0x11 * t as u8; 32];
                o[31] = t as u8;
                o
            }
            1 => [0; 32],
            2 => small(1),
            _ => largest(),
        }
    };
    let mut seen = 0u64;
    let mut int = |ch: &mut Chooser, wide: bool| {
        seen += 1;
        let n = [0x40 + seen, 0, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000, (1 << 63) - 1, 0xfe, 0xff];
        n[ch.deviate(if wide { 12 } else { 8 })]
    };
    let key = |ch: &mut Chooser, b: [u8; 32]| (b, ch.deviate(2) == 1);
    let b = b32(ch);
    let pk = key(ch, b);
    let b = b32(ch);
    let delegate = match ch.deviate(2) {
        0 => Some(key(ch, b)),
        _ => None,
    };
    let (receipt, voting) = (b32(ch), b32(ch));
    let (balance, nonce) = (int(ch, true), int(ch, false));
    let timing = match ch.deviate(2) {
        0 => {
            // slots are 32-bit numbers
            let t = [int(ch, true), int(ch, false), int(ch, true), int(ch, false), int(ch, true)];
            Some(t)
        }
        _ => None,
    };
    let (mut token, mut perms, mut symbol) = (small(1), (false, false), vec![]);
    if tokens {
        token = small(int(ch, true));
        perms = (ch.deviate(2) == 1, ch.deviate(2) == 1);
        if !stake {
            symbol = [&b""[..], b"A", b"MINA", b"TOKENS"][ch.deviate(4)].to_vec();
        }
    }
    let stake = stake && ch.deviate(2) == 0;
    let auth = (0..auths).map(|i| ((ch.deviate(6) + i) % 6) as u8).collect();
    Acc { pk, token, perms, symbol, balance, nonce, receipt, delegate, voting, timing, stake, auth }
}
