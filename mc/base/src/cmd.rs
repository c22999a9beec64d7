//! C29: signed commands. C30: a block's commands.
use crate::ro::*;
use crate::vals::*;
use mc_core::*;
use mina_rs_base::staged_ledger_diff::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder;
use mina_rs_base::user_commands::signed_command::StakeDelegation;
use mina_rs_base::user_commands::*;
use mina_rs_base::verifiable::Verifiable;
use num::BigUint;
use proof_systems::mina_hasher::{Hashable, ROInput};
use proof_systems::mina_signer::{self, CompressedPubKey, Keypair, NetworkId, Signature};

/// Fields first, then the parts bit by bit.
fn payload(v: &mut Vals) -> (SignedCommandPayload, Ro) {
    let mut r = Ro::default();
    let delegation = v.pick(2) == 1;
    let (payer, source, receiver) = (v.key(), v.key(), v.key());
    let (fee, fee_token, nonce, until) = (v.u64(), v.u64(), v.u32(), v.u32());
    let text = v.bytes();
    let mut memo = vec![1, 32];
    memo.extend_from_slice(&text);
    let (token, amount) = (v.u64(), v.u64());
    for k in [&payer, &source, &receiver] {
        r.field(big(k.x));
    }
    r.num(fee, 64);
    r.num(fee_token, 64);
    r.bool(payer.is_odd);
    r.num(nonce, 32);
    r.num(until, 32);
    r.bytes(&memo);
    r.num(if delegation { 4u32 } else { 0 }, 3);
    r.bool(source.is_odd);
    r.bool(receiver.is_odd);
    r.num(if delegation { 1 } else { token }, 64);
    r.num(if delegation { 0 } else { amount }, 64);
    r.bool(false);
    let common = SignedCommandPayloadCommon {
        fee: Amount(fee),
        fee_token: TokenId(fee_token),
        fee_payer_pk: payer,
        nonce: AccountNonce(nonce),
        valid_until: GlobalSlotNumber(until),
        memo: SignedCommandMemo(memo),
    };
    let body = if delegation {
        SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: source, new_delegate: receiver })
    } else {
        SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: source, receiver_pk: receiver, token_id: TokenId(token), amount: Amount(amount) })
    };
    (SignedCommandPayload { common, body }, r)
}

fn pair(n: u8) -> Keypair {
    Keypair::from_hex(&format!("{:064x}", 0x1234_5678_9abc_def0u64 as u128 * (n as u128 + 1))).unwrap()
}

fn verify(c: &SignedCommand, main: bool) -> bool {
    let mut ctx = mina_signer::create_legacy(if main { NetworkId::MAINNET } else { NetworkId::TESTNET });
    let r = c.verify(&mut ctx);
    let wrapped = UserCommand::SignedCommand(c.clone());
    assert_eq!(wrapped.verify(&mut ctx), r, "UserCommand::verify differs from SignedCommand::verify");
    r
}

/// `make` gives the command whose verification is expected to give `want`.
fn expect(ctx: &Ctx, c: &SignedCommand, main: bool, want: bool, what: &str) {
    let say = || format!("{what} on the {} network: {c:?}", if main { "main" } else { "test" });
    let got = guarded(&say, || verify(c, main));
    ctx.check(got == Outcome::Done(want), || format!("{}: {got:?}, expected {want}", say()));
    ctx.add(1, 1, 1);
}

pub fn c29(ctx: &Ctx) {
    let k = if ctx.thorough() { 3 } else { 2 };
    ctx.bound(format!("payments and delegations in which every member takes 5 significant values, {k} at a time, from 5 bases; every command signed and altered in one member, in its signer, signature or network; memos of 0 to 300 bytes; all signers with small x; all orders of all subsets of the transfer builder's setters"));
    ctx.assume("the Schnorr signature is ideal: it verifies exactly for the key, message (its field elements) and network it was made for; signing contexts are those of the main network's format (legacy)");
    // what is signed
    let a = arity(|v| {
        payload(v);
    });
    let seen = Distinct::new();
    vary(ctx, "signed payload", &a, k, |c| {
        let (p, r) = payload(&mut Vals::new(c));
        let say = || format!("hash input of {p:?}");
        let got = guarded(&say, || {
            let roi: ROInput = p.to_roinput();
            roi.to_fields().into_iter().map(big).collect::<Vec<_>>()
        });
        let want = r.legacy();
        ctx.check(got == Outcome::Done(want.clone()), || format!("{}: {got:?}, expected {want:?}", say()));
        if let Some(other) = seen.clash(format!("{want:?}").as_bytes(), format!("{p:?}").as_bytes()) {
            ctx.violate(|| format!("{} equals that of {}", say(), String::from_utf8_lossy(&other)));
        }
    });
    for (n, d) in [(NetworkId::MAINNET, "MinaSignatureMainnet"), (NetworkId::TESTNET, "CodaSignature")] {
        ctx.check(SignedCommandPayload::domain_string(n) == Some(d.into()), || format!("domain of {d}"));
    }
    // signatures
    vary(ctx, "signatures", &a, 1, |c| {
        let (p, _) = payload(&mut Vals::new(c));
        for main in [true, false] {
            let net = || if main { NetworkId::MAINNET } else { NetworkId::TESTNET };
            let say = || format!("signing {p:?}");
            let made = guarded(&say, || (SignedCommand::from_payload(p.clone(), pair(1), net()), p.clone().into_signed_command(pair(1), net())));
            let Outcome::Done((s, t)) = made else {
                ctx.violate(|| format!("{}: {made:?}", say()));
                return;
            };
            ctx.check(s == t && s.payload == p && s.signer == pair(1).public.into_compressed(), || format!("{}: {s:?}, {t:?}", say()));
            expect(ctx, &s, main, true, "a signed command");
            expect(ctx, &s, !main, false, "a command signed for the other network");
            let other = SignedCommand::from_payload(p.clone(), pair(2), net());
            expect(ctx, &SignedCommand { signer: other.signer.clone(), ..s.clone() }, main, false, "another signer's key");
            expect(ctx, &SignedCommand { signature: other.signature, ..s.clone() }, main, false, "another signer's signature");
            expect(ctx, &SignedCommand { signer: CompressedPubKey { is_odd: !s.signer.is_odd, ..s.signer.clone() }, ..s.clone() }, main, false, "the opposite key");
            expect(ctx, &SignedCommand { signature: Signature::new(s.signature.rx, Default::default()), ..s.clone() }, main, false, "half the signature");
            // one member changed, to every other value it takes
            for i in 0..c.len() {
                for x in 0..a[i] {
                    let mut d = c.to_vec();
                    d[i] = x;
                    let (q, _) = payload(&mut Vals::new(&d));
                    if q != p {
                        expect(ctx, &SignedCommand { payload: q, ..s.clone() }, main, false, "an altered command");
                    }
                }
            }
        }
    });
    signers(ctx);
    memos(ctx);
    builder(ctx);
}

/// Signers whose key is no point of the curve.
fn signers(ctx: &Ctx) {
    let (p, _) = payload(&mut Vals::new(&[]));
    let s = SignedCommand::from_payload(p, pair(1), NetworkId::MAINNET);
    let top = P.parse::<BigUint>().unwrap();
    par_for(ctx, 128, |i| {
        let x = if i < 64 { BigUint::from(i) } else { &top - (i - 63) };
        for is_odd in [false, true] {
            let x = as_fp(&le32(&x));
            expect(ctx, &SignedCommand { signer: CompressedPubKey { x, is_odd }, ..s.clone() }, true, false, "another signer");
        }
    });
}

/// Memos have 34 bytes; a signature for one of another length could be valid for another payload.
fn memos(ctx: &Ctx) {
    let empty: Vec<u8> = [1, 0].into_iter().chain([0; 32]).collect();
    for text in 0..=40usize {
        let t = "x".repeat(text);
        let m = SignedCommandMemo::try_from_text(&t);
        ctx.add(1, 1, 1);
        let want = (text <= 32).then(|| [1, text as u8].into_iter().chain(t.bytes()).chain(std::iter::repeat(0)).take(34).collect::<Vec<u8>>());
        ctx.check(m.as_ref().ok().map(|m| m.0.clone()) == want, || format!("memo of the text {t:?}: {m:?}"));
        if let Ok(m) = m {
            ctx.check(m.to_text() == t, || format!("text of {m:?}: {}, expected {t}", m.to_text()));
        }
    }
    for b in 0..=255u8 {
        for text in [vec![b], vec![b, b'a'], vec![b'a', b]] {
            let m = SignedCommandMemo::try_from_text(&text).unwrap();
            ctx.check(m.to_text() == String::from_utf8_lossy(&text), || format!("text of {m:?}: {}", m.to_text()));
            ctx.add(1, 1, 1);
        }
    }
    ctx.check(SignedCommandMemo::default().0 == empty, || format!("the memo used by default is {:?}, not one without text ({empty:?})", SignedCommandMemo::default()));
    let (p, _) = payload(&mut Vals::new(&[]));
    for n in 0..=300usize {
        for fill in [0, 1, 33, 255] {
            let memo = SignedCommandMemo(vec![fill; n]);
            let say = || format!("text of a memo of {n} bytes {fill}");
            let got = guarded(&say, || memo.to_text());
            let text: Vec<u8> = memo.0.iter().skip(2).take(fill as usize).cloned().collect();
            ctx.check(got == Outcome::Done(String::from_utf8_lossy(&text).to_string()), || format!("{}: {got:?}", say()));
            let mut q = p.clone();
            q.common.memo = memo;
            let say = || format!("signing with a memo of {n} bytes");
            match guarded(&say, || SignedCommand::from_payload(q.clone(), pair(1), NetworkId::MAINNET)) {
                Outcome::Done(s) => expect(ctx, &s, true, n == 34, "a memo of another length than 34"),
                o => ctx.violate(|| format!("{}: {o:?}", say())),
            }
        }
    }
}

fn builder(ctx: &Ctx) {
    let key = |i: u8| pair(i).public.into_compressed();
    let full = SignedCommandPayload {
        common: SignedCommandPayloadCommon { fee: Amount(12), fee_token: TokenId(13), fee_payer_pk: key(3), nonce: AccountNonce(14), valid_until: GlobalSlotNumber(15), memo: SignedCommandMemo::try_from_text("memo").unwrap() },
        body: SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: key(1), receiver_pk: key(2), token_id: TokenId(16), amount: Amount(11) }),
    };
    let mut orders = vec![vec![]];
    let mut at = 0;
    while at < orders.len() {
        let o: Vec<u8> = orders[at].clone();
        for x in 0..5u8 {
            if !o.contains(&x) {
                let mut n = o.clone();
                n.push(x);
                orders.push(n);
            }
        }
        at += 1;
    }
    for o in orders {
        let mut b = SignedTransferCommandBuilder::new(key(1), key(2), Amount(11), Amount(12), AccountNonce(14));
        for x in &o {
            b = match x {
                0 => b.transfer_token(TokenId(16)),
                1 => b.fee_token(TokenId(13)),
                2 => b.fee_payer(key(3)),
                3 => b.memo(SignedCommandMemo::try_from_text("memo").unwrap()),
                _ => b.valid_until(GlobalSlotNumber(15)),
            };
        }
        let mut want = full.clone();
        let set = |x| o.contains(&x);
        if let SignedCommandPayloadBody::PaymentPayload(p) = &mut want.body {
            if !set(0) {
                p.token_id = TokenId(1);
            }
        }
        if !set(1) {
            want.common.fee_token = TokenId(1);
        }
        if !set(2) {
            want.common.fee_payer_pk = key(1);
        }
        if !set(3) {
            want.common.memo = SignedCommandMemo::try_from_text("").unwrap();
        }
        if !set(4) {
            want.common.valid_until = GlobalSlotNumber(u32::MAX);
        }
        let got = b.build();
        ctx.add(1, o.len() as u64 + 1, 1);
        ctx.check(got == want, || format!("transfer built with setters {o:?}: {got:?}, expected {want:?}"));
    }
}

/// The blocks the repository has for its tests.
pub fn fixtures() -> Vec<(String, Vec<u8>)> {
    let dir = "/repo/protocol/test-fixtures/src/data";
    let mut out: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .filter_map(|f| {
            let p = f.unwrap().path();
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            if !name.ends_with(".hex") {
                return None;
            }
            let t = std::fs::read_to_string(&p).unwrap();
            let d: Vec<u8> = t.trim().bytes().map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
            Some((name, d.chunks(2).map(|c| c[0] << 4 | c[1]).collect()))
        })
        .collect();
    out.sort();
    out
}

pub fn c30(ctx: &Ctx) {
    let n = if ctx.thorough() { 4 } else { 3 };
    ctx.bound(format!("all pairs of parts of a staged ledger diff (the second may be absent) with up to {n} commands each, every command valid or invalid in one of 3 ways, applied or failed; each alone and as the diff of a block"));
    ctx.assume("the Schnorr signature is ideal: it verifies exactly for the key, message (its field elements) and network it was made for");
    let (name, bytes) = fixtures().into_iter().min_by_key(|(_, b)| b.len()).unwrap();
    let block: mina_serialization_types::v1::ExternalTransitionV1 = bin_prot::from_reader_strict(&bytes[..]).expect(&name);
    let block: ExternalTransition = block.into();
    // kinds of commands; the first is valid
    let p = |n: u32| {
        let mut p = payload(&mut Vals::new(&[])).0;
        p.common.nonce = AccountNonce(n);
        p
    };
    let good = |n: u32| SignedCommand::from_payload(p(n), pair(1), NetworkId::MAINNET);
    let kind = |k: usize, n: u32| match k {
        0 => good(n),
        1 => SignedCommand { payload: p(n + 100), ..good(n) },
        2 => SignedCommand { signer: pair(2).public.into_compressed(), ..good(n) },
        _ => SignedCommand::from_payload(p(n), pair(1), NetworkId::TESTNET),
    };
    let balances = TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None };
    let command = |c: usize, n: u32| UserCommandWithStatus {
        data: UserCommand::SignedCommand(kind(c % 4, n)),
        status: if c < 4 {
            TransactionStatus::Applied(TransactionStatusAuxiliaryData { fee_payer_account_creation_fee_paid: None, receiver_account_creation_fee_paid: None, created_token: None }, balances.clone())
        } else {
            TransactionStatus::Failed(vec![TransactionStatusFailedType::Overflow], balances.clone())
        },
    };
    // all lists; those longer than 2 without the failed ones
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < lists.len() {
        let l = lists[at].clone();
        if l.len() < n {
            for c in 0..if l.len() < 2 { 8 } else { 4 } {
                let mut m = l.clone();
                m.push(c);
                if m.len() < 3 || m.iter().all(|c| *c < 4) {
                    lists.push(m);
                }
            }
        }
        at += 1;
    }
    let part = |l: &[usize], from: u32| StagedLedgerPreDiff {
        completed_works: vec![],
        commands: l.iter().enumerate().map(|(i, c)| command(*c, from + i as u32)).collect(),
        coinbase: CoinBase::Zero,
        internal_command_balances: vec![],
    };
    let parts: Vec<[StagedLedgerPreDiff; 2]> = lists.iter().map(|l| [part(l, 0), part(l, 10)]).collect();
    let ok = |l: &[usize]| l.iter().all(|c| c % 4 == 0);
    par_for(ctx, lists.len(), |i| {
        let mut block = block.clone();
        for j in 0..=lists.len() {
            let second = if j == 0 { None } else { Some(parts[j - 1][1].clone()) };
            let want = ok(&lists[i]) && (j == 0 || ok(&lists[j - 1]));
            let tuple = mina_serialization_types::staged_ledger_diff::StagedLedgerDiffTuple(ser(parts[i][0].clone()), second.map(ser));
            block.staged_ledger_diff = StagedLedgerDiff { diff: tuple.into() };
            let say = || format!("a block with commands {:?} and then {:?} (0: valid; 4: valid, failed)", lists[i], (j > 0).then(|| &lists[j - 1]));
            let got = guarded(&say, || {
                let mut ctx = mina_signer::create_legacy(NetworkId::MAINNET);
                (block.verify(&mut ctx), block.staged_ledger_diff.verify(&mut ctx), block.staged_ledger_diff.diff.diff_two().verify(&mut ctx), block.staged_ledger_diff.diff.diff_one().as_ref().map(|d| d.verify(&mut ctx)))
            });
            ctx.check(got == Outcome::Done((want, want, ok(&lists[i]), (j > 0).then(|| ok(&lists[j - 1])))), || format!("{}: {got:?}, expected {want}", say()));
            ctx.add(1, (lists[i].len() + 1) as u64, 1);
        }
    });
    ctx.sample(|| format!("{} lists of commands in either part, block {name}", lists.len()));
}

fn ser(p: StagedLedgerPreDiff) -> mina_serialization_types::v1::StagedLedgerPreDiffV1 {
    let s: mina_serialization_types::staged_ledger_diff::StagedLedgerPreDiff = p.into();
    s.into()
}
