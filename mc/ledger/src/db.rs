use crate::acc::*;
use ark_ff::{BigInteger256, PrimeField};
use bin_prot::from_reader_strict;
use mc_core::*;
use mina_hasher::{Fp, Hashable};
use mina_ledger::*;
use mina_rs_base::BinProtSerializationType;
use mina_merkle::*;
use proof_systems::mina_hasher;
use rocksdb::{IteratorMode, Options, DB};

const DATA: [&str; 2] = [
    "/repo/ledger/test-data/genesis_ledger_6a887ea130e53b06380a9ab27b327468d28d4ce47515a0cc59759d4a3912f0ef",
    "/repo/ledger/test-data/genesis_ledger_a99a1ff63d4ba4a07cc6bedbff3e23bd6c1f482f9ecef33abdf7fb817564cc89",
];

type Entry = (Vec<u8>, Vec<u8>);
fn entries(path: &str) -> Vec<Entry> {
    let db = DB::open_for_read_only(&Options::default(), path, false).expect("database");
    db.iterator(IteratorMode::Start).map(|r| r.expect("entry")).map(|(k, v)| (k.into(), v.into())).collect()
}
fn short(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---- C36: the bytes of accounts

/// The account decoded from `b` says `want` and is written as `b` again.
fn agree<'a, F: Form>(ctx: &Ctx, b: &[u8], want: &Acc, finding: &str)
where
    F::Account: BinProtSerializationType<'a>,
{
    let desc = || format!("{} account {}", F::NAME, short(b));
    let r = guarded(&desc, || {
        let a: F::Account = from_reader_strict::<_, <F::Account as BinProtSerializationType>::T>(b).map_err(|e| format!("refused: {e:?}"))?.into();
        let told = F::told(&a);
        if told != *want {
            return Err(format!("read as {told:?}, is {want:?}"));
        }
        let t: <F::Account as BinProtSerializationType>::T = a.into();
        let mut o = vec![];
        bin_prot::to_writer(&mut o, &t).map_err(|e| format!("not written: {e:?}"))?;
        if o != b {
            return Err(format!("written as {}", short(&o)));
        }
        Ok(())
    });
    ctx.add(1, 2, 1);
    match r {
        Outcome::Done(Ok(())) => ctx.outcome("read and written as it is"),
        Outcome::Done(Err(e)) | Outcome::Panic(e) => {
            if finding.is_empty() || !ctx.known_finding(finding, || format!("{}: {e}", desc())) {
                ctx.violate(|| format!("{}: {e}", desc()));
            }
        }
    }
}

fn form<'a, F: Form>(ctx: &Ctx, data: &str)
where
    F::Account: BinProtSerializationType<'a>,
{
    let all: Vec<Entry> = entries(data).into_iter().filter(|e| e.0.first() == Some(&0xfe)).collect();
    par_for(ctx, all.len(), |i| {
        let b = &all[i].1;
        let Some(want) = F::dec(b) else {
            ctx.violate(|| format!("the statement of {} accounts does not fit {}", F::NAME, short(b)));
            return;
        };
        assert_eq!(F::enc(&want), *b, "the statement of accounts is not one to one");
        agree::<F>(ctx, b, &want, "");
    });
    ctx.sample(|| format!("{}: {} accounts of a real database", F::NAME, all.len()));
    let bound = if ctx.thorough() { 4 } else { 3 };
    let x = explore(bound, |ch| {
        let a = F::build(ch, false);
        agree::<F>(ctx, &F::enc(&a), &a, "");
        !ctx.stopped()
    });
    ctx.outcomes_n(&format!("{} accounts enumerated", F::NAME), x.runs);
    let x = explore(bound, |ch| {
        let a = F::build(ch, true);
        let default = a.token == small(1) && a.perms == (false, false) && a.symbol.is_empty();
        if !default {
            agree::<F>(ctx, &F::enc(&a), &a, if F::NAME == "Berkeley" { "berkeley-token-members" } else { "" });
        }
        !ctx.stopped()
    });
    ctx.outcomes_n(&format!("{} accounts enumerated, other tokens among them", F::NAME), x.runs);
    ctx.bound(format!("{}: all accounts whose members differ from a base account in at most {bound} places (4 to 12 values each)", F::NAME));
}

pub fn c36(ctx: &Ctx) {
    form::<V1>(ctx, DATA[0]);
    form::<V0>(ctx, DATA[1]);
    ctx.assume("databases are read by a stand-in for RocksDB that reads the write-ahead log");
    ctx.assume("numbers are below 2^63 (property C03 covers the others)");
}

// ---- C37: ledgers

const HEIGHT: u32 = 20;

fn node(kind: &str, h: u32, l: Fp, r: Fp) -> Fp {
    mina_hasher::ideal(kind, Some(&format!("CodaMklTree{:03}", h - 1)), &[l, r])
}
/// Hashes of the empty subtrees of heights 0 to `HEIGHT`.
fn empties(kind: &str) -> Vec<Fp> {
    let d = match kind {
        "legacy" => "14604874247461951431777712543359658136906556694369689076707549712589474483312",
        _ => "9572980593872981109373931329129826339992116007886182568766828232902813999143",
    };
    let b: BigInteger256 = num::BigUint::parse_bytes(d.as_bytes(), 10).unwrap().try_into().unwrap();
    let mut v = vec![Fp::from_repr(b).unwrap()];
    for h in 1..=HEIGHT {
        v.push(node(kind, h, v[h as usize - 1], v[h as usize - 1]));
    }
    v
}
/// The root of the tree over these leaves; none without leaves.
fn root(kind: &str, empty: &[Fp], leaves: &[Fp]) -> Fp {
    let mut row = leaves.to_vec();
    for h in 1..=HEIGHT {
        let e = empty[h as usize - 1];
        row = row.chunks(2).map(|c| node(kind, h, c[0], c.get(1).copied().unwrap_or(e))).collect();
        if row.is_empty() {
            row.push(empty[h as usize]);
        }
    }
    row[0]
}
fn leaf<A: Hashable<D = ()>>(kind: &str, a: &A) -> Fp {
    mina_hasher::ideal(kind, A::domain_string(()).as_deref(), &a.to_roinput().to_fields())
}

/// What the iterator gives for an entry.
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Account(Acc),
    Refused,
    Failed,
}

trait Net: Form {
    const KIND: &'static str;
    type A: 'static;
    const DEPTH: usize;
    fn items(db: &DB) -> Vec<Item>;
    /// depth, height, number of leaves, root
    fn tree(db: &DB, legacy: bool) -> (usize, u32, usize, Option<Fp>);
    fn leaf(kind: &str, b: &[u8]) -> Option<Fp>;
}
macro_rules! net {
    ($f:ident, $a:ty, $depth:literal) => {
        impl Net for $f {
            const KIND: &'static str = if $depth == 20 { "legacy" } else { "kimchi" };
            const DEPTH: usize = $depth;
            type A = $a;
            fn items(db: &DB) -> Vec<Item> {
                let l: RocksDbGenesisLedger<$depth, $a> = RocksDbGenesisLedger::new(db);
                let one = |r: Result<$a, _>| match r {
                    Ok(a) => Item::Account(<$f as Form>::told(&a)),
                    Err(e) if format!("{e:?}").contains("block checksum mismatch") => Item::Failed,
                    Err(_) => Item::Refused,
                };
                // an end: an iterator over a database that failed may not go on for ever
                let v: Vec<Item> = l.accounts().map(one).take(64).collect();
                // two iterators side by side, and by the other name, give the same
                let (mut x, mut y) = (l.accounts(), (&l).into_iter());
                for w in &v {
                    let (a, b) = (x.next().map(one), y.next().map(one));
                    if a.as_ref() != Some(w) || b.as_ref() != Some(w) {
                        return vec![];
                    }
                }
                v
            }
            fn tree(db: &DB, legacy: bool) -> (usize, u32, usize, Option<Fp>) {
                let l: RocksDbGenesisLedger<$depth, $a> = RocksDbGenesisLedger::new(db);
                if legacy {
                    let mut t = l.to_mina_merkle_ledger_legacy();
                    (l.depth(), t.height(), t.count(), t.root())
                } else {
                    let mut t = l.to_mina_merkle_ledger();
                    (l.depth(), t.height(), t.count(), t.root())
                }
            }
            fn leaf(kind: &str, b: &[u8]) -> Option<Fp> {
                let a: $a = from_reader_strict::<_, <$a as BinProtSerializationType>::T>(b).ok()?.into();
                Some(leaf(kind, &a))
            }
        }
    };
}
net!(V1, mina_rs_base::account::AccountLegacy, 20);
net!(V0, mina_rs_base::account::Account, 35);

/// Values of account entries: two accounts, one cut, one with a byte more, none at all.
fn values<F: Form>() -> Vec<(Vec<u8>, Option<Acc>)> {
    let a = F::build(&mut Chooser::replay(vec![], 0), false);
    let mut b = a.clone();
    (b.balance, b.delegate, b.timing) = (1_000_000, None, None);
    let (x, y) = (F::enc(&a), F::enc(&b));
    let cut = x[..x.len() - 1].to_vec();
    let long = [&y[..], &[0]].concat();
    vec![(x, Some(a)), (y, Some(b)), (cut, None), (long, None), (vec![], None)]
}

fn ledger<F: Net>(ctx: &Ctx, keys: &[&[u8]], values: &[(Vec<u8>, Option<Acc>)], picks: &[usize], trees: bool, empty: &[[Vec<Fp>; 1]; 2]) {
    // picks: 0 = no such key; for keys of accounts, the value; for others, always an account's bytes
    let mut es: Vec<(Entry, Option<Item>)> = keys
        .iter()
        .zip(picks)
        .filter(|(_, p)| **p > 0)
        .map(|(k, p)| {
            let (v, a) = &values[p - 1];
            let item = (k.first() == Some(&0xfe)).then(|| a.clone().map(Item::Account).unwrap_or(Item::Refused));
            ((k.to_vec(), v.clone()), item)
        })
        .collect();
    es.sort_by(|a, b| a.0 .0.cmp(&b.0 .0));
    let first = es.iter().position(|e| e.1.is_some());
    let last = es.iter().rposition(|e| e.1.is_some());
    let want: Vec<Item> = es.iter().filter_map(|e| e.1.clone()).collect();
    let n = es.len();
    for fail in std::iter::once(None).chain((0..=n).map(Some)) {
        let desc = || {
            let l: Vec<String> = es.iter().map(|e| format!("{}={}", short(&e.0 .0), short(&e.0 .1))).collect();
            format!("{} ledger of {{{}}}{}", F::NAME, l.join(", "), fail.map(|f| format!(", reading fails at entry {f}")).unwrap_or_default())
        };
        let db = DB::with_entries(es.iter().map(|e| e.0.clone()), fail);
        let Some(got) = run(ctx, &desc, || F::items(&db)) else { return };
        ctx.add(1, got.len() as u64 + 1, 1);
        let ok = match (fail, first, last) {
            (Some(f), Some(a), Some(b)) if a <= f && f <= b => {
                // the accounts before it, and that it failed
                let k = f - a;
                ctx.outcome("reading fails");
                got.len() > k && got[..k] == want[..k] && got[k..].contains(&Item::Failed)
            }
            // fails elsewhere: to be noticed or not, but not to lose accounts
            (Some(_), ..) if got.contains(&Item::Failed) => {
                let k = got.iter().position(|i| *i == Item::Failed).unwrap();
                want.starts_with(&got[..k])
            }
            _ => {
                ctx.outcome(if want.contains(&Item::Refused) { "accounts refused" } else { "all accounts" });
                got == want
            }
        };
        if !ctx.check(ok, || format!("{}: {} items {:?}", desc(), got.len(), got)) {
            return;
        }
        // a tree stands for all accounts
        let whole = fail.is_none() && !want.contains(&Item::Refused);
        if !trees || (fail.is_some() && !matches!((fail, first, last), (Some(f), Some(a), Some(b)) if a <= f && f <= b)) {
            continue;
        }
        let legacy = F::DEPTH == 20;
        for legacy in if whole { vec![legacy, !legacy] } else { vec![legacy] } {
            let kind = if legacy { "legacy" } else { "kimchi" };
            let e = &empty[!legacy as usize][0];
            let Some((depth, height, count, got)) = run(ctx, &desc, || F::tree(&db, legacy)) else { return };
            ctx.add(0, 1, 1);
            let all: Vec<Fp> = es.iter().filter(|e| e.1.is_some()).filter_map(|e| F::leaf(kind, &e.0 .1)).collect();
            if depth != F::DEPTH || height != HEIGHT {
                ctx.violate(|| format!("{}: depth {depth}, height {height}", desc()));
                return;
            }
            let same = got == Some(root(kind, e, &all)) || (all.is_empty() && got.is_none());
            if whole {
                if !ctx.check(same && count == all.len(), || format!("{}: the {kind} tree has {count} leaves and root {got:?}", desc())) {
                    return;
                }
                continue;
            }
            // nothing tells that accounts are missing
            let dropped = match (fail, first) {
                (Some(f), Some(a)) => {
                    let l: Vec<Fp> = es[a..f].iter().filter(|e| e.1.is_some()).filter_map(|e| F::leaf(kind, &e.0 .1)).collect();
                    count == l.len() && (got == Some(root(kind, e, &l)) || l.is_empty() && got.is_none())
                }
                _ => same && count == all.len(),
            };
            if !dropped {
                ctx.violate(|| format!("{}: the {kind} tree has {count} leaves and root {got:?}", desc()));
                return;
            }
            if !ctx.known_finding("unreadable-account-dropped", || format!("{}: a tree of {count} accounts", desc())) {
                ctx.violate(|| format!("{}: a tree of {count} accounts", desc()));
                return;
            }
        }
    }
}

fn run<T>(ctx: &Ctx, desc: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(desc, f) {
        Outcome::Done(t) => Some(t),
        Outcome::Panic(e) => {
            ctx.violate(|| format!("{}: panic: {e}", desc()));
            None
        }
    }
}

const KEYS: [&[u8]; 9] = [&[], &[0, 1], &[0xfd, 0xff, 0xff], &[0xfe], &[0xfe, 0, 0, 0], &[0xfe, 0, 0, 1], &[0xfe, 0xff], &[0xff], &[0xff, 0xfe, 0]];

fn net<F: Net>(ctx: &Ctx, data: &str) {
    let empty = [[empties("legacy")], [empties("kimchi")]];
    let values = values::<F>();
    let radix: Vec<usize> = KEYS.iter().map(|k| if k.first() == Some(&0xfe) { values.len() + 1 } else { 2 }).collect();
    let total: usize = radix.iter().product();
    par_for(ctx, total, |i| {
        let mut n = i;
        let picks: Vec<usize> = radix
            .iter()
            .map(|r| {
                let p = n % r;
                n /= r;
                p
            })
            .collect();
        let others: usize = KEYS.iter().zip(&picks).filter(|(k, p)| k.first() != Some(&0xfe) && **p > 0).count();
        ledger::<F>(ctx, &KEYS, &values, &picks, others == 0 || others == 5 || ctx.thorough(), &empty);
    });
    ctx.bound(format!("{}: all databases with a subset of 9 keys (4 of accounts, each with one of 5 values), reading failing at any entry or none: {total} databases", F::NAME));
    // as many accounts as there are
    let all = entries(data);
    let db = DB::with_entries(all.iter().cloned(), None);
    for legacy in [true, false] {
        let kind = if legacy { "legacy" } else { "kimchi" };
        let desc = || format!("the {} database, {kind} tree", F::NAME);
        let Some((_, height, count, got)) = run(ctx, &desc, || F::tree(&db, legacy)) else { return };
        let leaves: Vec<Option<Fp>> = all.iter().filter(|e| e.0.first() == Some(&0xfe)).map(|e| F::leaf(kind, &e.1)).collect();
        let leaves: Option<Vec<Fp>> = leaves.into_iter().collect();
        let Some(leaves) = leaves else {
            ctx.violate(|| format!("{}: accounts are refused", desc()));
            return;
        };
        ctx.add(leaves.len() as u64, 1, 1);
        let ok = height == HEIGHT && count == leaves.len() && got == Some(root(kind, &empty[!legacy as usize][0], &leaves));
        ctx.check(ok, || format!("{}: {count} leaves, height {height}, root {got:?}", desc()));
    }
    let l = all.iter().filter(|e| e.0.first() == Some(&0)).count();
    ctx.check(l == all.iter().filter(|e| e.0.first() == Some(&0xfe)).count(), || format!("{}: {l} leaf hashes", F::NAME));
}

pub fn c37(ctx: &Ctx) {
    net::<V1>(ctx, DATA[0]);
    net::<V0>(ctx, DATA[1]);
    ctx.assume("a stand-in for RocksDB gives entries in key order and an error once, after which it ends");
    ctx.assume("the Poseidon hash is replaced by an ideal one");
}
