//! C40: wallet files open with their password, and with nothing else.
use argon2::{password_hash::SaltString, Algorithm, Argon2, Params, PasswordHasher, Version};
use mc_core::*;
use mina_secrets::secret_box::*;
use serde_json::{json, Value};
use xsalsa20poly1305::{aead::Aead, Key, KeyInit, Nonce, XSalsa20Poly1305};

#[global_allocator]
static A: mc_core::alloc::Watch = mc_core::alloc::Watch;

/// What a wallet file says.
#[derive(Clone, Debug, PartialEq)]
struct Wallet {
    nonce: Vec<u8>,
    salt: Vec<u8>,
    memory: i64,
    passes: i64,
    ciphertext: Vec<u8>,
}

fn b58(b: &[u8]) -> String {
    bs58::encode(b).with_check_version(2).into_string()
}
fn un58(s: &str) -> Option<Vec<u8>> {
    let v = bs58::decode(s).with_check(Some(2)).into_vec().ok()?;
    Some(v[1..].to_vec())
}

impl Wallet {
    fn json(&self) -> Value {
        json!({
            "box_primitive": "xsalsa20poly1305",
            "pw_primitive": "argon2i",
            "nonce": b58(&self.nonce),
            "pwsalt": b58(&self.salt),
            "pwdiff": [self.memory, self.passes],
            "ciphertext": b58(&self.ciphertext),
        })
    }
    /// The wallet a document denotes, if it is one.
    fn parse(doc: &str) -> Option<Wallet> {
        let v: Value = serde_json::from_str(doc).ok()?;
        let o = v.as_object()?;
        let text = |k: &str| o.get(k)?.as_str();
        if text("box_primitive")? != "xsalsa20poly1305" || text("pw_primitive")? != "argon2i" {
            return None;
        }
        let d = o.get("pwdiff")?.as_array()?;
        if d.len() != 2 {
            return None;
        }
        Some(Wallet { nonce: un58(text("nonce")?)?, salt: un58(text("pwsalt")?)?, memory: d[0].as_i64()?, passes: d[1].as_i64()?, ciphertext: un58(text("ciphertext")?)? })
    }
    fn kib(&self) -> i64 {
        self.memory / 1024
    }
    /// Whether the algorithms named can be used with these numbers and lengths.
    fn usable(&self) -> bool {
        let u = |v: i64, min: i64| v >= min && v <= u32::MAX as i64;
        self.nonce.len() == 24 && (8..=48).contains(&self.salt.len()) && u(self.kib(), 8) && self.memory >= 0 && u(self.passes, 1) && self.ciphertext.len() >= 16
    }
    /// More work than a check has time for, even if the numbers were cut to 32 bits.
    fn too_long(&self) -> bool {
        (self.passes as u32 as u64) * (self.kib() as u32 as u64) > 1 << 14
    }
    fn key(&self, password: &[u8]) -> Vec<u8> {
        let p = Params::new(self.kib() as u32, self.passes as u32, 1, None).unwrap();
        let salt = SaltString::b64_encode(&self.salt).unwrap();
        Argon2::new(Algorithm::Argon2i, Version::V0x13, p).hash_password(password, &salt).unwrap().hash.unwrap().as_bytes().to_vec()
    }
    /// What it holds for who has the password.
    fn open(&self, password: &[u8]) -> Option<Vec<u8>> {
        if !self.usable() {
            return None;
        }
        let k = XSalsa20Poly1305::new(Key::from_slice(&self.key(password)));
        let p = k.decrypt(Nonce::from_slice(&self.nonce), &self.ciphertext[..]).ok()?;
        p.get(1..).map(|p| p.to_vec())
    }
    fn seal(mut self, password: &[u8], text: &[u8]) -> Wallet {
        self.ciphertext = XSalsa20Poly1305::new(Key::from_slice(&self.key(password))).encrypt(Nonce::from_slice(&self.nonce), text).unwrap();
        self
    }
}

fn judge(ctx: &Ctx, doc: &str, passwords: &[&[u8]]) {
    let w = Wallet::parse(doc);
    let say = || format!("wallet file {doc}");
    ctx.add(1, 1, 1);
    let r = match guarded(&say, || SecretBox::try_from(doc).map_err(|e| e.to_string())) {
        Outcome::Panic(e) => {
            ctx.violate(|| format!("{}: reading panics: {e}", say()));
            return;
        }
        Outcome::Done(r) => r,
    };
    let (w, sb) = match (w, r) {
        (None, Err(_)) => return ctx.outcome("files refused"),
        (None, Ok(sb)) => {
            ctx.violate(|| format!("{} is no wallet, and is read as {sb:?}", say()));
            return;
        }
        (Some(w), Err(e)) => {
            ctx.check(!w.usable(), || format!("{}: refused: {e}", say()));
            return ctx.outcome("files refused");
        }
        (Some(w), Ok(sb)) => (w, sb),
    };
    ctx.outcome("files read");
    // written as it was read
    let out = guarded(&say, || {
        let v: Result<Value, _> = sb.clone().try_into();
        let s: Result<String, _> = sb.clone().try_into();
        (v.map_err(|e: Error| e.to_string()), s.map_err(|e: Error| e.to_string()))
    });
    ctx.check(
        match &out {
            Outcome::Done((Ok(v), Ok(s))) => *v == w.json() && serde_json::from_str::<Value>(s).ok().as_ref() == Some(v),
            // a salt longer than the algorithm's
            Outcome::Done((Err(_), Err(_))) => w.salt.len() > 16 || !w.usable(),
            _ => false,
        },
        || format!("{}: written as {out:?}", say()),
    );
    if w.too_long() {
        return;
    }
    for p in passwords {
        let want = w.open(p);
        let got = guarded(&say, || sb.get_private_key_bytes(p).map_err(|e| e.to_string()));
        let same = match (&got, &want) {
            (Outcome::Done(Ok(g)), Some(w)) => g == w,
            (Outcome::Done(Err(_)), None) => true,
            _ => false,
        };
        ctx.add(0, 1, 1);
        ctx.check(same, || format!("{}: with password {:?} gives {got:?}, expected {want:?}", say(), String::from_utf8_lossy(p)));
        ctx.outcome(if want.is_some() { "opened" } else { "not opened" });
        let pair = guarded(&say, || sb.get_keypair(p).map_err(|e| e.to_string()));
        let of = want.and_then(|mut s| {
            s.reverse();
            (s.len() == 32).then(|| Keypair::from_hex(&hex::encode(s)).ok()).flatten()
        });
        let same = match (&pair, &of) {
            (Outcome::Done(Ok(p)), Some(of)) => p == of,
            (Outcome::Done(Err(_)), None) => true,
            _ => false,
        };
        ctx.check(same, || format!("{}: with password {:?} gives key pair {pair:?}, expected {of:?}", say(), String::from_utf8_lossy(p)));
    }
}

const LONG: [u8; 100] = [b'x'; 100];
const PASSWORDS: [&[u8]; 8] = [b"", b"a", b"A", b"a ", b"naughty blue worm", b"\0", b"\xff\xfe", &LONG];

fn c40(ctx: &Ctx) {
    // the stand-ins are the algorithms: the repository's wallet opens, to the key of its address
    let dir = "/repo/secrets/tests/data/test-wallet";
    let doc = std::fs::read_to_string(dir).unwrap();
    let password = std::fs::read(format!("{dir}.pswd")).unwrap();
    let sb = SecretBox::try_from(&doc[..]).map_err(|e| e.to_string());
    let address = sb.and_then(|s| s.get_keypair(&password).map_err(|e| e.to_string())).map(|k| k.public.into_address());
    let want = std::fs::read_to_string(format!("{dir}.pub")).unwrap();
    ctx.check(address.as_deref() == Ok(want.trim()), || format!("the wallet of the tests holds the key of {address:?}, not {want}"));

    let secret: Vec<u8> = std::iter::once(1).chain((1..33).map(|i| i * 7 % 64)).collect();
    let plain = Wallet { nonce: (0..24).collect(), salt: (100..116).collect(), memory: 8192, passes: 1, ciphertext: vec![] };
    let w = plain.clone().seal(b"a", &secret);
    let two: [&[u8]; 2] = [b"a", b"b"];
    let t = ctx.thorough();

    // every password against every wallet
    let mut all = vec![];
    for p in PASSWORDS {
        for memory in [8192, 9216, 12 << 10, 13 << 10, 64 << 10, 256 << 10] {
            for passes in 1..=if t { 4 } else { 3 } {
                for salt in [8, 16, 17, 32, 48] {
                    let w = Wallet { memory, passes, salt: (0..salt).collect(), ..plain.clone() };
                    all.push(w.seal(p, &secret));
                }
            }
        }
    }
    par_for(ctx, all.len(), |i| judge(ctx, &all[i].json().to_string(), &PASSWORDS));
    ctx.bound(format!("{} wallets with {} passwords, each opened with each", all.len(), PASSWORDS.len()));

    // lengths and numbers
    let mut docs = vec![];
    let bytes = |n: usize| (0..n).map(|i| (i * 37 + 5) as u8).collect::<Vec<_>>();
    for n in 0..=80 {
        docs.push(Wallet { nonce: bytes(n), ..w.clone() });
        docs.push(Wallet { salt: bytes(n), ..w.clone() });
        docs.push(Wallet { ciphertext: bytes(n), ..w.clone() });
        docs.push(plain.clone().seal(b"a", &bytes(n)));
        docs.push(Wallet { nonce: bytes(n), salt: bytes(80 - n), ..w.clone() });
    }
    // secrets around the order of the group
    for top in 0..=255u8 {
        for rest in [0, 0xff] {
            let mut s = vec![rest; 33];
            s[32] = top;
            docs.push(plain.clone().seal(b"a", &s));
        }
    }
    let mut numbers = vec![];
    for p in [0, 10, 13, 16, 18, 20, 30, 31, 32, 33, 40, 41, 42, 43, 62] {
        for d in [-1024, -1, 0, 1, 1024, 8192] {
            numbers.push((1i64 << p) + d);
            numbers.push(-(1i64 << p) + d);
        }
    }
    numbers.extend([0, 2, 3, i64::MIN, i64::MIN + 8192, i64::MAX]);
    for n in &numbers {
        docs.push(Wallet { memory: *n, ..w.clone() });
        docs.push(Wallet { passes: *n, ..w.clone() });
        for m in &numbers {
            docs.push(Wallet { memory: *n, passes: *m, ..w.clone() });
        }
    }
    par_for(ctx, docs.len(), |i| judge(ctx, &docs[i].json().to_string(), &two));
    ctx.bound(format!("{} wallets with other lengths of every part and other numbers", docs.len()));

    // every change of a bit, and every byte cut or added
    let mut docs = vec![];
    let parts: [fn(&mut Wallet) -> &mut Vec<u8>; 3] = [|w| &mut w.nonce, |w| &mut w.salt, |w| &mut w.ciphertext];
    for part in parts {
        let n = part(&mut w.clone()).len();
        for i in 0..n {
            for x in 1..=255u8 {
                if t || x.is_power_of_two() || x == 255 {
                    let mut w = w.clone();
                    part(&mut w)[i] ^= x;
                    docs.push(w);
                }
            }
            let mut v = w.clone();
            part(&mut v).remove(i);
            docs.push(v);
        }
        for i in 0..=n {
            for x in [0, 1, 255] {
                let mut v = w.clone();
                part(&mut v).insert(i, x);
                docs.push(v);
            }
        }
    }
    par_for(ctx, docs.len(), |i| judge(ctx, &docs[i].json().to_string(), &two));
    ctx.bound(format!("{} wallets with a byte changed, removed or added", docs.len()));

    // the text
    let text = w.json().to_string();
    let mut docs = vec![];
    for (i, c) in text.char_indices() {
        docs.push(format!("{}{}", &text[..i], &text[i + 1..]));
        docs.push(format!("{}{c}{}", &text[..i], &text[i..]));
        docs.push(text[..i].into());
        for n in (32..127u8).map(|b| b as char).chain(['\n', '\0', 'é', '√']) {
            if n != c && (t || (n as u32 + i as u32) % 3 == 0) {
                docs.push(format!("{}{n}{}", &text[..i], &text[i + 1..]));
            }
        }
    }
    // members
    let base = w.json();
    let raw = |v: u8, b: &[u8]| bs58::encode(b).with_check_version(v).into_string();
    for k in ["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"] {
        let mut put = |v: Value| {
            let mut d = base.clone();
            d[k] = v;
            docs.push(d.to_string());
        };
        for v in [Value::Null, json!(1), json!(true), json!(""), json!([]), json!({}), json!("xsalsa20poly1305"), json!("argon2i"), json!("argon2id"), json!([8192]), json!([8192, 1, 1]), json!([8192, 1.0]), json!(["8192", "1"])] {
            put(v);
        }
        for v in [json!([1, 8192]), json!([8192, u64::MAX]), json!([u64::MAX, 1]), json!([8192, null]), json!({"0": 8192, "1": 1}), json!(1111)] {
            put(v);
        }
        let part = match k {
            "nonce" => &w.nonce,
            "pwsalt" => &w.salt,
            "ciphertext" => &w.ciphertext,
            _ => continue,
        };
        for v in 0..=255 {
            put(json!(raw(v, part)));
        }
        // without checksum or version
        put(json!(bs58::encode(part).into_string()));
        put(json!(bs58::encode(&part[..0]).with_check().into_string()));
        put(json!(hex::encode(part)));
        put(json!("2"));
    }
    for k in ["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"] {
        let mut d = base.clone();
        d.as_object_mut().unwrap().remove(k);
        docs.push(d.to_string());
        let mut d = base.clone();
        d[format!("{k}2")] = base[k].clone();
        docs.push(d.to_string());
    }
    docs.push(format!("[{base}]"));
    docs.push(base.to_string() + " ");
    docs.push(base.to_string() + "}");
    par_for(ctx, docs.len(), |i| judge(ctx, &docs[i], &two));
    ctx.bound(format!("{} files with a character or a member changed, removed or added", docs.len()));
    ctx.assume("Argon2i and the secret box are implementations of the same algorithms in place of the crates, which cannot be had offline; the repository's wallet opens with them");
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C40" => c40(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
