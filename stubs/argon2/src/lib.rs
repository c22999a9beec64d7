//! Stand-in for `argon2`: Argon2i, version 0x13, one lane, with the interface of the original.
use blake2::digest::{Update, VariableOutput};
use blake2::Blake2bVar;

pub mod password_hash {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Error {
        B64,
        SaltLength,
        Argon2(super::Error),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<super::Error> for Error {
        fn from(e: super::Error) -> Self {
            Error::Argon2(e)
        }
    }

    const CHARS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    pub(crate) fn decode(s: &str) -> Result<Vec<u8>, Error> {
        let mut v = vec![];
        let (mut acc, mut bits) = (0u32, 0);
        for c in s.bytes() {
            let d = CHARS.iter().position(|x| *x == c).ok_or(Error::B64)? as u32;
            acc = acc << 6 | d;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                v.push((acc >> bits) as u8);
                acc &= (1 << bits) - 1;
            }
        }
        if acc != 0 || bits >= 6 {
            return Err(Error::B64);
        }
        Ok(v)
    }

    /// A salt, as text of up to 64 characters.
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn new(s: &str) -> Result<Self, Error> {
            if s.len() < 4 || s.len() > 64 {
                return Err(Error::SaltLength);
            }
            Ok(Self(s.into()))
        }
        pub fn b64_encode(input: &[u8]) -> Result<Self, Error> {
            let mut s = String::new();
            for c in input.chunks(3) {
                let n = c.iter().fold(0u32, |n, b| n << 8 | *b as u32) << (8 * (3 - c.len()));
                for i in 0..=c.len() {
                    s.push(CHARS[(n >> (18 - 6 * i) & 63) as usize] as char);
                }
            }
            if s.len() > 64 {
                return Err(Error::B64);
            }
            Ok(Self(s))
        }
        pub fn b64_decode<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            let v = decode(&self.0)?;
            let b = buf.get_mut(..v.len()).ok_or(Error::B64)?;
            b.copy_from_slice(&v);
            Ok(b)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn as_bytes(&self) -> &[u8] {
            self.0.as_bytes()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    impl AsRef<str> for SaltString {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
    impl std::fmt::Display for SaltString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Output(pub(crate) [u8; 32]);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            32
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PasswordHash<'a> {
        pub hash: Option<Output>,
        pub(crate) _salt: std::marker::PhantomData<&'a ()>,
    }
    pub trait PasswordHasher {
        fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> Result<PasswordHash<'a>, Error>;
    }
}
pub use password_hash::{PasswordHash, PasswordHasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    MemoryTooLittle,
    MemoryTooMuch,
    TimeTooSmall,
    ThreadsTooFew,
    ThreadsTooMany,
    SaltTooShort,
    SaltTooLong,
    OutputTooShort,
    OutputTooLong,
    PwdTooLong,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum Algorithm {
    Argon2d,
    Argon2i,
    #[default]
    Argon2id,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum Version {
    V0x10,
    #[default]
    V0x13,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Params {
    m: u32,
    t: u32,
}
impl Params {
    pub const MIN_M_COST: u32 = 8;
    pub const MIN_T_COST: u32 = 1;
    pub const DEFAULT_M_COST: u32 = 4096;
    pub const DEFAULT_T_COST: u32 = 3;
    pub fn new(m_cost: u32, t_cost: u32, p_cost: u32, output_len: Option<usize>) -> Result<Self> {
        assert!(p_cost == 1 && output_len.map_or(true, |n| n == 32), "the stand-in has one lane and 32 bytes of output");
        if m_cost < Self::MIN_M_COST {
            return Err(Error::MemoryTooLittle);
        }
        if t_cost < Self::MIN_T_COST {
            return Err(Error::TimeTooSmall);
        }
        Ok(Self { m: m_cost, t: t_cost })
    }
}
impl Default for Params {
    fn default() -> Self {
        Self { m: Self::DEFAULT_M_COST, t: Self::DEFAULT_T_COST }
    }
}
#[derive(Clone, Debug, Default)]
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn m_cost(&mut self, m: u32) -> Result<&mut Self> {
        self.0 = Params::new(m, self.0.t, 1, None)?;
        Ok(self)
    }
    pub fn t_cost(&mut self, t: u32) -> Result<&mut Self> {
        self.0 = Params::new(self.0.m, t, 1, None)?;
        Ok(self)
    }
    pub fn params(self) -> Result<Params> {
        Ok(self.0)
    }
}

/// What the hasher would be asked for with more memory than a check can give it.
pub const MEMORY_LIMIT_KIB: u32 = 1 << 20;

#[derive(Clone, Debug)]
pub struct Argon2<'k> {
    params: Params,
    _key: std::marker::PhantomData<&'k ()>,
}
impl<'k> Argon2<'k> {
    pub fn new(a: Algorithm, v: Version, params: Params) -> Self {
        assert!(a == Algorithm::Argon2i && v == Version::V0x13, "the stand-in is Argon2i, version 0x13");
        Self { params, _key: std::marker::PhantomData }
    }
}
impl<'k> PasswordHasher for Argon2<'k> {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> std::result::Result<PasswordHash<'a>, password_hash::Error> {
        let salt = password_hash::SaltString::new(salt.as_ref())?;
        let salt = password_hash::decode(salt.as_str())?;
        if salt.len() < 8 {
            return Err(Error::SaltTooShort.into());
        }
        if self.params.m > MEMORY_LIMIT_KIB {
            panic!("asked for {} KiB of memory", self.params.m);
        }
        let hash = argon2i(password, &salt, self.params.m, self.params.t);
        Ok(PasswordHash { hash: Some(password_hash::Output(hash)), _salt: Default::default() })
    }
}

fn blake2b(n: usize, parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Blake2bVar::new(n).unwrap();
    for p in parts {
        h.update(p);
    }
    h.finalize_boxed().into_vec()
}
fn long(n: usize, parts: &[&[u8]]) -> Vec<u8> {
    let len = (n as u32).to_le_bytes();
    let mut all = vec![&len[..]];
    all.extend(parts);
    if n <= 64 {
        return blake2b(n, &all);
    }
    let r = (n + 31) / 32 - 2;
    let mut v = blake2b(64, &all);
    let mut out = v[..32].to_vec();
    for _ in 1..r {
        v = blake2b(64, &[&v]);
        out.extend(&v[..32]);
    }
    out.extend(blake2b(n - 32 * r, &[&v]));
    out
}

type Block = [u64; 128];
fn permute(v: &mut Block, at: [usize; 16]) {
    let mut w = at.map(|i| v[i]);
    let mut g = |a: usize, b: usize, c: usize, d: usize| {
        let add = |x: u64, y: u64| x.wrapping_add(y).wrapping_add((2 * (x & 0xffff_ffff)).wrapping_mul(y & 0xffff_ffff));
        w[a] = add(w[a], w[b]);
        w[d] = (w[d] ^ w[a]).rotate_right(32);
        w[c] = add(w[c], w[d]);
        w[b] = (w[b] ^ w[c]).rotate_right(24);
        w[a] = add(w[a], w[b]);
        w[d] = (w[d] ^ w[a]).rotate_right(16);
        w[c] = add(w[c], w[d]);
        w[b] = (w[b] ^ w[c]).rotate_right(63);
    };
    g(0, 4, 8, 12);
    g(1, 5, 9, 13);
    g(2, 6, 10, 14);
    g(3, 7, 11, 15);
    g(0, 5, 10, 15);
    g(1, 6, 11, 12);
    g(2, 7, 8, 13);
    g(3, 4, 9, 14);
    for (i, w) in at.iter().zip(w) {
        v[*i] = w;
    }
}
fn compress(x: &Block, y: &Block) -> Block {
    let mut r = [0; 128];
    for i in 0..128 {
        r[i] = x[i] ^ y[i];
    }
    let mut q = r;
    for row in 0..8 {
        permute(&mut q, std::array::from_fn(|i| 16 * row + i));
    }
    for col in 0..8 {
        permute(&mut q, std::array::from_fn(|i| 16 * (i / 2) + 2 * col + i % 2));
    }
    for i in 0..128 {
        q[i] ^= r[i];
    }
    q
}

fn argon2i(password: &[u8], salt: &[u8], m: u32, t: u32) -> [u8; 32] {
    let le = |v: usize| (v as u32).to_le_bytes();
    let h0 = blake2b(
        64,
        &[&le(1), &le(32), &le(m as usize), &le(t as usize), &le(0x13), &le(1), &le(password.len()), password, &le(salt.len()), salt, &le(0), &le(0)],
    );
    let block = |bytes: &[u8]| -> Block { std::array::from_fn(|i| u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap())) };
    let segment = m as usize / 4;
    let q = 4 * segment;
    let mut b: Vec<Block> = vec![[0; 128]; q];
    for i in 0..2 {
        b[i] = block(&long(1024, &[&h0, &le(i), &le(0)]));
    }
    for pass in 0..t as usize {
        for slice in 0..4 {
            let mut input: Block = [0; 128];
            for (i, v) in [pass, 0, slice, q, t as usize, 1, 0].into_iter().enumerate() {
                input[i] = v as u64;
            }
            let mut addresses: Block = [0; 128];
            let first = if pass == 0 && slice == 0 { 2 } else { 0 };
            for index in 0..segment {
                if index % 128 == 0 {
                    input[6] += 1;
                    addresses = compress(&[0; 128], &compress(&[0; 128], &input));
                }
                if index < first {
                    continue;
                }
                let j1 = addresses[index % 128] & 0xffff_ffff;
                let area = if pass == 0 { slice * segment + index - 1 } else { q - segment + index - 1 } as u64;
                let z = area - 1 - ((area * (j1 * j1 >> 32)) >> 32);
                let start = if pass == 0 || slice == 3 { 0 } else { (slice + 1) * segment };
                let at = slice * segment + index;
                let new = compress(&b[(at + q - 1) % q], &b[(start + z as usize) % q]);
                for i in 0..128 {
                    b[at][i] = new[i] ^ if pass == 0 { 0 } else { b[at][i] };
                }
            }
        }
    }
    let last: Vec<u8> = b[q - 1].iter().flat_map(|w| w.to_le_bytes()).collect();
    long(32, &[&last]).try_into().unwrap()
}
