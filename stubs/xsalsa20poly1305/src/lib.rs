//! Stand-in for `xsalsa20poly1305`: NaCl's secret box, with the interface of the original.
use aead::generic_array::{GenericArray, U24, U32};
use num::BigUint;

pub const KEY_SIZE: usize = 32;
pub const NONCE_SIZE: usize = 24;
pub const TAG_SIZE: usize = 16;
pub type Key = GenericArray<u8, U32>;
pub type Nonce = GenericArray<u8, U24>;

pub mod aead {
    pub mod generic_array {
        use std::marker::PhantomData;
        pub trait ArrayLength {
            const N: usize;
        }
        #[derive(Debug)]
        pub struct U24;
        #[derive(Debug)]
        pub struct U32;
        impl ArrayLength for U24 {
            const N: usize = 24;
        }
        impl ArrayLength for U32 {
            const N: usize = 32;
        }
        #[derive(Debug)]
        #[repr(transparent)]
        pub struct GenericArray<T, N: ArrayLength>(PhantomData<N>, [T]);
        impl<T, N: ArrayLength> GenericArray<T, N> {
            /// Panics if the slice has another length, as the original does.
            pub fn from_slice(s: &[T]) -> &Self {
                assert_eq!(s.len(), N::N);
                // a transparent wrapper of the slice
                unsafe { &*(s as *const [T] as *const Self) }
            }
            pub fn as_slice(&self) -> &[T] {
                &self.1
            }
        }
        impl<T, N: ArrayLength> std::ops::Deref for GenericArray<T, N> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.1
            }
        }
    }
    pub struct Payload<'msg> {
        pub msg: &'msg [u8],
    }
    impl<'msg> From<&'msg [u8]> for Payload<'msg> {
        fn from(msg: &'msg [u8]) -> Self {
            Self { msg }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub trait Aead {
        fn encrypt<'m>(&self, nonce: &super::Nonce, plaintext: impl Into<Payload<'m>>) -> Result<Vec<u8>, Error>;
        fn decrypt<'m>(&self, nonce: &super::Nonce, ciphertext: impl Into<Payload<'m>>) -> Result<Vec<u8>, Error>;
    }
    pub trait KeyInit: Sized {
        fn new(key: &super::Key) -> Self;
        fn new_from_slice(key: &[u8]) -> Result<Self, Error> {
            if key.len() != super::KEY_SIZE {
                return Err(Error);
            }
            Ok(Self::new(super::Key::from_slice(key)))
        }
    }
}
pub use aead::{Error, KeyInit};

pub struct XSalsa20Poly1305([u8; 32]);
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &Key) -> Self {
        Self(key.as_slice().try_into().unwrap())
    }
}

fn rounds(key: &[u8; 32], input: [u8; 16]) -> ([u32; 16], [u32; 16]) {
    let w = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let c = b"expand 32-byte k";
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[5 * i] = w(&c[4 * i..4 * i + 4]);
        s[1 + i] = w(&key[4 * i..4 * i + 4]);
        s[11 + i] = w(&key[16 + 4 * i..20 + 4 * i]);
        s[6 + i] = w(&input[4 * i..4 * i + 4]);
    }
    let mut x = s;
    for _ in 0..10 {
        let mut q = |a: usize, b: usize, c: usize, d: usize| {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        };
        q(0, 4, 8, 12);
        q(5, 9, 13, 1);
        q(10, 14, 2, 6);
        q(15, 3, 7, 11);
        q(0, 1, 2, 3);
        q(5, 6, 7, 4);
        q(10, 11, 8, 9);
        q(15, 12, 13, 14);
    }
    (s, x)
}
fn stream(key: &[u8; 32], nonce: &[u8], n: usize) -> Vec<u8> {
    let (_, x) = rounds(key, nonce[..16].try_into().unwrap());
    let mut sub = [0; 32];
    for (i, j) in [0, 5, 10, 15, 6, 7, 8, 9].into_iter().enumerate() {
        sub[4 * i..4 * i + 4].copy_from_slice(&x[j].to_le_bytes());
    }
    let mut out = vec![];
    let mut count = 0u64;
    while out.len() < n {
        let mut input = [0; 16];
        input[..8].copy_from_slice(&nonce[16..]);
        input[8..].copy_from_slice(&count.to_le_bytes());
        let (s, x) = rounds(&sub, input);
        for i in 0..16 {
            out.extend(s[i].wrapping_add(x[i]).to_le_bytes());
        }
        count += 1;
    }
    out
}
fn tag(key: &[u8], text: &[u8]) -> [u8; 16] {
    let mut r: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&r);
    let p = (BigUint::from(1u8) << 130) - 5u8;
    let mut a = BigUint::from(0u8);
    for c in text.chunks(16) {
        let mut c = c.to_vec();
        c.push(1);
        a = (a + BigUint::from_bytes_le(&c)) * &r % &p;
    }
    a += BigUint::from_bytes_le(&key[16..32]);
    let mut b = a.to_bytes_le();
    b.resize(32, 0);
    b[..16].try_into().unwrap()
}
impl aead::Aead for XSalsa20Poly1305 {
    fn encrypt<'m>(&self, nonce: &Nonce, plaintext: impl Into<aead::Payload<'m>>) -> Result<Vec<u8>, Error> {
        let m = plaintext.into().msg;
        let k = stream(&self.0, nonce, 32 + m.len());
        let c: Vec<u8> = m.iter().zip(&k[32..]).map(|(a, b)| a ^ b).collect();
        Ok([&tag(&k, &c)[..], &c].concat())
    }
    fn decrypt<'m>(&self, nonce: &Nonce, ciphertext: impl Into<aead::Payload<'m>>) -> Result<Vec<u8>, Error> {
        let c = ciphertext.into().msg;
        if c.len() < TAG_SIZE {
            return Err(Error);
        }
        let (t, c) = c.split_at(TAG_SIZE);
        let k = stream(&self.0, nonce, 32 + c.len());
        if tag(&k, c) != t {
            return Err(Error);
        }
        Ok(c.iter().zip(&k[32..]).map(|(a, b)| a ^ b).collect())
    }
}
