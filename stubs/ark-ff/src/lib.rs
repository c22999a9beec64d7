//! Stand-in for the part of `ark-ff` 0.3 the repository uses: 256-bit integers and prime fields.
//! Field elements are kept in canonical (not Montgomery) form; conversions keep the documented
//! behaviour of the original, including the panic of `From<BigInteger256>` for values that are
//! not smaller than the modulus.
use num::BigUint;
pub use num::traits::{One, Zero};
use std::{
    cmp::Ordering,
    fmt,
    hash::Hash,
    io::{self, Read, Write},
    marker::PhantomData,
};

pub mod bytes {
    pub use super::{FromBytes, ToBytes};
}
pub mod fields {
    pub use super::{Field, FpParameters, PrimeField};
}

pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> io::Result<Self>;
}
pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> io::Result<()>;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct BigInteger256(pub [u64; 4]);

impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
}
pub trait BigInteger: Sized {
    fn muln(&mut self, amt: u32);
    fn divn(&mut self, amt: u32);
    fn is_even(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8>;
}
impl BigInteger for BigInteger256 {
    fn muln(&mut self, n: u32) {
        if n >= 256 {
            self.0 = [0; 4];
            return;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = [0u64; 4];
        for i in (w..4).rev() {
            r[i] = self.0[i - w] << b;
            if b > 0 && i > w {
                r[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        self.0 = r;
    }
    fn divn(&mut self, n: u32) {
        let big: BigUint = (*self).into();
        *self = (big >> n as usize).try_into().unwrap();
    }
    fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn num_bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl From<u64> for BigInteger256 {
    fn from(v: u64) -> Self {
        Self([v, 0, 0, 0])
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(v: BigUint) -> Result<Self, String> {
        let bytes = v.to_bytes_le();
        if bytes.len() > 32 {
            return Err("value is too big for 256 bits".into());
        }
        let mut b = [0u8; 32];
        b[..bytes.len()].copy_from_slice(&bytes);
        Ok(Self::read(&b[..]).unwrap())
    }
}
impl From<BigInteger256> for BigUint {
    fn from(v: BigInteger256) -> BigUint {
        BigUint::from_bytes_le(&v.to_bytes_le())
    }
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let mut l = [0u64; 4];
        for x in l.iter_mut() {
            let mut b = [0u8; 8];
            r.read_exact(&mut b)?;
            *x = u64::from_le_bytes(b);
        }
        Ok(Self(l))
    }
}
impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.to_bytes_le())
    }
}
impl fmt::Display for BigInteger256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for i in self.0.iter().rev() {
            write!(f, "{:016X}", i)?;
        }
        Ok(())
    }
}

pub trait FpParameters: 'static + Send + Sync + Sized {
    const MODULUS: BigInteger256;
    const MODULUS_BITS: u32;
}

pub trait Field: Sized + Copy {
    fn square(&self) -> Self;
    fn pow(&self, e: &BigUint) -> Self;
    fn inverse(&self) -> Option<Self>;
}

pub trait PrimeField: Field {
    type Params: FpParameters;
    type BigInt;
    fn from_repr(r: BigInteger256) -> Option<Self>;
    fn into_repr(&self) -> BigInteger256;
    fn size_in_bits() -> usize {
        Self::Params::MODULUS_BITS as usize
    }
}

pub struct Fp256<P>(BigInteger256, PhantomData<P>);

impl<P> Clone for Fp256<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P> Copy for Fp256<P> {}
impl<P> PartialEq for Fp256<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P> Eq for Fp256<P> {}
impl<P> Hash for Fp256<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P> Ord for Fp256<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P> PartialOrd for Fp256<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P> Default for Fp256<P> {
    fn default() -> Self {
        Self(BigInteger256::default(), PhantomData)
    }
}
impl<P> fmt::Debug for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fp256({})", self.0)
    }
}
impl<P> fmt::Display for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fp256({})", self.0)
    }
}
impl<P: FpParameters> Fp256<P> {
    fn modulus() -> BigUint {
        P::MODULUS.into()
    }
    fn big(&self) -> BigUint {
        self.0.into()
    }
    fn reduce(v: BigUint) -> Self {
        Self((v % Self::modulus()).try_into().unwrap(), PhantomData)
    }
}
impl<P: FpParameters> From<BigInteger256> for Fp256<P> {
    /// Panics if the value is not smaller than the modulus, like the original.
    fn from(v: BigInteger256) -> Self {
        Self::from_repr(v).unwrap()
    }
}
impl<P> From<Fp256<P>> for BigInteger256 {
    fn from(v: Fp256<P>) -> Self {
        v.0
    }
}
impl<P> From<Fp256<P>> for BigUint {
    fn from(v: Fp256<P>) -> Self {
        v.0.into()
    }
}
macro_rules! from_int { ($($t:ty),*) => { $(
    impl<P: FpParameters> From<$t> for Fp256<P> {
        fn from(v: $t) -> Self {
            Self(BigInteger256([v as u64, 0, 0, 0]), PhantomData)
        }
    } )* }
}
from_int!(u64, u32, u16, u8, bool);
impl<P: FpParameters> std::ops::Add for Fp256<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let mut sum = [0u64; 4];
        let mut carry = 0u128;
        for i in 0..4 {
            carry += self.0 .0[i] as u128 + o.0 .0[i] as u128;
            sum[i] = carry as u64;
            carry >>= 64;
        }
        let sum = BigInteger256(sum);
        if carry == 0 && sum < P::MODULUS {
            return Self(sum, PhantomData);
        }
        Self::reduce(self.big() + o.big())
    }
}
impl<P: FpParameters> std::ops::AddAssign for Fp256<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<P: FpParameters> std::ops::Sub for Fp256<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::reduce(self.big() + Self::modulus() - o.big())
    }
}
impl<P: FpParameters> std::ops::Mul for Fp256<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self::reduce(self.big() * o.big())
    }
}
impl<P: FpParameters> std::ops::Neg for Fp256<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::reduce(Self::modulus() - self.big())
    }
}
impl<P: FpParameters> Zero for Fp256<P> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        BigInteger::is_zero(&self.0)
    }
}
impl<P: FpParameters> One for Fp256<P> {
    fn one() -> Self {
        1u64.into()
    }
}
impl<P: FpParameters> Field for Fp256<P> {
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow(&self, e: &BigUint) -> Self {
        Self::reduce(self.big().modpow(e, &Self::modulus()))
    }
    fn inverse(&self) -> Option<Self> {
        if Zero::is_zero(self) {
            None
        } else {
            Some(self.pow(&(Self::modulus() - 2u32)))
        }
    }
}
impl<P: FpParameters> PrimeField for Fp256<P> {
    type Params = P;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        if r < P::MODULUS {
            Some(Self(r, PhantomData))
        } else {
            None
        }
    }
    fn into_repr(&self) -> BigInteger256 {
        self.0
    }
}
impl<P: FpParameters> FromBytes for Fp256<P> {
    fn read<R: Read>(r: R) -> io::Result<Self> {
        Self::from_repr(BigInteger256::read(r)?)
            .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "FromBytes::read failed"))
    }
}
impl<P: FpParameters> ToBytes for Fp256<P> {
    fn write<W: Write>(&self, w: W) -> io::Result<()> {
        self.0.write(w)
    }
}
