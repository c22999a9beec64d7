//! Stand-in for the part of `bitvec` the repository uses: least-significant-bit-first bit
//! vectors over bytes.
use std::marker::PhantomData;

pub mod prelude {
    pub use super::{BitSlice, BitVec, BitView, Lsb0};
}
pub mod vec {
    pub use super::BitVec;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Lsb0;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct BitVec<T = usize, O = Lsb0> {
    bits: Vec<bool>,
    _pd: PhantomData<(T, O)>,
}

pub struct BitSlice<T, O> {
    bits: Vec<bool>,
    _pd: PhantomData<(T, O)>,
}

impl<T, O> BitSlice<T, O> {
    pub fn to_bitvec(&self) -> BitVec<T, O> {
        BitVec { bits: self.bits.clone(), _pd: PhantomData }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, bool> {
        self.bits.iter()
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
}

pub trait BitView {
    fn as_bits<O>(&self) -> BitSlice<u8, O>;
    fn view_bits<O>(&self) -> BitSlice<u8, O> {
        self.as_bits()
    }
}

impl BitView for [u8] {
    fn as_bits<O>(&self) -> BitSlice<u8, O> {
        BitSlice {
            bits: self.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect(),
            _pd: PhantomData,
        }
    }
}

impl<T, O> BitVec<T, O> {
    pub fn new() -> Self {
        Self { bits: vec![], _pd: PhantomData }
    }
    pub fn with_capacity(n: usize) -> Self {
        Self { bits: Vec::with_capacity(n.max(256)), _pd: PhantomData }
    }
    pub fn push(&mut self, b: bool) {
        self.bits.push(b)
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bits.is_empty()
    }
    pub fn resize(&mut self, n: usize, b: bool) {
        self.bits.resize(n, b)
    }
    pub fn truncate(&mut self, n: usize) {
        self.bits.truncate(n)
    }
    pub fn clear(&mut self) {
        self.bits.clear()
    }
    pub fn reverse(&mut self) {
        self.bits.reverse()
    }
    pub fn insert(&mut self, i: usize, b: bool) {
        self.bits.insert(i, b)
    }
    pub fn set(&mut self, i: usize, b: bool) {
        self.bits[i] = b
    }
    pub fn iter(&self) -> std::slice::Iter<'_, bool> {
        self.bits.iter()
    }
    pub fn repeat(b: bool, n: usize) -> Self {
        Self { bits: vec![b; n], _pd: PhantomData }
    }
    pub fn pop(&mut self) -> Option<bool> {
        self.bits.pop()
    }
    pub fn get(&self, i: usize) -> Option<&bool> {
        self.bits.get(i)
    }
    pub fn first(&self) -> Option<&bool> {
        self.bits.first()
    }
    pub fn last(&self) -> Option<&bool> {
        self.bits.last()
    }
    pub fn count_ones(&self) -> usize {
        self.bits.iter().filter(|b| **b).count()
    }
    pub fn append(&mut self, o: &mut Self) {
        self.bits.append(&mut o.bits)
    }
    pub fn extend_from_bitslice(&mut self, o: &BitSlice<T, O>) {
        self.bits.extend_from_slice(&o.bits)
    }
}
impl<O> BitVec<u8, O> {
    pub fn into_vec(self) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.bits.len() / 8 + 1);
        // the lowest bits of the eight bytes, side by side
        let pack = |b: [u8; 8]| (u64::from_le_bytes(b).wrapping_mul(0x0102_0408_1020_4080) >> 56) as u8;
        let whole = self.bits.chunks_exact(8);
        let rest = whole.remainder();
        for c in whole {
            out.push(pack([c[0] as u8, c[1] as u8, c[2] as u8, c[3] as u8, c[4] as u8, c[5] as u8, c[6] as u8, c[7] as u8]));
        }
        if !rest.is_empty() {
            let mut b = [0u8; 8];
            for (b, c) in b.iter_mut().zip(rest) {
                *b = *c as u8;
            }
            out.push(pack(b));
        }
        out
    }
    pub fn from_slice(s: &[u8]) -> Self {
        s.as_bits::<O>().to_bitvec()
    }
    pub fn from_vec(s: Vec<u8>) -> Self {
        s.as_bits::<O>().to_bitvec()
    }
}
impl<T, O> IntoIterator for BitVec<T, O> {
    type Item = bool;
    type IntoIter = std::vec::IntoIter<bool>;
    fn into_iter(self) -> Self::IntoIter {
        self.bits.into_iter()
    }
}
impl<'a, T, O> IntoIterator for &'a BitVec<T, O> {
    type Item = &'a bool;
    type IntoIter = std::slice::Iter<'a, bool>;
    fn into_iter(self) -> Self::IntoIter {
        self.bits.iter()
    }
}
impl<'a, T, O> Extend<&'a bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = &'a bool>>(&mut self, i: I) {
        self.bits.extend(i)
    }
}
impl<'a, T, O> FromIterator<&'a bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = &'a bool>>(i: I) -> Self {
        Self { bits: i.into_iter().copied().collect(), _pd: PhantomData }
    }
}
impl<T, O> Extend<bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = bool>>(&mut self, i: I) {
        self.bits.extend(i)
    }
}
impl<T, O> FromIterator<bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        Self { bits: i.into_iter().collect(), _pd: PhantomData }
    }
}
impl<T, O> std::ops::Index<usize> for BitVec<T, O> {
    type Output = bool;
    fn index(&self, i: usize) -> &bool {
        &self.bits[i]
    }
}
