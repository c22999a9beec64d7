//! Stand-in for `sha2`: SHA-256 only.
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        let mut h = Self::new();
        h.update(data);
        h.finalize()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Output(pub [u8; 32]);
impl std::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> Self {
        o.0
    }
}
impl IntoIterator for Output {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, 32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
#[derive(Clone, Default)]
pub struct Sha256(Vec<u8>);
impl Digest for Sha256 {
    fn new() -> Self {
        Self(vec![])
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref())
    }
    fn finalize(self) -> Output {
        Output(hashes::sha256(&self.0))
    }
}
