//! Stand-in for `blake2`: BLAKE2b with a variable output length.
pub mod digest {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidOutputSize;
    impl std::fmt::Display for InvalidOutputSize {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid output size")
        }
    }
    impl std::error::Error for InvalidOutputSize {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidBufferSize;
    impl std::fmt::Display for InvalidBufferSize {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid buffer length")
        }
    }
    impl std::error::Error for InvalidBufferSize {}
    pub trait Update {
        fn update(&mut self, data: &[u8]);
    }
    pub trait VariableOutput: Sized {
        const MAX_OUTPUT_SIZE: usize;
        fn new(n: usize) -> Result<Self, InvalidOutputSize>;
        fn output_size(&self) -> usize;
        fn finalize_variable(self, out: &mut [u8]) -> Result<(), InvalidBufferSize>;
        fn finalize_boxed(self) -> Box<[u8]> {
            let mut v = vec![0; self.output_size()];
            self.finalize_variable(&mut v).unwrap();
            v.into_boxed_slice()
        }
    }
}
use digest::*;
#[derive(Clone)]
pub struct Blake2bVar(usize, Vec<u8>);
impl Update for Blake2bVar {
    fn update(&mut self, data: &[u8]) {
        self.1.extend_from_slice(data)
    }
}
impl VariableOutput for Blake2bVar {
    const MAX_OUTPUT_SIZE: usize = 64;
    fn new(n: usize) -> Result<Self, InvalidOutputSize> {
        if n == 0 || n > 64 {
            return Err(InvalidOutputSize);
        }
        Ok(Self(n, vec![]))
    }
    fn output_size(&self) -> usize {
        self.0
    }
    fn finalize_variable(self, out: &mut [u8]) -> Result<(), InvalidBufferSize> {
        if out.len() != self.0 {
            return Err(InvalidBufferSize);
        }
        out.copy_from_slice(&hashes::blake2b(self.0, &self.1));
        Ok(())
    }
}
