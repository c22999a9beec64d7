//! Stand-in for `o1-utils`: conversions of field elements.
pub mod field_helpers {
    use ark_ff::{BigInteger256, Fp256, FpParameters, FromBytes, PrimeField};

    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum FieldHelpersError {
        #[error("failed to deserialize field bytes")]
        DeserializeBytes,
        #[error("failed to deserialize field bits")]
        DeserializeBits,
        #[error("failed to decode hex")]
        DecodeHex,
    }
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;

    pub trait FieldHelpers<F> {
        fn from_bytes(bytes: &[u8]) -> Result<F>;
        fn from_hex(hex: &str) -> Result<F>;
        fn to_bytes(&self) -> Vec<u8>;
        fn to_hex(&self) -> String;
    }
    impl<P: FpParameters> FieldHelpers<Fp256<P>> for Fp256<P> {
        /// Little-endian; fails for fewer than 32 bytes and for values not smaller than the
        /// modulus; further bytes are not read.
        fn from_bytes(bytes: &[u8]) -> Result<Self> {
            BigInteger256::read(bytes)
                .ok()
                .and_then(Self::from_repr)
                .ok_or(FieldHelpersError::DeserializeBytes)
        }
        fn from_hex(hex: &str) -> Result<Self> {
            let b = hex::decode(hex).map_err(|_| FieldHelpersError::DecodeHex)?;
            Self::from_bytes(&b)
        }
        fn to_bytes(&self) -> Vec<u8> {
            use ark_ff::BigInteger;
            self.into_repr().to_bytes_le()
        }
        fn to_hex(&self) -> String {
            hex::encode(FieldHelpers::to_bytes(self))
        }
    }
}
pub use field_helpers::FieldHelpers;
