//! Stand-in for `mina-signer`. Keys and addresses are computed on the real curve; signatures are
//! ideal: the signature of a message is a pair of ideal hashes of (scheme, key, network, message)
//! and verification recomputes it, so a signature is valid for exactly one (key, network, message).
use ark_ff::{BigInteger, BigInteger256, Fp256, PrimeField, Zero};
use mina_curves::pasta::{self, Point};
use mina_hasher::{DomainParameter, Hashable};
use o1_utils::FieldHelpers;

pub type BaseField = pasta::Fp;
pub type ScalarField = pasta::Fq;
pub type CurvePoint = Point;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl From<NetworkId> for u8 {
    fn from(id: NetworkId) -> u8 {
        id as u8
    }
}
impl DomainParameter for NetworkId {
    fn into_bytes(self) -> Vec<u8> {
        vec![self as u8]
    }
}

pub mod pubkey {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum PubKeyError {
        #[error("Invalid address length")]
        AddressLength,
        #[error("Invalid address base58 bytes")]
        AddressBase58,
        #[error("Invalid raw address bytes length")]
        AddressRawByteLength,
        #[error("Invalid address checksum")]
        AddressChecksum,
        #[error("Invalid address version info")]
        AddressVersion,
        #[error("Invalid x-coordinate bytes")]
        XCoordinateBytes,
        #[error("Invalid x-coordinate")]
        XCoordinate,
        #[error("Point not on curve")]
        YCoordinateBytes,
        #[error("Invalid y-coordinate parity")]
        YCoordinateParity,
    }
    pub type Result<T> = std::result::Result<T, PubKeyError>;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CompressedPubKey {
        pub x: BaseField,
        pub is_odd: bool,
    }
    impl CompressedPubKey {
        pub fn empty() -> Self {
            Self { x: BaseField::zero(), is_odd: false }
        }
        pub fn into_address(&self) -> String {
            let mut raw = vec![0xcb, 0x01, 0x01];
            raw.extend(self.x.into_repr().to_bytes_le());
            raw.push(self.is_odd as u8);
            bs58::encode(raw).with_check().into_string()
        }
        pub fn from_address(address: &str) -> Result<Self> {
            if address.len() != 55 {
                return Err(PubKeyError::AddressLength);
            }
            let raw = match bs58::decode(address).with_check(None).into_vec() {
                Ok(v) => v,
                Err(bs58::decode::Error::InvalidChecksum { .. }) => {
                    return Err(PubKeyError::AddressChecksum)
                }
                Err(_) => return Err(PubKeyError::AddressBase58),
            };
            if raw.len() != 36 {
                return Err(PubKeyError::AddressRawByteLength);
            }
            if raw[..3] != [0xcb, 0x01, 0x01] {
                return Err(PubKeyError::AddressVersion);
            }
            let x = BaseField::from_bytes(&raw[3..35]).map_err(|_| PubKeyError::XCoordinateBytes)?;
            if raw[35] > 1 {
                return Err(PubKeyError::YCoordinateParity);
            }
            Ok(Self { x, is_odd: raw[35] == 1 })
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PubKey(pub(crate) Point);
    impl PubKey {
        pub fn from_point_unsafe(p: Point) -> Self {
            Self(p)
        }
        pub fn from_address(address: &str) -> Result<Self> {
            let c = CompressedPubKey::from_address(address)?;
            Point::from_x(c.x, c.is_odd).map(Self).ok_or(PubKeyError::XCoordinate)
        }
        pub fn into_point(self) -> Point {
            self.0
        }
        pub fn into_compressed(&self) -> CompressedPubKey {
            CompressedPubKey { x: self.0.x, is_odd: self.0.y.into_repr().is_odd() }
        }
        pub fn into_address(&self) -> String {
            self.into_compressed().into_address()
        }
    }
}
pub use pubkey::{CompressedPubKey, PubKey};

pub mod keypair {
    use super::*;
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum KeypairError {
        #[error("Invalid secret key hex")]
        SecretKeyHex,
        #[error("Invalid secret key bytes")]
        SecretKeyBytes,
        #[error("Public key point not on curve")]
        NonCurvePoint,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Keypair {
        pub public: PubKey,
        pub(crate) secret: ScalarField,
    }
    impl Keypair {
        pub fn from_secret_scalar(secret: ScalarField) -> Self {
            Self { public: PubKey(Point::generator().mul(secret)), secret }
        }
        pub fn from_hex(s: &str) -> std::result::Result<Self, KeypairError> {
            let mut b = hex::decode(s).map_err(|_| KeypairError::SecretKeyHex)?;
            b.reverse();
            Self::from_bytes_le(&b)
        }
        fn from_bytes_le(b: &[u8]) -> std::result::Result<Self, KeypairError> {
            let s = ScalarField::from_bytes(b).map_err(|_| KeypairError::SecretKeyBytes)?;
            Ok(Self::from_secret_scalar(s))
        }
        pub fn from_bytes(b: &[u8]) -> std::result::Result<Self, KeypairError> {
            let mut b = b.to_vec();
            b.reverse();
            Self::from_bytes_le(&b)
        }
        pub fn get_address(&self) -> String {
            self.public.into_address()
        }
    }
}
pub use keypair::Keypair;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: BaseField,
    pub s: ScalarField,
}
impl Signature {
    pub fn new(rx: BaseField, s: ScalarField) -> Self {
        Self { rx, s }
    }
}

pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool;
}
pub struct Ideal<H: Hashable> {
    kind: &'static str,
    domain: Option<String>,
    _pd: std::marker::PhantomData<H>,
}
impl<H: Hashable> Ideal<H> {
    fn value(&self, pk: &PubKey, input: &H) -> Signature {
        let pk = pk.into_compressed();
        let mut f = vec![pk.x, pk.is_odd.into()];
        f.extend(input.to_roinput().to_fields());
        let rx = mina_hasher::ideal(self.kind, self.domain.as_deref(), &f);
        f.push(rx);
        let s: BigInteger256 = mina_hasher::ideal(self.kind, self.domain.as_deref(), &f).into();
        Signature { rx, s: Fp256::from(s) }
    }
}
impl<H: Hashable> Signer<H> for Ideal<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        self.value(&kp.public, input)
    }
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool {
        self.value(pub_key, input) == *sig
    }
}
pub fn create_legacy<H: Hashable>(p: H::D) -> impl Signer<H> {
    Ideal::<H> { kind: "sig-legacy", domain: H::domain_string(p), _pd: Default::default() }
}
pub fn create_kimchi<H: Hashable>(p: H::D) -> impl Signer<H> {
    Ideal::<H> { kind: "sig-kimchi", domain: H::domain_string(p), _pd: Default::default() }
}
impl std::fmt::Display for Signature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (mut rx, mut s) = (self.rx.to_bytes(), self.s.to_bytes());
        rx.reverse();
        s.reverse();
        write!(f, "{}{}", hex::encode(rx), hex::encode(s))
    }
}
