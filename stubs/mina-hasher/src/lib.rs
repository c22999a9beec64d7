//! Stand-in for `mina-hasher`. Random oracle inputs are packed into field elements as the
//! original packs them; the Poseidon permutation is replaced by an ideal hash: the digest is
//! SHA-256 of (variant, domain string, field elements), cut to 254 bits, so that equal digests
//! mean equal inputs within everything the explorers enumerate.
use ark_ff::{BigInteger256, FromBytes, PrimeField};
pub use mina_curves::pasta::Fp;
use mina_curves::pasta::Fq;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ROInput {
    fields: Vec<Fp>,
    bits: Vec<bool>,
}
impl ROInput {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn append_hashable<H: Hashable>(self, input: &H) -> Self {
        self.append_roinput(input.to_roinput())
    }
    pub fn append_roinput(mut self, mut roi: ROInput) -> Self {
        self.fields.append(&mut roi.fields);
        self.bits.append(&mut roi.bits);
        self
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_scalar(mut self, s: Fq) -> Self {
        use ark_ff::BigInteger;
        let r = s.into_repr();
        self.bits.extend((0..255).map(|i| r.get_bit(i)));
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, bytes: &[u8]) -> Self {
        for b in bytes {
            self.bits.extend((0..8).map(|i| b >> i & 1 == 1));
        }
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn to_fields(&self) -> Vec<Fp> {
        let mut v = self.fields.clone();
        for c in self.bits.chunks(254) {
            let mut l = [0u64; 4];
            for (i, b) in c.iter().enumerate() {
                l[i / 64] |= (*b as u64) << (i % 64);
            }
            v.push(BigInteger256(l).into());
        }
        v
    }
}

pub trait DomainParameter: Clone {
    fn into_bytes(self) -> Vec<u8>;
}
impl DomainParameter for () {
    fn into_bytes(self) -> Vec<u8> {
        vec![]
    }
}
impl DomainParameter for u32 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
impl DomainParameter for u64 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}

pub trait Hashable: Clone {
    type D: DomainParameter;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}

/// The ideal hash.
pub fn ideal(kind: &str, domain: Option<&str>, fields: &[Fp]) -> Fp {
    use ark_ff::BigInteger;
    let mut m = kind.as_bytes().to_vec();
    m.push(0);
    match domain {
        None => m.push(0),
        Some(s) => {
            assert!(s.len() <= 20, "domain string is too long");
            m.push(1);
            m.extend_from_slice(format!("{:*<20}", s).as_bytes());
        }
    }
    for f in fields {
        m.extend_from_slice(&f.into_repr().to_bytes_le());
    }
    let mut h = hashes::sha256(&m);
    h[31] &= 0x3f;
    BigInteger256::read(&h[..]).unwrap().into()
}

pub trait Hasher<H: Hashable>: Sized {
    fn init(&mut self, domain_param: H::D) -> &mut Self;
    fn update(&mut self, input: &H) -> &mut Self;
    fn digest(&mut self) -> Fp;
    fn hash(&mut self, input: &H) -> Fp {
        self.update(input);
        self.digest()
    }
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp {
        self.init(domain_param);
        self.update(input);
        self.digest()
    }
}
pub struct IdealHasher {
    kind: &'static str,
    domain: Option<String>,
    fields: Vec<Fp>,
}
impl<H: Hashable> Hasher<H> for IdealHasher {
    fn init(&mut self, domain_param: H::D) -> &mut Self {
        self.domain = H::domain_string(domain_param);
        self.fields.clear();
        self
    }
    fn update(&mut self, input: &H) -> &mut Self {
        self.fields.extend(input.to_roinput().to_fields());
        self
    }
    fn digest(&mut self) -> Fp {
        let f = std::mem::take(&mut self.fields);
        ideal(self.kind, self.domain.as_deref(), &f)
    }
}
pub type PoseidonHasherLegacy = IdealHasher;
pub type PoseidonHasherKimchi = IdealHasher;
fn create<H: Hashable>(kind: &'static str, p: H::D) -> IdealHasher {
    IdealHasher { kind, domain: H::domain_string(p), fields: vec![] }
}
pub fn create_legacy<H: Hashable>(p: H::D) -> HasherOf<H> {
    HasherOf(create::<H>("legacy", p), std::marker::PhantomData)
}
pub fn create_kimchi<H: Hashable>(p: H::D) -> HasherOf<H> {
    HasherOf(create::<H>("kimchi", p), std::marker::PhantomData)
}
pub struct HasherOf<H>(IdealHasher, std::marker::PhantomData<H>);
impl<H: Hashable> Hasher<H> for HasherOf<H> {
    fn init(&mut self, p: H::D) -> &mut Self {
        Hasher::<H>::init(&mut self.0, p);
        self
    }
    fn update(&mut self, input: &H) -> &mut Self {
        Hasher::<H>::update(&mut self.0, input);
        self
    }
    fn digest(&mut self) -> Fp {
        Hasher::<H>::digest(&mut self.0)
    }
}
