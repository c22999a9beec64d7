//! Stand-in for `mina-curves`: the two Pasta fields and the Pallas curve y^2 = x^3 + 5.
pub mod pasta {
    use ark_ec::{ModelParameters, SWModelParameters};
    use ark_ff::{BigInteger256, Field, Fp256, FpParameters, One, PrimeField, Zero};
    use num::BigUint;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct FpParams;
    impl FpParameters for FpParams {
        // 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
        const MODULUS: BigInteger256 = BigInteger256([
            0x992d30ed00000001,
            0x224698fc094cf91b,
            0,
            0x4000000000000000,
        ]);
        const MODULUS_BITS: u32 = 255;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct FqParams;
    impl FpParameters for FqParams {
        // 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
        const MODULUS: BigInteger256 = BigInteger256([
            0x8c46eb2100000001,
            0x224698fc0994a8dd,
            0,
            0x4000000000000000,
        ]);
        const MODULUS_BITS: u32 = 255;
    }
    pub type Fp = Fp256<FpParams>;
    pub type Fq = Fp256<FqParams>;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PallasParameters;
    impl ModelParameters for PallasParameters {
        type BaseField = Fp;
        type ScalarField = Fq;
    }
    impl SWModelParameters for PallasParameters {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct VestaParameters;
    impl ModelParameters for VestaParameters {
        type BaseField = Fq;
        type ScalarField = Fp;
    }
    impl SWModelParameters for VestaParameters {}

    /// Square root by Tonelli and Shanks.
    pub fn sqrt(a: Fp) -> Option<Fp> {
        if a.is_zero() {
            return Some(a);
        }
        let m: BigUint = FpParams::MODULUS.into();
        let half = (&m - 1u32) >> 1usize;
        if a.pow(&half) != Fp::one() {
            return None;
        }
        let s = 32u32;
        let q = (&m - 1u32) >> s as usize;
        let z: Fp = 5u64.into(); // a generator of the multiplicative group
        let mut c = z.pow(&q);
        let mut r = a.pow(&((&q + 1u32) >> 1usize));
        let mut t = a.pow(&q);
        let mut mm = s;
        while t != Fp::one() {
            let mut i = 0;
            let mut t2 = t;
            while t2 != Fp::one() {
                t2 = t2.square();
                i += 1;
                if i == mm {
                    return None;
                }
            }
            let mut b = c;
            for _ in 0..(mm - i - 1) {
                b = b.square();
            }
            r = r * b;
            c = b.square();
            t = t * c;
            mm = i;
        }
        Some(r)
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Point {
        pub x: Fp,
        pub y: Fp,
        pub infinity: bool,
    }
    impl Point {
        pub fn infinity() -> Self {
            Self { x: Fp::zero(), y: Fp::zero(), infinity: true }
        }
        /// The point with the given x coordinate and the given parity of y.
        pub fn from_x(x: Fp, is_odd: bool) -> Option<Self> {
            use ark_ff::BigInteger;
            let y = sqrt(x * x * x + 5u64.into())?;
            let y = if y.into_repr().is_odd() == is_odd { y } else { -y };
            Some(Self { x, y, infinity: false })
        }
        pub fn is_on_curve(&self) -> bool {
            self.infinity || self.y * self.y == self.x * self.x * self.x + 5u64.into()
        }
        pub fn add(self, o: Self) -> Self {
            if self.infinity {
                return o;
            }
            if o.infinity {
                return self;
            }
            let l = if self.x == o.x {
                if self.y != o.y || self.y.is_zero() {
                    return Self::infinity();
                }
                self.x * self.x * 3u64.into() * (self.y + self.y).inverse().unwrap()
            } else {
                (o.y - self.y) * (o.x - self.x).inverse().unwrap()
            };
            let x = l * l - self.x - o.x;
            Self { x, y: l * (self.x - x) - self.y, infinity: false }
        }
        pub fn mul(self, k: Fq) -> Self {
            use ark_ff::BigInteger;
            let k = k.into_repr();
            let mut r = Self::infinity();
            for i in (0..256).rev() {
                r = r.add(r);
                if k.get_bit(i) {
                    r = r.add(self);
                }
            }
            r
        }
        /// The generator of Pallas used by Mina: (1, 12418654782883325593414442427049395787963493412651469444558597405572177144507)
        pub fn generator() -> Self {
            let y = BigUint::parse_bytes(
                b"12418654782883325593414442427049395787963493412651469444558597405572177144507",
                10,
            )
            .unwrap();
            let y: BigInteger256 = y.try_into().unwrap();
            Self { x: Fp::one(), y: y.into(), infinity: false }
        }
    }
}
