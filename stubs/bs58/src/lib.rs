//! Stand-in for `bs58` 0.4 with the `check` feature.
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn checksum(b: &[u8]) -> [u8; 4] {
    let h = hashes::sha256(&hashes::sha256(b));
    [h[0], h[1], h[2], h[3]]
}

pub fn encode<I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'static, I> {
    encode::EncodeBuilder { input, check: encode::Check::Disabled, _pd: std::marker::PhantomData }
}
pub fn decode<I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<'static, I> {
    decode::DecodeBuilder { input, check: decode::Check::Disabled, _pd: std::marker::PhantomData }
}

pub mod encode {
    pub(crate) enum Check {
        Disabled,
        Enabled(Option<u8>),
    }
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Check,
        pub(crate) _pd: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check(self) -> Self {
            Self { check: Check::Enabled(None), ..self }
        }
        pub fn with_check_version(self, v: u8) -> Self {
            Self { check: Check::Enabled(Some(v)), ..self }
        }
        pub fn into_vec(self) -> Vec<u8> {
            let mut b = vec![];
            match self.check {
                Check::Disabled => b.extend_from_slice(self.input.as_ref()),
                Check::Enabled(v) => {
                    b.extend(v);
                    b.extend_from_slice(self.input.as_ref());
                    let c = super::checksum(&b);
                    b.extend_from_slice(&c);
                }
            }
            let mut digits: Vec<u8> = vec![];
            for x in &b {
                let mut carry = *x as u32;
                for d in digits.iter_mut() {
                    carry += (*d as u32) << 8;
                    *d = (carry % 58) as u8;
                    carry /= 58;
                }
                while carry > 0 {
                    digits.push((carry % 58) as u8);
                    carry /= 58;
                }
            }
            let zeros = b.iter().take_while(|x| **x == 0).count();
            let mut out = vec![b'1'; zeros];
            out.extend(digits.iter().rev().map(|d| super::ALPHABET[*d as usize]));
            out
        }
        pub fn into_string(self) -> String {
            String::from_utf8(self.into_vec()).unwrap()
        }
    }
}

pub mod decode {
    pub(crate) enum Check {
        Disabled,
        Enabled(Option<u8>),
    }
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Check,
        pub(crate) _pd: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub fn with_check(self, expected_ver: Option<u8>) -> Self {
            Self { check: Check::Enabled(expected_ver), ..self }
        }
        pub fn into_vec(self) -> Result<Vec<u8>> {
            let mut bytes: Vec<u8> = vec![];
            let mut zeros = 0;
            let mut leading = true;
            for (index, c) in self.input.as_ref().iter().enumerate() {
                if *c > 127 {
                    return Err(Error::NonAsciiCharacter { index });
                }
                let v = super::ALPHABET
                    .iter()
                    .position(|a| a == c)
                    .ok_or(Error::InvalidCharacter { character: *c as char, index })?;
                if leading && v == 0 {
                    zeros += 1;
                    continue;
                }
                leading = false;
                let mut carry = v as u32;
                for b in bytes.iter_mut() {
                    carry += *b as u32 * 58;
                    *b = carry as u8;
                    carry >>= 8;
                }
                while carry > 0 {
                    bytes.push(carry as u8);
                    carry >>= 8;
                }
            }
            bytes.extend(std::iter::repeat(0).take(zeros));
            bytes.reverse();
            if let Check::Enabled(ver) = self.check {
                if bytes.len() < 4 {
                    return Err(Error::NoChecksum);
                }
                let rest = bytes.split_off(bytes.len() - 4);
                let mut checksum = [0; 4];
                checksum.copy_from_slice(&rest);
                let expected_checksum = super::checksum(&bytes);
                if checksum != expected_checksum {
                    return Err(Error::InvalidChecksum { checksum, expected_checksum });
                }
                if let Some(expected_ver) = ver {
                    // As in the original, an empty payload has no version to compare.
                    if let Some(v) = bytes.first() {
                        if *v != expected_ver {
                            return Err(Error::InvalidVersion { ver: *v, expected_ver });
                        }
                    } else {
                        return Err(Error::NoChecksum);
                    }
                }
            }
            Ok(bytes)
        }
    }
}
