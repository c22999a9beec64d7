//! Stand-in for `base64` 0.13.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}

fn symbol(c: Config, v: u8) -> u8 {
    match v {
        0..=25 => b'A' + v,
        26..=51 => b'a' + v - 26,
        52..=61 => b'0' + v - 52,
        62 => if c.url { b'-' } else { b'+' },
        _ => if c.url { b'_' } else { b'/' },
    }
}
fn value(c: Config, b: u8) -> Option<u8> {
    (0..64).find(|v| symbol(c, *v) == b)
}
pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    encode_config(input, STANDARD)
}
pub fn encode_config<T: AsRef<[u8]>>(input: T, c: Config) -> String {
    let mut out = String::new();
    for ch in input.as_ref().chunks(3) {
        let n = (ch[0] as u32) << 16
            | (*ch.get(1).unwrap_or(&0) as u32) << 8
            | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                out.push(symbol(c, (n >> (18 - 6 * i) & 63) as u8) as char);
            } else if c.pad {
                out.push('=');
            }
        }
    }
    out
}
pub fn decode<T: AsRef<[u8]>>(input: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(input, STANDARD)
}
/// As in 0.13, padding may be missing or partial, and unused bits of the last symbol must be 0.
pub fn decode_config<T: AsRef<[u8]>>(input: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let input = input.as_ref();
    let mut end = input.len();
    let mut pad = 0;
    while end > 0 && input[end - 1] == b'=' {
        end -= 1;
        pad += 1;
    }
    let (full, rem) = (end / 4 * 4, end % 4);
    if pad > 0 && (rem < 2 || pad + rem > 4) {
        return Err(DecodeError::InvalidByte(end, b'='));
    }
    let mut out = vec![];
    let mut acc = 0u32;
    for (i, b) in input[..end].iter().enumerate() {
        let v = value(c, *b).ok_or(DecodeError::InvalidByte(i, *b))?;
        acc = acc << 6 | v as u32;
        if i % 4 == 3 {
            out.extend_from_slice(&[(acc >> 16) as u8, (acc >> 8) as u8, acc as u8]);
            acc = 0;
        }
    }
    match rem {
        0 => {}
        1 => return Err(DecodeError::InvalidLength),
        2 => {
            if acc & 15 != 0 {
                return Err(DecodeError::InvalidLastSymbol(full + 1, input[full + 1]));
            }
            out.push((acc >> 4) as u8);
        }
        _ => {
            if acc & 3 != 0 {
                return Err(DecodeError::InvalidLastSymbol(full + 2, input[full + 2]));
            }
            out.extend_from_slice(&[(acc >> 10) as u8, (acc >> 2) as u8]);
        }
    }
    Ok(out)
}
