//! Stand-in for `protobuf`: the trait of messages, and the wire format of the kinds of fields used.
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub trait Message: Clone + Default {
    fn fields(&mut self) -> Vec<(u32, Field<'_>)>;
    fn write_to_bytes(&self) -> Result<Vec<u8>, Error> {
        let mut me = self.clone();
        let mut out = vec![];
        for (n, f) in me.fields() {
            match f {
                Field::Text(s) if !s.is_empty() => {
                    varint(&mut out, (n << 3 | 2) as u64);
                    varint(&mut out, s.len() as u64);
                    out.extend(s.as_bytes());
                }
                Field::Bool(b) if *b => out.extend([(n << 3) as u8, 1]),
                Field::Int(i) if *i != 0 => {
                    varint(&mut out, (n << 3) as u64);
                    varint(&mut out, *i as u64);
                }
                _ => {}
            }
        }
        Ok(out)
    }
    fn parse_from_bytes(b: &[u8]) -> Result<Self, Error> {
        let mut me = Self::default();
        let mut i = 0;
        let err = || Error("malformed".into());
        while i < b.len() {
            let key = read_varint(b, &mut i).ok_or_else(err)?;
            let (n, wire) = ((key >> 3) as u32, key & 7);
            let field = me.fields().into_iter().find(|f| f.0 == n).map(|f| f.1);
            match wire {
                0 => {
                    let v = read_varint(b, &mut i).ok_or_else(err)?;
                    match field {
                        Some(Field::Bool(x)) => *x = v != 0,
                        Some(Field::Int(x)) => *x = v as i64,
                        Some(_) => return Err(err()),
                        None => {}
                    }
                }
                2 => {
                    let l = read_varint(b, &mut i).ok_or_else(err)? as usize;
                    let s = b.get(i..i.checked_add(l).ok_or_else(err)?).ok_or_else(err)?;
                    i += l;
                    match field {
                        Some(Field::Text(x)) => *x = String::from_utf8(s.to_vec()).map_err(|_| err())?,
                        Some(_) => return Err(err()),
                        None => {}
                    }
                }
                1 | 5 => i += if wire == 1 { 8 } else { 4 },
                _ => return Err(err()),
            }
            if i > b.len() {
                return Err(err());
            }
        }
        Ok(me)
    }
}
pub enum Field<'a> {
    Text(&'a mut String),
    Bool(&'a mut bool),
    Int(&'a mut i64),
}
fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}
fn read_varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut r = 0u64;
    for k in 0..10 {
        let x = *b.get(*i)?;
        *i += 1;
        r |= ((x & 127) as u64) << (7 * k);
        if x < 128 {
            return Some(r);
        }
    }
    None
}
