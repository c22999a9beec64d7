//! Stand-in for RocksDB: an ordered map in memory that can be read from a write-ahead log and
//! made to fail at a chosen entry. Iterators behave as documented for rocksdb 0.19: they give
//! every entry from their start in key order (with no prefix extractor, a prefix iterator goes
//! on to the end of the database), and an error once, after which they have ended.
use std::collections::BTreeMap;
use std::fmt;
use std::path::Path;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn new(m: impl Into<String>) -> Self {
        Self { message: m.into() }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Clone)]
pub struct Options;
#[derive(Default, Clone)]
pub struct ReadOptions;
impl ReadOptions {
    pub fn set_prefix_same_as_start(&mut self, _: bool) {}
    pub fn set_total_order_seek(&mut self, _: bool) {}
}

#[derive(Clone, Copy, Debug)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

type Entry = (Vec<u8>, Vec<u8>);

#[derive(Default)]
pub struct DB {
    entries: Vec<Entry>,
    /// number of the entry at which reading fails (the number of entries: at the end)
    fail_at: Option<usize>,
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);

pub struct DBIterator<'a> {
    db: &'a DB,
    /// next entry
    at: Option<usize>,
    forward: bool,
}
impl Iterator for DBIterator<'_> {
    type Item = Result<KVBytes, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.at?;
        if self.db.fail_at == Some(i) {
            self.at = None;
            return Some(Err(Error::new("Corruption: block checksum mismatch")));
        }
        match self.db.entries.get(i) {
            Some((k, v)) => {
                self.at = if self.forward { Some(i + 1) } else { i.checked_sub(1) };
                Some(Ok((k.clone().into(), v.clone().into())))
            }
            None => {
                self.at = None;
                None
            }
        }
    }
}
impl DBIterator<'_> {
    pub fn set_mode(&mut self, mode: IteratorMode) {
        *self = self.db.iterator(mode);
    }
}

impl DB {
    /// A database with these entries.
    pub fn with_entries(entries: impl IntoIterator<Item = Entry>, fail_at: Option<usize>) -> Self {
        let m: BTreeMap<_, _> = entries.into_iter().collect();
        Self { entries: m.into_iter().collect(), fail_at }
    }
    /// Reads the write-ahead log of a database that was never compacted.
    pub fn open_for_read_only(_: &Options, path: impl AsRef<Path>, _error_if_log_file_exists: bool) -> Result<Self, Error> {
        let log = std::fs::read(path.as_ref().join("000003.log")).map_err(|e| Error::new(e.to_string()))?;
        Ok(Self { entries: wal(&log).ok_or_else(|| Error::new("Corruption: log"))?, fail_at: None })
    }
    pub fn open(o: &Options, path: impl AsRef<Path>) -> Result<Self, Error> {
        Self::open_for_read_only(o, path, false)
    }
    pub fn open_default(path: impl AsRef<Path>) -> Result<Self, Error> {
        Self::open_for_read_only(&Options, path, false)
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIterator {
        let (at, forward) = match mode {
            IteratorMode::Start => (Some(0), true),
            IteratorMode::End => (self.entries.len().checked_sub(1), false),
            IteratorMode::From(k, Direction::Forward) => (Some(self.entries.partition_point(|e| e.0.as_slice() < k)), true),
            IteratorMode::From(k, Direction::Reverse) => (self.entries.partition_point(|e| e.0.as_slice() <= k).checked_sub(1), false),
        };
        DBIterator { db: self, at, forward }
    }
    pub fn iterator_opt(&self, mode: IteratorMode, _: ReadOptions) -> DBIterator {
        self.iterator(mode)
    }
    pub fn full_iterator(&self, mode: IteratorMode) -> DBIterator {
        self.iterator(mode)
    }
    pub fn prefix_iterator(&self, prefix: impl AsRef<[u8]>) -> DBIterator {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn get(&self, key: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, Error> {
        match self.entries.binary_search_by(|e| e.0.as_slice().cmp(key.as_ref())) {
            Ok(i) | Err(i) if self.fail_at == Some(i) => Err(Error::new("Corruption: block checksum mismatch")),
            Ok(i) => Ok(Some(self.entries[i].1.clone())),
            Err(_) => Ok(None),
        }
    }
}

/// The records of a log: in blocks of 32 KiB, (checksum 4, length 2, type 1, payload).
fn wal(d: &[u8]) -> Option<Vec<Entry>> {
    const BLOCK: usize = 32768;
    let (mut pos, mut cur, mut kv) = (0, vec![], BTreeMap::new());
    while pos + 7 <= d.len() {
        let left = BLOCK - pos % BLOCK;
        let (n, t) = (u16::from_le_bytes([d[pos + 4], d[pos + 5]]) as usize, d[pos + 6]);
        if left < 7 || (t == 0 && n == 0) {
            pos += left;
            continue;
        }
        let p = d.get(pos + 7..pos + 7 + n)?;
        pos += 7 + n;
        if t == 1 || t == 2 {
            cur.clear();
        }
        cur.extend_from_slice(p);
        if t == 1 || t == 4 {
            batch(&cur, &mut kv)?;
        }
    }
    Some(kv.into_iter().collect())
}
fn batch(r: &[u8], kv: &mut BTreeMap<Vec<u8>, Vec<u8>>) -> Option<()> {
    fn varint<'a>(r: &mut &'a [u8]) -> Option<&'a [u8]> {
        let (mut n, mut s) = (0usize, 0);
        loop {
            let (b, rest) = r.split_first()?;
            *r = rest;
            n |= ((b & 127) as usize) << s;
            s += 7;
            if *b < 128 {
                break;
            }
        }
        let (a, rest) = (r.get(..n)?, r.get(n..)?);
        *r = rest;
        Some(a)
    }
    let mut r = r.get(12..)?;
    while let Some((op, rest)) = r.split_first() {
        r = rest;
        let k = varint(&mut r)?.to_vec();
        match op {
            1 => {
                kv.insert(k, varint(&mut r)?.to_vec());
            }
            0 => {
                kv.remove(&k);
            }
            _ => return None,
        }
    }
    Some(())
}
