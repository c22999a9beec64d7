//! Stand-in for the part of `time` 0.3 the repository uses.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Duration(i128);
impl Duration {
    pub const fn milliseconds(ms: i64) -> Self {
        Self(ms as i128 * 1_000_000)
    }
    pub const fn seconds(s: i64) -> Self {
        Self(s as i128 * 1_000_000_000)
    }
}
pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ComponentRange;
    impl std::fmt::Display for ComponentRange {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("timestamp out of range")
        }
    }
    impl std::error::Error for ComponentRange {}
}
/// Nanoseconds since 1970-01-01T00:00:00Z; the years -9999 to 9999 are representable.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OffsetDateTime(i128);
const MIN: i64 = -377705116800;
const MAX: i64 = 253402300799;
impl OffsetDateTime {
    pub const UNIX_EPOCH: Self = Self(0);
    pub fn from_unix_timestamp(s: i64) -> Result<Self, error::ComponentRange> {
        if (MIN..=MAX).contains(&s) {
            Ok(Self(s as i128 * 1_000_000_000))
        } else {
            Err(error::ComponentRange)
        }
    }
    pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, error::ComponentRange> {
        Self::from_unix_timestamp(n.div_euclid(1_000_000_000) as i64).map(|_| Self(n))
    }
    pub fn unix_timestamp(&self) -> i64 {
        self.0.div_euclid(1_000_000_000) as i64
    }
    pub fn unix_timestamp_nanos(&self) -> i128 {
        self.0
    }
}
impl std::ops::Add<Duration> for OffsetDateTime {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0 + d.0)
    }
}
impl std::ops::Sub<Duration> for OffsetDateTime {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        Self(self.0 - d.0)
    }
}
