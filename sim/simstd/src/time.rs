//! Virtual clocks.
pub use ::std::time::*;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);

impl Instant {
    pub fn now() -> Self {
        Self(simk::now())
    }
    pub fn from_sim(ns: u64) -> Self {
        Self(ns)
    }
    pub fn as_sim(&self) -> u64 {
        self.0
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: Self) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Self) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Self) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_add(d)).map(Self)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        u64::try_from(d.as_nanos()).ok().and_then(|d| self.0.checked_sub(d)).map(Self)
    }
}
impl Add<Duration> for Instant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        self.duration_since(o)
    }
}

/// The wall clock: the virtual clock plus an offset that the harness may jump.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct SystemTime(i128);

#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl ::std::fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("second time provided was later than self")
    }
}
impl ::std::error::Error for SystemTimeError {}

pub const UNIX_EPOCH: SystemTime = SystemTime(0);

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> Self {
        // Wall-clock jumps: sometimes the clock reads before the epoch or far in the future.
        let base = 1_700_000_000_000_000_000i128 + simk::now() as i128;
        Self(match simk::fault("wall_clock", 3) {
            1 => -5_000_000_000,
            2 => base + 10_000_000_000_000_000,
            _ => base,
        })
    }
    pub fn duration_since(&self, o: SystemTime) -> ::std::result::Result<Duration, SystemTimeError> {
        let d = self.0 - o.0;
        let abs = Duration::from_nanos(d.unsigned_abs().min(u64::MAX as u128) as u64);
        if d >= 0 { Ok(abs) } else { Err(SystemTimeError(abs)) }
    }
    pub fn elapsed(&self) -> ::std::result::Result<Duration, SystemTimeError> {
        Self::now().duration_since(*self)
    }
}
impl SystemTime {
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        Some(Self(self.0 + d.as_nanos() as i128))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        Some(Self(self.0 - d.as_nanos() as i128))
    }
}
impl Add<Duration> for SystemTime {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0 + d.as_nanos() as i128)
    }
}
impl Sub<Duration> for SystemTime {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        Self(self.0 - d.as_nanos() as i128)
    }
}
