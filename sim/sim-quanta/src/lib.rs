//! `quanta` on the virtual clock.
pub use simstd::time::Instant;
#[derive(Clone, Debug, Default)]
pub struct Clock(());
impl Clock {
    pub fn new() -> Self {
        Self(())
    }
    pub fn now(&self) -> Instant {
        Instant::now()
    }
    pub fn recent(&self) -> Instant {
        Instant::now()
    }
}
