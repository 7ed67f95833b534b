//! `wait-timeout` for simulated processes.
use std::{io, process::ExitStatus, time::Duration};
pub trait ChildExt {
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>>;
    fn wait_timeout_ms(&mut self, ms: u32) -> io::Result<Option<ExitStatus>> {
        self.wait_timeout(Duration::from_millis(ms as u64))
    }
}
impl ChildExt for simstd::process::Child {
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>> {
        self.sim_wait_timeout(dur)
    }
}
