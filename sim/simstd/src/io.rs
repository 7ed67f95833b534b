//! `std::io` with the standard streams of the simulated process.
pub use ::std::io::*;
use ::std::io;

#[derive(Debug)]
pub struct Stdin(());
#[derive(Debug)]
pub struct StdinLock(());
#[derive(Debug)]
pub struct Stdout(());
#[derive(Debug)]
pub struct StdoutLock(());

pub fn stdin() -> Stdin {
    Stdin(())
}
pub fn stdout() -> Stdout {
    Stdout(())
}

fn pipe(out: bool) -> Option<u64> {
    let pid = simk::cur_pid();
    let p = &simk::k().procs[&pid];
    if out { p.stdout } else { p.stdin }
}

impl Stdin {
    pub fn lock(&self) -> StdinLock {
        StdinLock(())
    }
}
impl Stdout {
    pub fn lock(&self) -> StdoutLock {
        StdoutLock(())
    }
}
macro_rules! rd {
    ($t:ty) => {
        impl io::Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                match pipe(false) {
                    Some(p) => simk::pipe_read(p, buf),
                    None => Ok(0),
                }
            }
        }
    };
}
macro_rules! wr {
    ($t:ty) => {
        impl io::Write for $t {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                match pipe(true) {
                    Some(p) => simk::pipe_write(p, buf),
                    None => Ok(buf.len()),
                }
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
    };
}
rd!(Stdin);
rd!(StdinLock);
wr!(Stdout);
wr!(StdoutLock);

/// No stream of a simulated process is a terminal.
pub trait IsTerminal {
    fn is_terminal(&self) -> bool;
}
impl<T: io::IsTerminal> IsTerminal for T {
    fn is_terminal(&self) -> bool {
        false
    }
}
impl IsTerminal for Stdin {
    fn is_terminal(&self) -> bool {
        false
    }
}
impl IsTerminal for Stdout {
    fn is_terminal(&self) -> bool {
        false
    }
}
