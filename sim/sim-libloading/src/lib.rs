//! `libloading` on the simulated loader.

use std::{ffi::OsStr, fmt, marker::PhantomData, ops::Deref, path::Path};

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Library(u32);

pub struct Symbol<'lib, T> {
    addr: usize,
    pd: PhantomData<(&'lib Library, T)>,
}

impl Library {
    /// # Safety
    /// As the real one.
    pub unsafe fn new<P: AsRef<OsStr>>(filename: P) -> Result<Self, Error> {
        simcode::lib_open(Path::new(filename.as_ref())).map(Self).map_err(Error)
    }

    /// # Safety
    /// As the real one.
    pub unsafe fn get<T>(&self, symbol: impl AsRef<[u8]>) -> Result<Symbol<'_, T>, Error> {
        assert!(size_of::<T>() == size_of::<usize>());
        let s = symbol.as_ref();
        let s = s.strip_suffix(b"\0").unwrap_or(s);
        if s.contains(&0) {
            return Err(Error("a nul byte in the symbol name".into()));
        }
        let name = std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?;
        simcode::lib_symbol(self.0, name).map(|addr| Symbol { addr, pd: PhantomData }).map_err(Error)
    }

    pub fn close(self) -> Result<(), Error> {
        Ok(())
    }
}

impl Drop for Library {
    fn drop(&mut self) {
        simcode::lib_close(self.0);
    }
}

impl<T> Deref for Symbol<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        // SAFETY: `T` is a function pointer type of the size of an address.
        unsafe { &*(&raw const self.addr as *const T) }
    }
}
