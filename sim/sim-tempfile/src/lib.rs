//! Temporary directories inside the run's scratch directory, with predictable names.
use std::{io, path::{Path, PathBuf}};

#[derive(Debug)]
pub struct TempDir {
    path: PathBuf,
    keep: bool,
}
impl TempDir {
    pub fn new() -> io::Result<Self> {
        tempdir()
    }
    pub fn new_in<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        tempdir_in(p)
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn keep(mut self) -> PathBuf {
        self.keep = true;
        self.path.clone()
    }
    pub fn into_path(self) -> PathBuf {
        self.keep()
    }
    pub fn close(mut self) -> io::Result<()> {
        self.keep = true;
        simstd::fs::remove_dir_all(&self.path)
    }
}
impl AsRef<Path> for TempDir {
    fn as_ref(&self) -> &Path {
        &self.path
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        if !self.keep && simk::active() {
            let _ = simstd::fs::remove_dir_all(&self.path);
        }
    }
}
pub fn tempdir() -> io::Result<TempDir> {
    tempdir_in(simstd::env::temp_dir())
}
pub fn tempdir_in<P: AsRef<Path>>(p: P) -> io::Result<TempDir> {
    let n = simk::k().counters.entry("tempdir").or_default();
    *n += 1;
    let path = p.as_ref().join(format!(".tmp{n:06}"));
    std::fs::create_dir_all(p.as_ref())?;
    simstd::fs::create_dir(&path)?;
    Ok(TempDir { path, keep: false })
}
#[derive(Default)]
pub struct Builder(());
impl Builder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn prefix<S: ?Sized>(&mut self, _: &S) -> &mut Self {
        self
    }
    pub fn suffix<S: ?Sized>(&mut self, _: &S) -> &mut Self {
        self
    }
    pub fn rand_bytes(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn tempdir(&self) -> io::Result<TempDir> {
        tempdir()
    }
    pub fn tempfile(&self) -> io::Result<NamedTempFile> {
        NamedTempFile::new()
    }
    pub fn tempfile_in<P: AsRef<Path>>(&self, p: P) -> io::Result<NamedTempFile> {
        NamedTempFile::new_in(p)
    }
    pub fn tempdir_in<P: AsRef<Path>>(&self, p: P) -> io::Result<TempDir> {
        tempdir_in(p)
    }
}

#[derive(Debug)]
pub struct NamedTempFile {
    f: simstd::fs::File,
    path: PathBuf,
    keep: bool,
}
#[derive(Debug)]
pub struct PersistError {
    pub error: io::Error,
    pub file: NamedTempFile,
}
impl std::fmt::Display for PersistError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failed to persist temporary file: {}", self.error)
    }
}
impl std::error::Error for PersistError {}
impl From<PersistError> for io::Error {
    fn from(e: PersistError) -> Self {
        io::Error::new(e.error.kind(), e.error.to_string())
    }
}
impl NamedTempFile {
    pub fn new() -> io::Result<Self> {
        Self::new_in(simstd::env::temp_dir())
    }
    pub fn new_in<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        let n = simk::k().counters.entry("tempfile").or_default();
        *n += 1;
        let path = p.as_ref().join(format!(".tmpf{n:06}"));
        Ok(Self { f: simstd::fs::File::create_new(&path)?, path, keep: false })
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn as_file(&self) -> &simstd::fs::File {
        &self.f
    }
    pub fn as_file_mut(&mut self) -> &mut simstd::fs::File {
        &mut self.f
    }
    pub fn reopen(&self) -> io::Result<simstd::fs::File> {
        simstd::fs::File::options().read(true).write(true).open(&self.path)
    }
    pub fn close(mut self) -> io::Result<()> {
        self.keep = true;
        simstd::fs::remove_file(&self.path)
    }
    pub fn keep(mut self) -> Result<(simstd::fs::File, PathBuf), PersistError> {
        match self.f.try_clone() {
            Ok(f) => {
                self.keep = true;
                Ok((f, self.path.clone()))
            }
            Err(error) => Err(PersistError { error, file: self }),
        }
    }
    pub fn into_temp_path(mut self) -> TempPath {
        self.keep = true;
        TempPath(self.path.clone())
    }
    pub fn into_parts(mut self) -> (simstd::fs::File, TempPath) {
        self.keep = true;
        (self.f.try_clone().unwrap(), TempPath(self.path.clone()))
    }
    pub fn persist_noclobber<P: AsRef<Path>>(self, p: P) -> Result<simstd::fs::File, PersistError> {
        match p.as_ref().exists() {
            true => Err(PersistError { error: io::ErrorKind::AlreadyExists.into(), file: self }),
            false => self.persist(p),
        }
    }
    pub fn persist<P: AsRef<Path>>(mut self, p: P) -> Result<simstd::fs::File, PersistError> {
        let r = self.f.try_clone().and_then(|f| simstd::fs::rename(&self.path, p).map(|()| f));
        match r {
            Ok(f) => {
                self.keep = true;
                Ok(f)
            }
            Err(error) => Err(PersistError { error, file: self }),
        }
    }
}
impl io::Write for NamedTempFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.f.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.f.flush()
    }
}
impl Drop for NamedTempFile {
    fn drop(&mut self) {
        if !self.keep && simk::active() {
            let _ = simstd::fs::remove_file(&self.path);
        }
    }
}

#[derive(Debug)]
pub struct TempPath(PathBuf);
impl TempPath {
    pub fn persist<P: AsRef<Path>>(mut self, p: P) -> io::Result<()> {
        simstd::fs::rename(&self.0, p)?;
        self.0 = PathBuf::new();
        Ok(())
    }
    pub fn close(mut self) -> io::Result<()> {
        simstd::fs::remove_file(std::mem::take(&mut self.0))
    }
}
impl std::ops::Deref for TempPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}
impl AsRef<Path> for TempPath {
    fn as_ref(&self) -> &Path {
        &self.0
    }
}
impl Drop for TempPath {
    fn drop(&mut self) {
        if !self.0.as_os_str().is_empty() && simk::active() {
            let _ = simstd::fs::remove_file(&self.0);
        }
    }
}
