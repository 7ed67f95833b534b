//! Files: real ones, confined to the run's scratch directory, with injected errors.
pub use ::std::fs::{DirEntry, FileType, Metadata, Permissions, ReadDir};
use ::std::{
    fs as real, io,
    path::{Path, PathBuf},
};

fn check(p: &Path, write: bool) -> io::Result<()> {
    simk::point("fs");
    let root = simk::k().cfg.scratch.clone();
    if write && (!p.starts_with(&root) || p.components().any(|c| c == ::std::path::Component::ParentDir)) {
        simk::k().tlog(|| format!("refused write outside the scratch directory: {p:?}"));
        return Err(io::Error::from_raw_os_error(1));
    }
    Ok(())
}
fn fault(site: &'static str) -> io::Result<()> {
    match simk::fault(site, 3) {
        0 => Ok(()),
        1 => Err(io::Error::from_raw_os_error(5)),
        _ => Err(io::Error::from_raw_os_error(28)),
    }
}

/// As the real one: open with truncation, then write in pieces; other threads run in between.
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    let mut f = File::create(p)?;
    io::Write::write_all(&mut f, c.as_ref())
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut f = File::open(p)?;
    let mut v = vec![];
    io::Read::read_to_end(&mut f, &mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    String::from_utf8(read(p)?).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    check(p.as_ref(), true)?;
    fault("fs_remove")?;
    real::remove_file(p)
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    check(a.as_ref(), true)?;
    check(b.as_ref(), true)?;
    fault("fs_rename")?;
    real::rename(a, b)
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let v = read(a)?;
    write(b, &v)?;
    Ok(v.len() as u64)
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    check(a.as_ref(), true)?;
    check(b.as_ref(), true)?;
    real::hard_link(a, b)
}
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    check(p.as_ref(), true)?;
    fault("fs_mkdir")?;
    real::create_dir(p)
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    check(p.as_ref(), true)?;
    fault("fs_mkdir")?;
    real::create_dir_all(p)
}
pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    check(p.as_ref(), true)?;
    real::remove_dir(p)
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    check(p.as_ref(), true)?;
    real::remove_dir_all(p)
}
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    check(p.as_ref(), false)?;
    real::exists(p)
}
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    check(p.as_ref(), false)?;
    real::metadata(p)
}
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    check(p.as_ref(), false)?;
    real::symlink_metadata(p)
}
pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
    check(p.as_ref(), false)?;
    real::read_dir(p)
}
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> {
    check(p.as_ref(), false)?;
    real::canonicalize(p)
}

#[derive(Debug)]
pub struct File(real::File);
#[derive(Clone, Debug)]
pub struct OpenOptions(real::OpenOptions, bool);
impl OpenOptions {
    pub fn new() -> Self {
        Self(real::OpenOptions::new(), false)
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.0.read(v);
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.0.write(v);
        self.1 |= v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.0.append(v);
        self.1 |= v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.0.truncate(v);
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.0.create(v);
        self.1 |= v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.0.create_new(v);
        self.1 |= v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        check(p.as_ref(), self.1)?;
        fault(if self.1 { "fs_create" } else { "fs_open" })?;
        self.0.open(p).map(File)
    }
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        self.0.metadata()
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        simk::point("fs.set_len");
        self.0.set_len(n)
    }
    pub fn sync_all(&self) -> io::Result<()> {
        simk::point("fs.sync");
        fault("fs_sync")
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn try_clone(&self) -> io::Result<Self> {
        self.0.try_clone().map(File)
    }
    pub fn set_permissions(&self, p: real::Permissions) -> io::Result<()> {
        simk::point("fs.set_permissions");
        self.0.set_permissions(p)
    }
}
impl io::Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        simk::point("fs.read");
        fault("fs_read")?;
        let n = match simk::fault("fs_short_read", 3) {
            0 => b.len(),
            v => b.len().min(v * 16),
        };
        self.0.read(&mut b[..n])
    }
}
impl io::Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simk::point("fs.write");
        fault("fs_write")?;
        let n = match simk::fault("fs_short_write", 3) {
            0 => b.len(),
            1 => b.len().min(64),
            _ => b.len().min(b.len() / 2 + 1),
        };
        let r = self.0.write(&b[..n]);
        simk::point("fs.written");
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for File {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
impl io::Read for &File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        File(self.0.try_clone()?).read(b)
    }
}
impl io::Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        File(self.0.try_clone()?).write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for &File {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        (&self.0).seek(p)
    }
}
