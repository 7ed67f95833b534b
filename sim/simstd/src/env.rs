//! Per-process environment.
pub use ::std::env::*;
use ::std::ffi::{OsStr, OsString};
use ::std::path::PathBuf;

fn get(key: &OsStr) -> Option<String> {
    if !simk::active() {
        return None;
    }
    let pid = simk::cur_pid();
    simk::k().procs[&pid].env.get(&key.to_string_lossy().into_owned()).cloned()
}

pub fn var<K: AsRef<OsStr>>(key: K) -> ::std::result::Result<String, VarError> {
    get(key.as_ref()).ok_or(VarError::NotPresent)
}
pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    get(key.as_ref()).map(Into::into)
}
pub fn current_exe() -> ::std::io::Result<PathBuf> {
    if simk::fault("current_exe", 2) > 0 {
        return Err(::std::io::Error::from_raw_os_error(2));
    }
    let pid = simk::cur_pid();
    Ok(PathBuf::from(simk::k().procs[&pid].exe.clone()))
}
pub fn temp_dir() -> PathBuf {
    PathBuf::from(format!("{}/tmp", simk::k().cfg.scratch))
}
pub unsafe fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(key: K, v: V) {
    let pid = simk::cur_pid();
    simk::k().procs.get_mut(&pid).unwrap().env.insert(key.as_ref().to_string_lossy().into_owned(), v.as_ref().to_string_lossy().into_owned());
}
pub unsafe fn remove_var<K: AsRef<OsStr>>(key: K) {
    let pid = simk::cur_pid();
    simk::k().procs.get_mut(&pid).unwrap().env.remove(&key.as_ref().to_string_lossy().into_owned());
}
