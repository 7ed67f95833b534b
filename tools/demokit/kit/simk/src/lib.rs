//! What the stand-in code generator needs of the world: here, the real one.
use std::{
    cell::Cell,
    sync::{OnceLock, atomic::{AtomicBool, Ordering}},
};

pub type Pid = u32;
pub type Tid = u32;

static HOOK: OnceLock<Box<dyn Fn(&'static str) -> bool + Send + Sync>> = OnceLock::new();

/// Called at every step of the code generator ("llvm.new", "llvm.optimize", "llvm.codegen", "llvm.link", ...) and at
/// every step that may fail ("llvm_new", "llvm_compile", "llvm_link", "dlopen": true makes it fail).
pub fn set_hook(f: impl Fn(&'static str) -> bool + Send + Sync + 'static) {
    let _ = HOOK.set(Box::new(f));
}

pub fn active() -> bool {
    false
}
pub fn cur() -> Tid {
    0
}
pub fn cur_pid() -> Pid {
    1
}
pub fn now() -> u64 {
    0
}
pub fn sleep_ns(_: u64) {}
pub fn point(site: &'static str) {
    if site.starts_with("llvm.")
        && let Some(h) = HOOK.get()
    {
        h(site);
    }
}
pub fn fault(site: &'static str, _n: usize) -> usize {
    HOOK.get().is_some_and(|h| h(site)) as usize
}
pub fn fail_fatal(kind: &str, detail: String) -> ! {
    eprintln!("{kind}: {detail}");
    std::process::exit(70)
}

static HELD: AtomicBool = AtomicBool::new(false);
thread_local! { static DEPTH: Cell<u32> = const { Cell::new(0) }; }
pub struct Guard(());
pub fn lock() -> Guard {
    if DEPTH.get() == 0 {
        while HELD.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::thread::yield_now();
        }
    }
    DEPTH.set(DEPTH.get() + 1);
    Guard(())
}
impl Drop for Guard {
    fn drop(&mut self) {
        DEPTH.set(DEPTH.get() - 1);
        if DEPTH.get() == 0 {
            HELD.store(false, Ordering::Release);
        }
    }
}
