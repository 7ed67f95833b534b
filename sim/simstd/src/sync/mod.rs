//! Simulated synchronisation.
pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
use ::std::{
    cell::{Cell, UnsafeCell},
    fmt,
    ops::{Deref, DerefMut},
    panic::{RefUnwindSafe, UnwindSafe},
    time::Duration,
};
use simk::ObjId;

pub mod atomic;
pub mod mpsc;

fn deadline(d: Duration) -> u64 {
    simk::now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64)
}

pub struct Mutex<T: ?Sized> {
    id: ObjId,
    locked: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    _p: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { id: ObjId::new(), locked: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: ::std::thread::panicking(), _p: ::std::marker::PhantomData };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn acquire(&self) {
        while self.locked.get() {
            simk::block_on("mutex.lock.wait", &[self.id.get()], None);
        }
        self.locked.set(true);
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        simk::point("mutex.lock");
        self.acquire();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        simk::point("mutex.try_lock");
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.locked.set(true);
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Mutex").finish_non_exhaustive()
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.m.poisoned.set(true);
        }
        self.m.locked.set(false);
        simk::wake(self.m.id.get());
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    id: ObjId,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Self { id: ObjId::new() }
    }
    fn wait_inner<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        simk::point("condvar.wait");
        // Unlock and wait atomically: nobody runs in between.
        m.locked.set(false);
        simk::wake(m.id.get());
        ::std::mem::forget(g);
        let to = if simk::fault("spurious_wakeup", 2) > 0 {
            simk::yield_now();
            false
        } else {
            simk::block_on("condvar.wait.wait", &[self.id.get()], d)
        };
        m.acquire();
        (m.guard(), to)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_inner(g, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, to) = self.wait_inner(g, Some(deadline(d)));
        match g {
            Ok(g) => Ok((g, WaitTimeoutResult(to))),
            Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(to)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut c: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = deadline(d);
        loop {
            if !c(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if simk::now() >= dl {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, Duration::from_nanos(dl - simk::now()))?.0;
        }
    }
    pub fn notify_one(&self) {
        simk::point("condvar.notify_one");
        simk::wake_one(self.id.get());
    }
    pub fn notify_all(&self) {
        simk::point("condvar.notify_all");
        simk::wake(self.id.get());
    }
}

pub struct RwLock<T: ?Sized> {
    id: ObjId,
    /// -1: writer; otherwise the number of readers.
    state: Cell<isize>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> UnwindSafe for RwLock<T> {}
impl<T: ?Sized> RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { id: ObjId::new(), state: Cell::new(0), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        simk::point("rwlock.read");
        while self.state.get() < 0 {
            simk::block_on("rwlock.read.wait", &[self.id.get()], None);
        }
        self.state.set(self.state.get() + 1);
        let g = RwLockReadGuard(self);
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        simk::point("rwlock.write");
        while self.state.get() != 0 {
            simk::block_on("rwlock.write.wait", &[self.id.get()], None);
        }
        self.state.set(-1);
        let g = RwLockWriteGuard(self, ::std::thread::panicking());
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        simk::point("rwlock.try_read");
        if self.state.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(self.state.get() + 1);
        Ok(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        simk::point("rwlock.try_write");
        if self.state.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.set(-1);
        Ok(RwLockWriteGuard(self, ::std::thread::panicking()))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.state.set(self.0.state.get() - 1);
        simk::wake(self.0.id.get());
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && ::std::thread::panicking() {
            self.0.poisoned.set(true);
        }
        self.0.state.set(0);
        simk::wake(self.0.id.get());
    }
}

/// 0 new, 1 running, 2 done, 3 poisoned.
pub struct Once {
    id: ObjId,
    state: Cell<u8>,
}
unsafe impl Sync for Once {}
unsafe impl Send for Once {}
impl Once {
    pub const fn new() -> Self {
        Self { id: ObjId::new(), state: Cell::new(0) }
    }
    pub fn is_completed(&self) -> bool {
        simk::point("once.is_completed");
        self.state.get() == 2
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        simk::point("once.call");
        loop {
            match self.state.get() {
                2 => return,
                3 => panic!("Once instance has previously been poisoned"),
                1 => {
                    simk::block_on("once.wait", &[self.id.get()], None);
                }
                _ => break,
            }
        }
        self.state.set(1);
        struct G<'a>(&'a Once, u8);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.state.set(self.1);
                simk::wake(self.0.id.get());
            }
        }
        let mut g = G(self, 3);
        f();
        g.1 = 2;
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}

pub struct OnceLock<T> {
    id: ObjId,
    busy: Cell<bool>,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        Self { id: ObjId::new(), busy: Cell::new(false), v: UnsafeCell::new(None) }
    }
    fn peek(&self) -> Option<&T> {
        unsafe { (*self.v.get()).as_ref() }
    }
    pub fn get(&self) -> Option<&T> {
        simk::point("oncelock.get");
        self.peek()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        simk::point("oncelock.get_or_init");
        loop {
            if let Some(v) = self.peek() {
                return v;
            }
            if !self.busy.get() {
                break;
            }
            simk::block_on("oncelock.wait", &[self.id.get()], None);
        }
        self.busy.set(true);
        struct G<'a>(&'a Cell<bool>, u64);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.set(false);
                simk::wake(self.1);
            }
        }
        let _g = G(&self.busy, self.id.get());
        let v = f();
        unsafe { *self.v.get() = Some(v) };
        self.peek().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        unsafe { *c.v.get() = self.get().cloned() };
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let c = Self::new();
        unsafe { *c.v.get() = Some(t) };
        c
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.peek()).finish()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        Self { cell: OnceLock::new(), f: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| (this.f.take().expect("LazyLock instance has previously been poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

pub struct Barrier {
    n: usize,
    m: Mutex<(usize, usize)>,
    c: Condvar,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Self { n, m: Mutex::new((0, 0)), c: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let generation = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == generation {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}
