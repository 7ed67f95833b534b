//! Simulated threads.
pub use ::std::thread::{AccessError, LocalKey, Result, ThreadId, panicking};
use ::std::{
    any::Any,
    io,
    marker::PhantomData,
    num::NonZero,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{Arc, Mutex},
    time::Duration,
};

type Slot<T> = Arc<Mutex<Option<Result<T>>>>;

#[derive(Clone, Debug)]
pub struct Thread {
    tid: usize,
    name: Option<String>,
}
impl Thread {
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn id(&self) -> usize {
        self.tid
    }
    pub fn unpark(&self) {
        simk::point("thread.unpark");
        let t = &mut simk::k().threads[self.tid];
        t.park_token = true;
        let key = t.done_key;
        simk::wake(key);
    }
}

pub struct JoinHandle<T> {
    slot: Slot<T>,
    thread: Thread,
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_struct("JoinHandle").finish_non_exhaustive()
    }
}

fn join_tid(tid: usize) {
    simk::point("thread.join");
    while !simk::is_finished(tid) {
        let key = simk::k().threads[tid].done_key;
        simk::block_on("thread.join.wait", &[key], None);
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        join_tid(self.thread.tid);
        self.slot.lock().unwrap().take().unwrap_or_else(|| Err(Box::new("thread killed") as Box<dyn Any + Send>))
    }
    pub fn is_finished(&self) -> bool {
        simk::point("thread.is_finished");
        simk::is_finished(self.thread.tid)
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}

fn spawn_inner<T: Send>(name: Option<String>, f: Box<dyn FnOnce() -> T + Send + 'static>) -> io::Result<JoinHandle<T>>
where
    T: 'static,
{
    simk::point("thread.spawn");
    if simk::fault("thread_spawn", 2) > 0 {
        return Err(io::Error::from_raw_os_error(11));
    }
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let tid = simk::spawn_thread(
        name.clone().unwrap_or_else(|| "unnamed".into()),
        simk::cur_pid(),
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            *s2.lock().unwrap() = Some(r);
        }),
    );
    simk::point("thread.spawned");
    Ok(JoinHandle { slot, thread: Thread { tid, name } })
}

impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        spawn_inner(self.name, Box::new(f))
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn sleep(d: Duration) {
    simk::sleep_ns(d.as_nanos().min(u64::MAX as u128) as u64);
}
pub fn yield_now() {
    simk::yield_now();
}
pub fn current() -> Thread {
    let tid = simk::cur();
    Thread { tid, name: simk::active().then(|| simk::k().threads[tid].name.clone()) }
}
pub fn park() {
    simk::point("thread.park");
    let me = simk::cur();
    while !simk::k().threads[me].park_token {
        let key = simk::k().threads[me].done_key;
        simk::block_on("thread.park.wait", &[key], None);
    }
    simk::k().threads[me].park_token = false;
}
pub fn park_timeout(d: Duration) {
    simk::point("thread.park");
    let me = simk::cur();
    let deadline = simk::now().saturating_add(d.as_nanos() as u64);
    while !simk::k().threads[me].park_token {
        let key = simk::k().threads[me].done_key;
        if simk::block_on("thread.park.wait", &[key], Some(deadline)) {
            break;
        }
    }
    simk::k().threads[me].park_token = false;
}
pub fn available_parallelism() -> io::Result<NonZero<usize>> {
    Ok(NonZero::new(if simk::active() { simk::k().cfg.parallelism } else { 4 }).unwrap())
}

pub struct Scope<'scope, 'env: 'scope> {
    tids: Mutex<Vec<usize>>,
    panicked: Arc<Mutex<bool>>,
    p: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
pub struct ScopedJoinHandle<'scope, T> {
    slot: Slot<T>,
    thread: Thread,
    p: PhantomData<&'scope ()>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        join_tid(self.thread.tid);
        self.slot.lock().unwrap().take().unwrap_or_else(|| Err(Box::new("thread killed") as Box<dyn Any + Send>))
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        simk::is_finished(self.thread.tid)
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        simk::point("thread.spawn");
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let pk = self.panicked.clone();
        let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            if r.is_err() {
                *pk.lock().unwrap() = true;
            }
            *s2.lock().unwrap() = Some(r);
        });
        // The scope joins every thread before it returns.
        let b: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(b) };
        let tid = simk::spawn_thread("scoped".into(), simk::cur_pid(), b);
        self.tids.lock().unwrap().push(tid);
        simk::point("thread.spawned");
        ScopedJoinHandle { slot, thread: Thread { tid, name: None }, p: PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { tids: Mutex::new(vec![]), panicked: Arc::new(Mutex::new(false)), p: PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| f(unsafe { &*(&s as *const Scope<'_, 'env>) })));
    loop {
        let t = s.tids.lock().unwrap().pop();
        let Some(t) = t else { break };
        join_tid(t);
    }
    match r {
        Err(e) => ::std::panic::resume_unwind(e),
        Ok(_) if *s.panicked.lock().unwrap() => panic!("a scoped thread panicked"),
        Ok(r) => r,
    }
}
impl Builder {
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        if simk::fault("thread_spawn", 2) > 0 {
            return Err(io::Error::from_raw_os_error(11));
        }
        Ok(s.spawn(f))
    }
}
