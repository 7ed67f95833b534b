//! Simulated `rayon` thread pools (the parts that matter here).
use simstd::sync::{Arc, Condvar, Mutex};
use std::{
    collections::VecDeque,
    fmt,
    panic::{AssertUnwindSafe, catch_unwind},
};

type Job = Box<dyn FnOnce() + Send>;
type BJob = Arc<dyn Fn(usize) + Send + Sync>;

struct Q {
    jobs: VecDeque<Job>,
    broadcasts: Vec<VecDeque<BJob>>,
    terminate: bool,
}
struct Shared {
    q: Mutex<Q>,
    c: Condvar,
    n: usize,
    panic_handler: Option<Box<dyn Fn(Box<dyn std::any::Any + Send>) + Send + Sync>>,
    exit_handler: Option<Box<dyn Fn(usize) + Send + Sync>>,
    start_handler: Option<Box<dyn Fn(usize) + Send + Sync>>,
}

pub struct ThreadPool(Arc<Shared>);
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool { .. }")
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(String);
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
    name: Option<Box<dyn FnMut(usize) -> String>>,
    panic_handler: Option<Box<dyn Fn(Box<dyn std::any::Any + Send>) + Send + Sync>>,
    exit_handler: Option<Box<dyn Fn(usize) + Send + Sync>>,
    start_handler: Option<Box<dyn Fn(usize) + Send + Sync>>,
}
pub struct BroadcastContext(usize, usize);
impl BroadcastContext {
    pub fn index(&self) -> usize {
        self.0
    }
    pub fn num_threads(&self) -> usize {
        self.1
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(mut self, f: F) -> Self {
        self.name = Some(Box::new(f));
        self
    }
    pub fn exit_handler<F: Fn(usize) + Send + Sync + 'static>(mut self, f: F) -> Self {
        self.exit_handler = Some(Box::new(f));
        self
    }
    pub fn start_handler<F: Fn(usize) + Send + Sync + 'static>(mut self, f: F) -> Self {
        self.start_handler = Some(Box::new(f));
        self
    }
    pub fn panic_handler<F: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static>(mut self, f: F) -> Self {
        self.panic_handler = Some(Box::new(f));
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(mut self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { simk::k().cfg.parallelism } else { self.n };
        let sh = Arc::new(Shared {
            q: Mutex::new(Q { jobs: VecDeque::new(), broadcasts: (0..n).map(|_| VecDeque::new()).collect(), terminate: false }),
            c: Condvar::new(),
            n,
            panic_handler: self.panic_handler.take(),
            exit_handler: self.exit_handler.take(),
            start_handler: self.start_handler.take(),
        });
        for i in 0..n {
            let sh = sh.clone();
            let name = self.name.as_mut().map(|f| f(i)).unwrap_or_else(|| format!("rayon-{i}"));
            simk::point("rayon.spawn");
            if simk::fault("thread_spawn", 2) > 0 {
                drop(ThreadPool(sh));
                return Err(ThreadPoolBuildError("Resource temporarily unavailable (os error 11)".into()));
            }
            simk::spawn_thread(name, simk::cur_pid(), Box::new(move || worker(sh, i)));
        }
        Ok(ThreadPool(sh))
    }
}

/// What rayon does when a job panics and nobody handles it.
fn abort(what: &str) -> ! {
    let pid = simk::cur_pid();
    if pid == simk::HOST || simk::k().procs[&pid].env.contains_key("SIM_APP") {
        simk::fail_fatal("host.abort", format!("a {what} panicked in a worker pool: the process aborts"));
    }
    simk::signal(pid, 6);
    unreachable!()
}

fn worker(sh: Arc<Shared>, i: usize) {
    INDEX.set(Some((i, sh.n)));
    if let Some(h) = &sh.start_handler {
        h(i);
    }
    loop {
        enum W {
            B(BJob),
            J(Job),
            End,
        }
        let w = {
            let mut q = sh.q.lock().unwrap();
            loop {
                if let Some(b) = q.broadcasts[i].pop_front() {
                    break W::B(b);
                }
                if let Some(j) = q.jobs.pop_front() {
                    break W::J(j);
                }
                if q.terminate {
                    break W::End;
                }
                q = sh.c.wait(q).unwrap();
            }
        };
        let r = match w {
            W::B(b) => catch_unwind(AssertUnwindSafe(|| b(i))),
            W::J(j) => catch_unwind(AssertUnwindSafe(j)),
            W::End => break,
        };
        if let Err(e) = r {
            match &sh.panic_handler {
                Some(h) => h(e),
                None => abort("job"),
            }
        }
    }
    if let Some(h) = &sh.exit_handler
        && catch_unwind(AssertUnwindSafe(|| h(i))).is_err()
    {
        abort("exit handler");
    }
    INDEX.set(None);
}

impl ThreadPool {
    fn push(&self, j: Job) {
        let mut q = self.0.q.lock().unwrap();
        q.jobs.push_back(j);
        let n = q.jobs.len() as u64;
        drop(q);
        if simk::active() && simk::cur_pid() == simk::HOST {
            let m = simk::k().counters.entry("rayon.max_queue").or_default();
            *m = (*m).max(n);
        }
        self.0.c.notify_all();
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.push(Box::new(f));
    }
    pub fn spawn_fifo<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.push(Box::new(f));
    }
    pub fn current_num_threads(&self) -> usize {
        self.0.n
    }
    /// Runs `f` on every thread and waits for all of them.
    pub fn broadcast<F, R>(&self, f: F) -> Vec<R>
    where
        F: Fn(BroadcastContext) -> R + Sync,
        R: Send,
    {
        let n = self.0.n;
        let out: Mutex<Vec<Option<R>>> = Mutex::new((0..n).map(|_| None).collect());
        let left = (Mutex::new(n), Condvar::new());
        {
            let run = |i: usize| {
                let r = f(BroadcastContext(i, n));
                out.lock().unwrap()[i] = Some(r);
                let mut l = left.0.lock().unwrap();
                *l -= 1;
                left.1.notify_all();
            };
            let b: Arc<dyn Fn(usize) + Send + Sync> = {
                struct A<F>(F);
                unsafe impl<F> Send for A<F> {}
                unsafe impl<F> Sync for A<F> {}
                impl<F: Fn(usize)> A<F> {
                    fn call(&self, i: usize) {
                        (self.0)(i)
                    }
                }
                let a = A(&run);
                let g = move |i: usize| a.call(i);
                let g: Arc<dyn Fn(usize) + Send + Sync + '_> = Arc::new(g);
                // This function waits until every call is over.
                unsafe { std::mem::transmute(g) }
            };
            let mut q = self.0.q.lock().unwrap();
            for d in q.broadcasts.iter_mut() {
                d.push_back(b.clone());
            }
            drop(q);
            drop(b);
            self.0.c.notify_all();
            let mut l = left.0.lock().unwrap();
            while *l > 0 {
                l = left.1.wait(l).unwrap();
            }
            drop(l);
        }
        out.into_inner().unwrap().into_iter().map(|r| r.expect("broadcast result")).collect()
    }
    pub fn spawn_broadcast<F: Fn(BroadcastContext) + Send + Sync + 'static>(&self, f: F) {
        let n = self.0.n;
        let b: BJob = Arc::new(move |i| f(BroadcastContext(i, n)));
        self.0.q.lock().unwrap().broadcasts.iter_mut().for_each(|d| d.push_back(b.clone()));
        self.0.c.notify_all();
    }
    pub fn join<A: FnOnce() -> X + Send, B: FnOnce() -> Y + Send, X: Send, Y: Send>(&self, a: A, b: B) -> (X, Y) {
        self.install(|| (a(), b()))
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn install<F: FnOnce() -> R + Send, R: Send>(&self, f: F) -> R {
        let out: Mutex<Option<R>> = Mutex::new(None);
        let done = (Mutex::new(false), Condvar::new());
        {
            let job = || {
                *out.lock().unwrap() = Some(f());
                *done.0.lock().unwrap() = true;
                done.1.notify_all();
            };
            let b: Box<dyn FnOnce() + Send + '_> = Box::new(job);
            let b: Job = unsafe { std::mem::transmute(b) };
            self.push(b);
            let mut g = done.0.lock().unwrap();
            while !*g {
                g = done.1.wait(g).unwrap();
            }
        }
        out.into_inner().unwrap().unwrap()
    }
}
thread_local! {
    static INDEX: std::cell::Cell<Option<(usize, usize)>> = const { std::cell::Cell::new(None) };
}
/// The index of the pool's thread this is.
pub fn current_thread_index() -> Option<usize> {
    INDEX.get().map(|x| x.0)
}
pub fn current_num_threads() -> usize {
    INDEX.get().map_or_else(|| simk::k().cfg.parallelism, |x| x.1)
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.0.q.lock().unwrap().terminate = true;
        self.0.c.notify_all();
    }
}
