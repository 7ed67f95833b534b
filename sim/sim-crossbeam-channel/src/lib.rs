//! Simulated `crossbeam-channel`.
use std::{cell::UnsafeCell, collections::VecDeque, fmt, sync::Arc, time::Duration};
use simstd::time::Instant;

struct Inner<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receivers: usize,
    /// Receivers blocked on the channel: a rendezvous channel hands over to those only.
    waiting: usize,
    timer: Option<Timer<T>>,
}
struct Timer<T> {
    next: u64,
    period: Option<u64>,
    mk: fn(u64) -> T,
}
struct Chan<T> {
    key: u64,
    i: UnsafeCell<Inner<T>>,
}
// Only the thread holding the simulation's baton touches a channel.
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> {
    #[allow(clippy::mut_from_ref)]
    fn i(&self) -> &mut Inner<T> {
        unsafe { &mut *self.i.get() }
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Full(t) | Self::Disconnected(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Self::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        !self.is_full()
    }
}
impl<T> SendTimeoutError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Timeout(t) | Self::Disconnected(t) => t,
        }
    }
    pub fn is_timeout(&self) -> bool {
        matches!(self, Self::Timeout(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected(_))
    }
}
impl RecvTimeoutError {
    pub fn is_timeout(&self) -> bool {
        *self == Self::Timeout
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
macro_rules! err {
    ($($t:ident $(<$g:ident>)? $m:literal),*) => {$(
        impl $(<$g>)? fmt::Display for $t $(<$g>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($m) }
        }
    )*};
}
err!(SendError<T> "sending on a disconnected channel", TrySendError<T> "sending failed", SendTimeoutError<T> "sending failed", RecvError "receiving on an empty and disconnected channel", TryRecvError "receiving on an empty or disconnected channel", RecvTimeoutError "timed out or disconnected");
macro_rules! dbg {
    ($($t:ident),*) => {$(
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(concat!(stringify!($t), "(..)")) }
        }
        impl<T> std::error::Error for $t<T> {}
    )*};
}
dbg!(SendError, TrySendError, SendTimeoutError);
impl std::error::Error for RecvError {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvTimeoutError {}
impl From<RecvError> for TryRecvError {
    fn from(_: RecvError) -> Self {
        Self::Disconnected
    }
}

fn new<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        key: simk::new_key(),
        i: UnsafeCell::new(Inner { q: VecDeque::new(), cap, senders: 1, receivers: 1, waiting: 0, timer: None }),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    new(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    new(None)
}
pub fn after(d: Duration) -> Receiver<Instant> {
    at(Instant::from_sim(dl(d)))
}
pub fn at(t: Instant) -> Receiver<Instant> {
    let rx = never();
    rx.0.i().timer = Some(Timer { next: t.as_sim(), period: None, mk: Instant::from_sim });
    rx
}
pub fn tick(d: Duration) -> Receiver<Instant> {
    let rx = never();
    rx.0.i().timer = Some(Timer { next: dl(d), period: Some((d.as_nanos() as u64).max(1)), mk: Instant::from_sim });
    rx
}
pub fn never<T>() -> Receiver<T> {
    let (tx, rx) = unbounded();
    std::mem::forget(tx);
    rx
}

fn dl(d: Duration) -> u64 {
    simk::now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64)
}

impl<T> Sender<T> {
    fn put(&self, t: T) -> Result<(), TrySendError<T>> {
        let i = self.0.i();
        if i.receivers == 0 {
            return Err(TrySendError::Disconnected(t));
        }
        if i.cap.is_some_and(|c| i.q.len() >= if c == 0 { i.waiting } else { c }) {
            return Err(TrySendError::Full(t));
        }
        i.q.push_back(t);
        simk::wake(self.0.key);
        Ok(())
    }
    pub fn send(&self, mut t: T) -> Result<(), SendError<T>> {
        simk::point("chan.send");
        loop {
            match self.put(t) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Disconnected(t)) => return Err(SendError(t)),
                Err(TrySendError::Full(x)) => {
                    t = x;
                    simk::block_on("chan.send.wait", &[self.0.key], None);
                }
            }
        }
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        simk::point("chan.try_send");
        self.put(t)
    }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        self.send_deadline(t, Instant::from_sim(dl(d)))
    }
    pub fn send_deadline(&self, mut t: T, d: Instant) -> Result<(), SendTimeoutError<T>> {
        simk::point("chan.send");
        let deadline = d.as_sim();
        loop {
            match self.put(t) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Disconnected(t)) => return Err(SendTimeoutError::Disconnected(t)),
                Err(TrySendError::Full(x)) => {
                    if simk::now() >= deadline {
                        return Err(SendTimeoutError::Timeout(x));
                    }
                    t = x;
                    simk::block_on("chan.send.wait", &[self.0.key], Some(deadline));
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        simk::point("chan.len");
        self.0.i().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.len();
        self.0.i().cap.is_some_and(|c| n >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.i().cap
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Receiver<T> {
    fn take(&self) -> Result<T, TryRecvError> {
        let i = self.0.i();
        if let Some(t) = &mut i.timer {
            let now = simk::now();
            if now < t.next {
                return Err(TryRecvError::Empty);
            }
            let v = (t.mk)(t.next);
            t.next = t.period.map_or(u64::MAX, |p| now + p);
            return Ok(v);
        }
        match i.q.pop_front() {
            Some(t) => {
                simk::wake(self.0.key);
                Ok(t)
            }
            None if i.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        simk::point("chan.recv");
        loop {
            match self.take() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => {
                    self.wait(None);
                }
            }
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        simk::point("chan.try_recv");
        self.take()
    }
    fn wait(&self, deadline: Option<u64>) {
        let timer = self.0.i().timer.as_ref().map(|t| t.next).filter(|t| *t != u64::MAX);
        let deadline = deadline.into_iter().chain(timer).min();
        self.sel_wait(1);
        simk::block_on("chan.recv.wait", &[self.0.key], deadline);
        self.sel_wait(-1);
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.recv_deadline(Instant::from_sim(dl(d)))
    }
    pub fn recv_deadline(&self, t: Instant) -> Result<T, RecvTimeoutError> {
        simk::point("chan.recv_timeout");
        let deadline = t.as_sim();
        loop {
            match self.take() {
                Ok(t) => return Ok(t),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    if simk::now() >= deadline {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    self.wait(Some(deadline));
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        simk::point("chan.len");
        self.0.i().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.len();
        self.0.i().cap.is_some_and(|c| n >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.i().cap
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(move || self.try_recv().ok())
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Box<dyn Iterator<Item = T> + 'a>;
    fn into_iter(self) -> Self::IntoIter {
        Box::new(self.iter())
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.i().senders += 1;
        Self(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.i().receivers += 1;
        Self(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.i().senders -= 1;
        simk::wake(self.0.key);
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let i = self.0.i();
        i.receivers -= 1;
        if i.receivers == 0 {
            // As the real one: messages left in the channel are dropped with its last receiver.
            let q = std::mem::take(&mut i.q);
            drop(q);
        }
        simk::wake(self.0.key);
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

#[doc(hidden)]
pub trait SelRecv {
    fn sel_key(&self) -> u64;
    fn sel_ready(&self) -> bool;
    fn sel_wait(&self, n: isize);
    fn sel_timer(&self) -> Option<u64>;
}
impl<T> SelRecv for Receiver<T> {
    fn sel_key(&self) -> u64 {
        self.0.key
    }
    fn sel_ready(&self) -> bool {
        let i = self.0.i();
        match &i.timer {
            Some(t) => simk::now() >= t.next,
            None => !i.q.is_empty() || i.senders == 0,
        }
    }
    fn sel_wait(&self, n: isize) {
        let i = self.0.i();
        i.waiting = i.waiting.wrapping_add_signed(n);
        if n > 0 && i.cap == Some(0) {
            simk::wake(self.0.key);
        }
    }
    fn sel_timer(&self) -> Option<u64> {
        self.0.i().timer.as_ref().map(|t| t.next).filter(|t| *t != u64::MAX)
    }
}
impl<T> SelRecv for Sender<T> {
    fn sel_key(&self) -> u64 {
        self.0.key
    }
    fn sel_ready(&self) -> bool {
        let i = self.0.i();
        i.receivers == 0 || !i.cap.is_some_and(|c| i.q.len() >= if c == 0 { i.waiting } else { c })
    }
    fn sel_wait(&self, _: isize) {}
    fn sel_timer(&self) -> Option<u64> {
        None
    }
}
impl<R: SelRecv> SelRecv for &R {
    fn sel_key(&self) -> u64 {
        (**self).sel_key()
    }
    fn sel_ready(&self) -> bool {
        (**self).sel_ready()
    }
    fn sel_wait(&self, n: isize) {
        (**self).sel_wait(n)
    }
    fn sel_timer(&self) -> Option<u64> {
        (**self).sel_timer()
    }
}
#[doc(hidden)]
pub fn __recv<T>(r: &Receiver<T>) -> Result<T, RecvError> {
    // A timer written in place is created anew here: it has fired already.
    if let Some(t) = &mut r.0.i().timer
        && simk::now() < t.next
    {
        return Ok((t.mk)(simk::now()));
    }
    r.take().map_err(|_| RecvError)
}
#[doc(hidden)]
pub fn __send<T>(s: &Sender<T>, t: T) -> Result<(), SendError<T>> {
    s.put(t).map_err(|e| SendError(e.into_inner()))
}
#[doc(hidden)]
pub fn __select(rs: &[&dyn SelRecv], timeout: Option<Duration>) -> usize {
    wait_any(rs, timeout.map(dl), false)
}
#[doc(hidden)]
pub fn __select_biased(rs: &[&dyn SelRecv], timeout: Option<Duration>) -> usize {
    wait_any(rs, timeout.map(dl), true)
}
/// Waits until one of the channels is ready; `usize::MAX` on timeout.
fn wait_any(rs: &[&dyn SelRecv], deadline: Option<u64>, biased: bool) -> usize {
    simk::point("chan.select");
    loop {
        let ready: Vec<usize> = (0..rs.len()).filter(|i| rs[*i].sel_ready()).collect();
        if !ready.is_empty() {
            return ready[if biased { 0 } else { simk::choose(ready.len()) }];
        }
        if deadline.is_some_and(|d| simk::now() >= d) {
            return usize::MAX;
        }
        let keys: Vec<u64> = rs.iter().map(|r| r.sel_key()).collect();
        let until = deadline.into_iter().chain(rs.iter().filter_map(|r| r.sel_timer())).min();
        rs.iter().for_each(|r| r.sel_wait(1));
        simk::block_on("chan.select.wait", &keys, until);
        rs.iter().for_each(|r| r.sel_wait(-1));
    }
}

#[macro_export]
macro_rules! select_biased {
    ($($t:tt)*) => { $crate::__sel!(@parse __select_biased [] [] $($t)*) };
}
#[macro_export]
macro_rules! select {
    ($($t:tt)*) => { $crate::__sel!(@parse __select [] [] $($t)*) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __sel {
    (@parse $f:ident [$($a:tt)*] [$($d:tt)*] ) => { $crate::__sel!(@go $f [$($a)*] [$($d)*]) };
    (@parse $f:ident $a:tt $d:tt , $($t:tt)*) => { $crate::__sel!(@parse $f $a $d $($t)*) };
    (@parse $f:ident [$($a:tt)*] $d:tt recv($r:expr) -> $p:pat => $b:block $($t:tt)*) => { $crate::__sel!(@parse $f [$($a)* {($r) () ($p) ($b)}] $d $($t)*) };
    (@parse $f:ident [$($a:tt)*] $d:tt recv($r:expr) -> $p:pat => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse $f [$($a)* {($r) () ($p) ($b)}] $d $($t)*) };
    (@parse $f:ident [$($a:tt)*] $d:tt recv($r:expr) -> $p:pat => $b:expr) => { $crate::__sel!(@parse $f [$($a)* {($r) () ($p) ($b)}] $d) };
    (@parse $f:ident [$($a:tt)*] $d:tt send($r:expr, $m:expr) -> $p:pat => $b:block $($t:tt)*) => { $crate::__sel!(@parse $f [$($a)* {($r) ($m) ($p) ($b)}] $d $($t)*) };
    (@parse $f:ident [$($a:tt)*] $d:tt send($r:expr, $m:expr) -> $p:pat => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse $f [$($a)* {($r) ($m) ($p) ($b)}] $d $($t)*) };
    (@parse $f:ident [$($a:tt)*] $d:tt send($r:expr, $m:expr) -> $p:pat => $b:expr) => { $crate::__sel!(@parse $f [$($a)* {($r) ($m) ($p) ($b)}] $d) };
    (@parse $f:ident $a:tt [] default($e:expr) => $b:block $($t:tt)*) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some($e)) ($b)] $($t)*) };
    (@parse $f:ident $a:tt [] default($e:expr) => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some($e)) ($b)] $($t)*) };
    (@parse $f:ident $a:tt [] default($e:expr) => $b:expr) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some($e)) ($b)]) };
    (@parse $f:ident $a:tt [] default() => $b:block $($t:tt)*) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some(::core::time::Duration::ZERO)) ($b)] $($t)*) };
    (@parse $f:ident $a:tt [] default => $b:block $($t:tt)*) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some(::core::time::Duration::ZERO)) ($b)] $($t)*) };
    (@parse $f:ident $a:tt [] default => $b:expr, $($t:tt)*) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some(::core::time::Duration::ZERO)) ($b)] $($t)*) };
    (@parse $f:ident $a:tt [] default => $b:expr) => { $crate::__sel!(@parse $f $a [(::core::option::Option::Some(::core::time::Duration::ZERO)) ($b)]) };
    (@go $f:ident [$({($r:expr) ($($m:expr)?) ($p:pat) ($b:expr)})*] [($to:expr) ($db:expr)]) => {{
        let __i = $crate::$f(&[$(&$r as &dyn $crate::SelRecv),*], $to);
        $crate::__sel!(@arms __i (0usize) [$({($r) ($($m)?) ($p) ($b)})*] ($db))
    }};
    (@go $f:ident [$({($r:expr) ($($m:expr)?) ($p:pat) ($b:expr)})*] []) => {{
        let __i = $crate::$f(&[$(&$r as &dyn $crate::SelRecv),*], ::core::option::Option::None);
        $crate::__sel!(@arms __i (0usize) [$({($r) ($($m)?) ($p) ($b)})*] (::core::unreachable!()))
    }};
    (@arms $i:ident ($n:expr) [] ($db:expr)) => { $db };
    (@arms $i:ident ($n:expr) [{($r:expr) () ($p:pat) ($b:expr)} $($rest:tt)*] ($db:expr)) => {
        if $i == $n {
            let $p = $crate::__recv(&$r);
            $b
        } else {
            $crate::__sel!(@arms $i ($n + 1usize) [$($rest)*] ($db))
        }
    };
    (@arms $i:ident ($n:expr) [{($r:expr) ($m:expr) ($p:pat) ($b:expr)} $($rest:tt)*] ($db:expr)) => {
        if $i == $n {
            let $p = $crate::__send(&$r, $m);
            $b
        } else {
            $crate::__sel!(@arms $i ($n + 1usize) [$($rest)*] ($db))
        }
    };
}

/// Operations chosen at run time.
#[derive(Clone, Default)]
pub struct Select<'a> {
    ops: Vec<Option<&'a dyn SelRecv>>,
    biased: bool,
}
pub struct SelectedOperation<'a> {
    i: usize,
    p: std::marker::PhantomData<&'a ()>,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct TrySelectError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct SelectTimeoutError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct TryReadyError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct ReadyTimeoutError;
impl<'a> Select<'a> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn new_biased() -> Self {
        Self { ops: vec![], biased: true }
    }
    pub fn recv<T>(&mut self, r: &'a Receiver<T>) -> usize {
        self.ops.push(Some(r));
        self.ops.len() - 1
    }
    pub fn send<T>(&mut self, s: &'a Sender<T>) -> usize {
        self.ops.push(Some(s));
        self.ops.len() - 1
    }
    pub fn remove(&mut self, i: usize) {
        assert!(self.ops[i].take().is_some(), "no operation with this index");
    }
    fn any(&self, deadline: Option<u64>) -> Option<usize> {
        let (at, rs): (Vec<usize>, Vec<&dyn SelRecv>) = self.ops.iter().enumerate().filter_map(|(i, o)| o.map(|o| (i, o))).unzip();
        at.get(wait_any(&rs, deadline, self.biased)).copied()
    }
    fn op<'b>(i: usize) -> SelectedOperation<'b> {
        SelectedOperation { i, p: std::marker::PhantomData }
    }
    pub fn select(&mut self) -> SelectedOperation<'a> {
        Self::op(self.any(None).unwrap())
    }
    pub fn try_select(&mut self) -> Result<SelectedOperation<'a>, TrySelectError> {
        self.any(Some(0)).map(Self::op).ok_or(TrySelectError)
    }
    pub fn select_timeout(&mut self, d: Duration) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        self.any(Some(dl(d))).map(Self::op).ok_or(SelectTimeoutError)
    }
    pub fn select_deadline(&mut self, d: Instant) -> Result<SelectedOperation<'a>, SelectTimeoutError> {
        self.any(Some(d.as_sim())).map(Self::op).ok_or(SelectTimeoutError)
    }
    pub fn ready(&mut self) -> usize {
        self.any(None).unwrap()
    }
    pub fn try_ready(&mut self) -> Result<usize, TryReadyError> {
        self.any(Some(0)).ok_or(TryReadyError)
    }
    pub fn ready_timeout(&mut self, d: Duration) -> Result<usize, ReadyTimeoutError> {
        self.any(Some(dl(d))).ok_or(ReadyTimeoutError)
    }
    pub fn ready_deadline(&mut self, d: Instant) -> Result<usize, ReadyTimeoutError> {
        self.any(Some(d.as_sim())).ok_or(ReadyTimeoutError)
    }
}
impl SelectedOperation<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn recv<T>(self, r: &Receiver<T>) -> Result<T, RecvError> {
        __recv(r)
    }
    pub fn send<T>(self, s: &Sender<T>, t: T) -> Result<(), SendError<T>> {
        __send(s, t)
    }
}
