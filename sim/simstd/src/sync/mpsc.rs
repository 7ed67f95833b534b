//! Simulated `std::sync::mpsc`.
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::{collections::VecDeque, sync::Arc, time::Duration};
use super::{Condvar, Mutex};

struct Inner<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    rx: bool,
}
struct Chan<T> {
    m: Mutex<Inner<T>>,
    c: Condvar,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan { m: Mutex::new(Inner { q: VecDeque::new(), cap, senders: 1, rx: true }), c: Condvar::new() })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = new(Some(n.max(1)));
    (SyncSender(c.clone()), Receiver(c))
}
fn send<T>(c: &Chan<T>, t: T) -> Result<(), SendError<T>> {
    let mut g = c.m.lock().unwrap();
    loop {
        if !g.rx {
            return Err(SendError(t));
        }
        if g.cap.is_none_or(|n| g.q.len() < n) {
            g.q.push_back(t);
            c.c.notify_all();
            return Ok(());
        }
        g = c.c.wait(g).unwrap();
    }
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        send(&self.0, t)
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        send(&self.0, t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.rx {
            return Err(TrySendError::Disconnected(t));
        }
        if g.cap.is_none_or(|n| g.q.len() < n) {
            g.q.push_back(t);
            self.0.c.notify_all();
            Ok(())
        } else {
            Err(TrySendError::Full(t))
        }
    }
}
macro_rules! tx {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.m.lock().unwrap().senders += 1;
                Self(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.m.lock().unwrap().senders -= 1;
                self.0.c.notify_all();
            }
        }
    };
}
tx!(Sender);
tx!(SyncSender);
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.m.lock().unwrap().rx = false;
        self.0.c.notify_all();
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                self.0.c.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.c.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        match g.q.pop_front() {
            Some(t) => {
                self.0.c.notify_all();
                Ok(t)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let dl = super::deadline(d);
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                self.0.c.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            if simk::now() >= dl {
                return Err(RecvTimeoutError::Timeout);
            }
            g = self.0.c.wait_timeout(g, Duration::from_nanos(dl - simk::now())).unwrap().0;
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(move || self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        ::std::iter::from_fn(move || self.try_recv().ok())
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Box<dyn Iterator<Item = T> + 'a>;
    fn into_iter(self) -> Self::IntoIter {
        Box::new(self.iter())
    }
}
