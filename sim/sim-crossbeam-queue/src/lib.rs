//! Simulated `crossbeam-queue`.
use std::{cell::UnsafeCell, collections::VecDeque, fmt};

pub struct ArrayQueue<T> {
    cap: usize,
    q: UnsafeCell<VecDeque<T>>,
}
unsafe impl<T: Send> Send for ArrayQueue<T> {}
unsafe impl<T: Send> Sync for ArrayQueue<T> {}
impl<T> fmt::Debug for ArrayQueue<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ArrayQueue { .. }")
    }
}
impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self {
        assert!(cap > 0, "capacity must be non-zero");
        Self { cap, q: UnsafeCell::new(VecDeque::new()) }
    }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<T> {
        unsafe { &mut *self.q.get() }
    }
    pub fn push(&self, t: T) -> Result<(), T> {
        simk::point("queue.push");
        if self.q().len() >= self.cap {
            return Err(t);
        }
        self.q().push_back(t);
        Ok(())
    }
    pub fn force_push(&self, t: T) -> Option<T> {
        simk::point("queue.push");
        let r = if self.q().len() >= self.cap { self.q().pop_front() } else { None };
        self.q().push_back(t);
        r
    }
    pub fn pop(&self) -> Option<T> {
        simk::point("queue.pop");
        self.q().pop_front()
    }
    pub fn len(&self) -> usize {
        simk::point("queue.len");
        self.q().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.len() >= self.cap
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
}

pub struct SegQueue<T>(ArrayQueue<T>);
impl<T> Default for SegQueue<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> SegQueue<T> {
    pub fn new() -> Self {
        Self(ArrayQueue::new(usize::MAX))
    }
    pub fn push(&self, t: T) {
        let _ = self.0.push(t);
    }
    pub fn pop(&self) -> Option<T> {
        self.0.pop()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
