//! crossbeam-queue over the explorer.
use mc::{Acc, R, W};
use std::collections::VecDeque;
use std::sync::Mutex;

pub struct ArrayQueue<T> {
    id: u64,
    cap: usize,
    q: Mutex<VecDeque<T>>,
}
impl<T> std::fmt::Debug for ArrayQueue<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ArrayQueue { .. }")
    }
}
impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self {
        assert!(cap > 0, "capacity must be non-zero");
        ArrayQueue { id: mc::new_obj(), cap, q: Mutex::new(VecDeque::new()) }
    }
    pub fn push(&self, t: T) -> Result<(), T> {
        mc::point("queue push", &[Acc(self.id, W)]);
        let mut q = self.q.lock().unwrap();
        if q.len() >= self.cap {
            return Err(t);
        }
        q.push_back(t);
        Ok(())
    }
    pub fn force_push(&self, t: T) -> Option<T> {
        mc::point("queue force_push", &[Acc(self.id, W)]);
        let mut q = self.q.lock().unwrap();
        let old = if q.len() >= self.cap { q.pop_front() } else { None };
        q.push_back(t);
        old
    }
    pub fn pop(&self) -> Option<T> {
        mc::point("queue pop", &[Acc(self.id, W)]);
        self.q.lock().unwrap().pop_front()
    }
    pub fn len(&self) -> usize {
        mc::point("queue len", &[Acc(self.id, R)]);
        self.q.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.len() >= self.cap
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
}
pub struct SegQueue<T>(ArrayQueue<T>);
impl<T> Default for SegQueue<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> SegQueue<T> {
    pub fn new() -> Self {
        SegQueue(ArrayQueue::new(usize::MAX))
    }
    pub fn push(&self, t: T) {
        let _ = self.0.push(t);
    }
    pub fn pop(&self) -> Option<T> {
        self.0.pop()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
