//! Bounded FIFO queue under the controlled scheduler, in place of the spinning lock-free queue of
//! the original crate: same interface, each operation is one scheduling point.
use std::collections::VecDeque;
use std::sync::Mutex;
use std::time::Duration;
use vstd::sched::{self, Id};

pub struct CrossbeamBlockingQueue<E> where E: Send + Sync {
    id: Id,
    size: usize,
    elements: Mutex<VecDeque<E>>,
}

const LONG: Duration = Duration::from_secs(1_000_000);

impl<E> CrossbeamBlockingQueue<E> where E: Send + Sync {
    pub fn new(size: usize) -> CrossbeamBlockingQueue<E> {
        assert!(size > 0, "capacity must be non-zero");
        CrossbeamBlockingQueue { id: Id::new(), size, elements: Mutex::new(VecDeque::new()) }
    }

    fn q(&self) -> std::sync::MutexGuard<'_, VecDeque<E>> {
        self.elements.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn len(&self) -> usize {
        sched::op_qread(&self.id, self.size);
        let n = self.q().len();
        sched::observe(n as u64);
        n
    }

    pub fn capacity(&self) -> usize {
        self.size
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn is_full(&self) -> bool {
        self.len() == self.size
    }

    pub fn wait_empty(&self, timeout: Duration) -> bool {
        if timeout < LONG {
            return self.is_empty();
        }
        if !sched::op_wait_empty(&self.id, self.size) {
            while !self.q().is_empty() {
                std::thread::yield_now();
            }
        }
        true
    }

    pub fn enqueue(&self, element: E) {
        self.enqueue_class(element, 0)
    }

    pub fn enqueue_class(&self, element: E, class: usize) {
        if !sched::op_push(&self.id, self.size, class) {
            while self.q().len() >= self.size {
                std::thread::yield_now();
            }
        }
        self.q().push_back(element);
    }

    pub fn try_enqueue(&self, element: E, timeout: Duration) -> Option<E> {
        if timeout >= LONG {
            self.enqueue(element);
            return None;
        }
        sched::op_try_push(&self.id, self.size, 0);
        let mut q = self.q();
        if q.len() >= self.size {
            return Some(element);
        }
        q.push_back(element);
        None
    }

    pub fn dequeue(&self) -> Option<E> {
        self.try_dequeue(Duration::MAX)
    }

    pub fn try_dequeue(&self, timeout: Duration) -> Option<E> {
        if timeout >= LONG {
            if !sched::op_pop(&self.id, self.size) {
                loop {
                    if let Some(e) = self.q().pop_front() {
                        return Some(e);
                    }
                    std::thread::yield_now();
                }
            }
            return self.q().pop_front();
        }
        sched::op_try_pop(&self.id, self.size);
        self.q().pop_front()
    }
}
