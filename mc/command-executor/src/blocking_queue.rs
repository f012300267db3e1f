use std::collections::VecDeque;
use vstd::sync::{Condvar, Mutex};
use vstd::time::{Duration, Instant};

struct QueueFlags {
    empty: bool,
    full: bool,
}

impl QueueFlags {
    fn new() -> QueueFlags {
        QueueFlags {
            empty: true,
            full: false,
        }
    }
}

/// Blocking bounded queue
///
/// `E: Send + Sync` - the element type
/// This is a multiple producers / multiple consumers blocking bounded queue.
/// Reference: [Producer-Consumer](https://en.wikipedia.org/wiki/Producer%E2%80%93consumer_problem)
pub struct BlockingQueue<E> where E: Send + Sync {
    flags: Mutex<QueueFlags>,
    empty: Condvar,
    full: Condvar,
    elements: Mutex<VecDeque<E>>,
    capacity: usize,
}

impl<E> BlockingQueue<E> where E: Send + Sync {
    /// Create a new queue with `size` capacity
    /// ```
    /// use command_executor::blocking_queue::BlockingQueue;
    /// let q: BlockingQueue<i32> = BlockingQueue::new(4);
    /// ```
    pub fn new(capacity: usize) -> BlockingQueue<E> {
        BlockingQueue::<E> {
            flags: Mutex::new(QueueFlags::new()),
            empty: Condvar::new(),
            full: Condvar::new(),
            elements: Mutex::new(VecDeque::with_capacity(capacity)),
            capacity,
        }
    }

    /// The current length of the queue. Note that the reported length is correct at the time
    /// of checking, the actual length may change between the call and the access to the result
    /// value. Should be used for diagnostic and monitoring only.
    /// ```
    /// use command_executor::blocking_queue::BlockingQueue;
    /// let q: BlockingQueue<i32> = BlockingQueue::new(4);
    /// q.enqueue(11);
    /// assert_eq!(q.len(), 1);
    /// ```
    pub fn len(&self) -> usize {
        self.elements.lock().unwrap().len()
    }

    /// The declared capacity of the queue. May be smaller than the actual capacity of the actual
    /// storage
    pub fn capacity(&self) -> usize {
        self.capacity
    }

    /// Indication if the queue is empty in this point of time. Should be used for diagnostic
    /// and monitoring only.
    pub fn is_empty(&self) -> bool {
        self.elements.lock().unwrap().is_empty()
    }

    /// Indication if the queue is full in this point of time. Should be used for diagnostic
    /// and monitoring only.
    pub fn is_full(&self) -> bool {
        self.len() == self.capacity()
    }

    /// Wait until the queue is empty.
    ///
    /// Note that the empty state is temporary. This method is mostly useful when we know that no
    /// elements are to be enqueued and we want an indication of completion.
    pub fn wait_empty(&self, timeout: Duration) -> bool {
        let flags_lock = &self.flags;
        let empty = &self.empty;
        let mut flags = flags_lock.lock().unwrap();
        let mut t = timeout;
        let mut start = Instant::now();
        while !flags.empty {
            let (f, timeout_result) = empty.wait_timeout(flags, t).unwrap();
            {
                flags = f;
                if timeout_result.timed_out() {
                    break;
                } else {
                    let elapsed = start.elapsed();
                    if elapsed < t {
                        t -= elapsed;
                        start = Instant::now();
                    } else {
                        break;
                    }
                }
            }
        }
        flags.empty
    }

    /// Enqueue an element. When the queue is full will block until space available.
    pub fn enqueue(&self, element: E) {
        self.try_enqueue(element, Duration::MAX);
    }

    /// Enqueue an element with timeout. When timeout is exceeded return the element to caller.
    pub fn try_enqueue(&self, element: E, timeout: Duration) -> Option<E> {
        let flags_lock = &self.flags;
        let empty = &self.empty;
        let full = &self.full;
        let mut flags = flags_lock.lock().unwrap();
        let mut timed_out = false;
        let mut t = timeout;
        let mut start = Instant::now();
        while flags.full {
            let (f, timeout_result) = full.wait_timeout(flags, t).unwrap();
            {
                flags = f;
                if timeout_result.timed_out() {
                    timed_out = true;
                    break;
                } else {
                    let elapsed = start.elapsed();
                    if elapsed < t {
                        t -= elapsed;
                        start = Instant::now();
                    } else {
                        timed_out = true;
                        break;
                    }
                }
            }
        }

        if timed_out {
            Some(element)
        } else {
            let mut elements = self.elements.lock().unwrap();
            elements.push_back(element);
            flags.empty = false;
            empty.notify_one();
            if elements.len() == self.capacity() {
                flags.full = true;
                full.notify_all()
            }
            None
        }
    }

    /// Dequeue an element from the queue. When the queue is empty will block until an element is
    /// available
    pub fn dequeue(&self) -> Option<E> {
        self.try_dequeue(Duration::MAX)
    }

    /// Dequeue and element from the queue with timeout.
    pub fn try_dequeue(&self, timeout: Duration) -> Option<E> {
        let flags_lock = &self.flags;
        let empty = &self.empty;
        let full = &self.full;
        let mut flags = flags_lock.lock().unwrap();
        let mut timed_out = false;
        let mut t = timeout;
        let mut start = Instant::now();
        while flags.empty {
            let (f, timeout_result) = empty.wait_timeout(flags, t).unwrap();
            {
                flags = f;
                if timeout_result.timed_out() {
                    timed_out = true;
                    break;
                } else {
                    let elapsed = start.elapsed();
                    if elapsed < t {
                        t -= elapsed;
                        start = Instant::now();
                    } else {
                        timed_out = true;
                        break;
                    }
                }
            }
        }

        if timed_out {
            None
        } else {
            let mut elements = self.elements.lock().unwrap();
            let element = elements.pop_front();
            flags.full = false;
            full.notify_one();
            if elements.len() == 0 {
                flags.empty = true;
                empty.notify_all();
            }
            element
        }
    }
}
