#![allow(deprecated)]
use crate::sched::{self, Id};
use ::std::ops::{Deref, DerefMut};
pub use ::std::sync::*;
use ::std::time::Duration;

// ---------------------------------------------------------------------------------------------
pub struct Mutex<T: ?Sized> {
    id: Id,
    inner: ::std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    g: Option<::std::sync::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { id: Id::new(), inner: ::std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::op_lock(&self.id);
        match self.inner.lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self })),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        match sched::op_try_lock(&self.id) {
            Some(false) => return Err(TryLockError::WouldBlock),
            Some(true) => {
                return match self.inner.lock() {
                    Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
                    Err(e) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self }))),
                }
            }
            None => {}
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), m: self }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m: self }))),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if self.g.take().is_some() {
            sched::op_unlock(&self.m.id);
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------------------------------------
pub struct RwLock<T: ?Sized> {
    id: Id,
    inner: ::std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    g: Option<::std::sync::RwLockReadGuard<'a, T>>,
    m: &'a Id,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    g: Option<::std::sync::RwLockWriteGuard<'a, T>>,
    m: &'a Id,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { id: Id::new(), inner: ::std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sched::op_rlock(&self.id);
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), m: &self.id }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), m: &self.id })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sched::op_wlock(&self.id);
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), m: &self.id }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), m: &self.id })),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if sched::op_try_r(&self.id) == Some(false) {
            return Err(TryLockError::WouldBlock);
        }
        match self.inner.try_read() {
            Ok(g) => Ok(RwLockReadGuard { g: Some(g), m: &self.id }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), m: &self.id }))),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if sched::op_try_w(&self.id) == Some(false) {
            return Err(TryLockError::WouldBlock);
        }
        match self.inner.try_write() {
            Ok(g) => Ok(RwLockWriteGuard { g: Some(g), m: &self.id }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), m: &self.id }))),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.g.take();
        sched::op_runlock(self.m);
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.g.take();
        sched::op_unlock(self.m);
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLockReadGuard<'a, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLockWriteGuard<'a, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    id: Id,
    inner: ::std::sync::Condvar,
}

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { id: Id::new(), inner: ::std::sync::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = guard.m;
        if sched::controlled() {
            // the virtual mutex is given up inside op_cv_wait, the real one here
            drop(guard.g.take());
            ::std::mem::forget(guard);
            sched::op_cv_wait(&self.id, &m.id);
            return match m.inner.lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), m }),
                Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m })),
            };
        }
        let g = guard.g.take().unwrap();
        ::std::mem::forget(guard);
        match self.inner.wait(g) {
            Ok(g) => Ok(MutexGuard { g: Some(g), m }),
            Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), m })),
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let until = ::std::time::Instant::now() + d;
        loop {
            if !f(&mut guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            if sched::controlled() {
                let (g, _) = self.wait_timeout(guard, d)?;
                guard = g;
                let still = f(&mut guard);
                return Ok((guard, WaitTimeoutResult(still)));
            }
            let left = until.saturating_duration_since(::std::time::Instant::now());
            if left.is_zero() {
                return Ok((guard, WaitTimeoutResult(true)));
            }
            guard = self.wait_timeout(guard, left)?.0;
        }
    }
    pub fn wait_timeout<'a, T>(&self, mut guard: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if sched::controlled() {
            if d.as_secs() > 100 * 365 * 24 * 3600 {
                return match self.wait(guard) {
                    Ok(g) => Ok((g, WaitTimeoutResult(false))),
                    Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))),
                };
            }
            // the time-out fires before anybody notifies
            let m = guard.m;
            drop(guard);
            sched::sleep_ns(d.as_nanos() as u64);
            return match m.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            };
        }
        let m = guard.m;
        let g = guard.g.take().unwrap();
        ::std::mem::forget(guard);
        match self.inner.wait_timeout(g, d) {
            Ok((g, t)) => Ok((MutexGuard { g: Some(g), m }, WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((MutexGuard { g: Some(g), m }, WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    pub fn notify_one(&self) {
        sched::op_cv_notify(&self.id, false);
        self.inner.notify_one()
    }
    pub fn notify_all(&self) {
        sched::op_cv_notify(&self.id, true);
        self.inner.notify_all()
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}

// ---------------------------------------------------------------------------------------------
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    id: Id,
    n: usize,
    inner: ::std::sync::Barrier,
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { id: Id::new(), n, inner: ::std::sync::Barrier::new(n) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        match sched::op_barrier(&self.id, self.n) {
            Some(l) => BarrierWaitResult(l),
            None => BarrierWaitResult(self.inner.wait().is_leader()),
        }
    }
}

// ---------------------------------------------------------------------------------------------
pub struct OnceLock<T> {
    m: Mutex<()>,
    inner: ::std::sync::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> OnceLock<T> {
        OnceLock { m: Mutex::new(()), inner: ::std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        let _g = self.m.lock();
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let _g = self.m.lock();
        self.inner.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let _g = self.m.lock();
        self.inner.get_or_init(f)
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        OnceLock { m: Mutex::new(()), inner: self.inner.clone() }
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        OnceLock { m: Mutex::new(()), inner: t.into() }
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: F,
}
impl<T, F: Fn() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> LazyLock<T, F> {
        LazyLock { cell: OnceLock::new(), f }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.cell.get_or_init(|| (this.f)())
    }
}
impl<T, F: Fn() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

pub struct Once {
    done: Mutex<bool>,
}
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Once {
        Once { done: Mutex::new(false) }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.done.lock().expect("Once instance has previously been poisoned");
        if !*g {
            f();
            *g = true;
        }
    }
    pub fn is_completed(&self) -> bool {
        self.done.lock().map(|g| *g).unwrap_or(false)
    }
}
macro_rules! plain_debug { ($($n:ident $t:ty),*) => { $(impl ::std::fmt::Debug for $t {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(stringify!($n)) }
})* } }
plain_debug!(Once Once, Condvar Condvar, Barrier Barrier);
impl<T: ::std::fmt::Debug, F: Fn() -> T> ::std::fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.cell.fmt(f)
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------------------------------------
pub mod atomic {
    use crate::sched::{self, Id};
    pub use ::std::sync::atomic::*;

    trait Bits: Copy {
        fn bits(self) -> u64;
    }
    macro_rules! bits { ($($t:ty),*) => { $(impl Bits for $t { fn bits(self) -> u64 { self as u64 } })* } }
    bits!(bool, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);

    macro_rules! atomic_base {
        ($name:ident, $t:ty) => {
            pub struct $name {
                id: Id,
                inner: ::std::sync::atomic::$name,
            }
            impl $name {
                pub const fn new(v: $t) -> $name {
                    $name { id: Id::new(), inner: ::std::sync::atomic::$name::new(v) }
                }
                pub fn load(&self, _o: Ordering) -> $t {
                    sched::op_load(&self.id);
                    let v = self.inner.load(Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn store(&self, v: $t, _o: Ordering) {
                    sched::op_store(&self.id);
                    self.inner.store(v, Ordering::SeqCst)
                }
                pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.swap(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn compare_exchange(&self, c: $t, n: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
                    sched::op_rmw(&self.id);
                    let r = self.inner.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst);
                    sched::observe(match r { Ok(v) => v.bits(), Err(v) => v.bits() });
                    r
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(c, n, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, f: F) -> Result<$t, $t> {
                    sched::op_rmw(&self.id);
                    let r = self.inner.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f);
                    sched::observe(match r { Ok(v) => v.bits(), Err(v) => v.bits() });
                    r
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.inner.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.inner.into_inner()
                }
                pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_and(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_or(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_xor(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
            }
            impl Default for $name {
                fn default() -> Self { $name::new(Default::default()) }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self { $name::new(v) }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.inner.fmt(f) }
            }
        };
    }
    macro_rules! atomic_int {
        ($name:ident, $t:ty) => {
            atomic_base!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_add(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_sub(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_max(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
                pub fn fetch_min(&self, v: $t, _o: Ordering) -> $t {
                    sched::op_rmw(&self.id);
                    let v = self.inner.fetch_min(v, Ordering::SeqCst);
                    sched::observe(v.bits());
                    v
                }
            }
        };
    }
    atomic_base!(AtomicBool, bool);
    atomic_int!(AtomicU8, u8);
    atomic_int!(AtomicI8, i8);
    atomic_int!(AtomicU16, u16);
    atomic_int!(AtomicI16, i16);
    atomic_int!(AtomicU32, u32);
    atomic_int!(AtomicI32, i32);
    atomic_int!(AtomicU64, u64);
    atomic_int!(AtomicI64, i64);
    atomic_int!(AtomicUsize, usize);
    atomic_int!(AtomicIsize, isize);
}

// ---------------------------------------------------------------------------------------------
pub mod mpsc {
    use super::Arc;
    use crate::sched::{self, Id};
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use ::std::collections::VecDeque;
    use ::std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    use ::std::time::Duration;

    const UNBOUNDED: usize = usize::MAX / 4;

    /// A queue like those of the pools. The last sender leaves a None. Senders that are cloned and
    /// dropped otherwise are no steps, as nobody can tell.
    struct Shared<T> {
        q: ::std::sync::Mutex<VecDeque<Option<T>>>,
        cap: usize,
        id: Id,
        senders: AtomicUsize,
        gone: AtomicBool,
        gone_id: Id,
        ended: AtomicBool,
    }
    pub struct Sender<T>(Arc<Shared<T>>);
    pub struct SyncSender<T>(Arc<Shared<T>>);
    pub struct Receiver<T>(Arc<Shared<T>>);

    fn make<T>(cap: usize) -> Arc<Shared<T>> {
        Arc::new(Shared {
            q: ::std::sync::Mutex::new(VecDeque::new()),
            cap,
            id: Id::new(),
            senders: AtomicUsize::new(1),
            gone: AtomicBool::new(false),
            gone_id: Id::new(),
            ended: AtomicBool::new(false),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let s = make(UNBOUNDED);
        (Sender(s.clone()), Receiver(s))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let s = make(n);
        (SyncSender(s.clone()), Receiver(s))
    }
    impl<T> Shared<T> {
        fn q(&self) -> ::std::sync::MutexGuard<'_, VecDeque<Option<T>>> {
            self.q.lock().unwrap_or_else(|e| e.into_inner())
        }
        fn is_gone(&self) -> bool {
            sched::op_load(&self.gone_id);
            self.gone.load(SeqCst)
        }
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            if self.is_gone() {
                return Err(SendError(t));
            }
            if !sched::op_push(&self.id, self.cap.max(1), 0) {
                while self.q().len() >= self.cap.max(1) && !self.gone.load(SeqCst) {
                    ::std::thread::yield_now();
                }
            }
            self.q().push_back(Some(t));
            if self.is_gone() {
                // nobody else takes it any more
                return match self.q().pop_back() {
                    Some(Some(t)) => Err(SendError(t)),
                    _ => Ok(()),
                };
            }
            // nothing is kept between the two ends of a channel without capacity
            if self.cap == 0 && !sched::op_wait_empty(&self.id, 1) {
                while !self.q().is_empty() {
                    ::std::thread::yield_now();
                }
            }
            Ok(())
        }
        fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            if self.is_gone() {
                return Err(TrySendError::Disconnected(t));
            }
            if self.cap == 0 {
                return Err(TrySendError::Full(t));
            }
            sched::op_try_push(&self.id, self.cap, 0);
            let mut q = self.q();
            if q.len() >= self.cap {
                return Err(TrySendError::Full(t));
            }
            q.push_back(Some(t));
            Ok(())
        }
        fn bye(&self) {
            if self.senders.fetch_sub(1, SeqCst) == 1 {
                sched::op_push(&self.id, usize::MAX, 0);
                self.q().push_back(None);
            }
        }
        fn taken(&self, x: Option<Option<T>>) -> Result<T, TryRecvError> {
            match x {
                Some(Some(t)) => Ok(t),
                Some(None) => {
                    self.ended.store(true, SeqCst);
                    Err(TryRecvError::Disconnected)
                }
                None => Err(TryRecvError::Empty),
            }
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            self.0.try_send(t)
        }
    }
    macro_rules! ends {
        ($n:ident) => {
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.senders.fetch_add(1, SeqCst);
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.bye()
                }
            }
            impl<T> ::std::fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    f.write_str(concat!(stringify!($n), " { .. }"))
                }
            }
        };
    }
    ends!(Sender);
    ends!(SyncSender);
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            if self.0.ended.load(SeqCst) {
                return Err(RecvError);
            }
            if !sched::op_pop(&self.0.id, self.0.cap.max(1)) {
                while self.0.q().is_empty() {
                    ::std::thread::yield_now();
                }
            }
            let x = self.0.q().pop_front();
            self.0.taken(x).map_err(|_| RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            if self.0.ended.load(SeqCst) {
                return Err(TryRecvError::Disconnected);
            }
            sched::op_try_pop(&self.0.id, self.0.cap.max(1));
            let x = self.0.q().pop_front();
            self.0.taken(x)
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            super::super::thread::sleep(d);
            match self.try_recv() {
                Ok(t) => Ok(t),
                Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            Iter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            sched::op_store(&self.0.gone_id);
            self.0.gone.store(true, SeqCst);
            // those who wait for a place go on
            while !self.0.ended.load(SeqCst) {
                sched::op_try_pop(&self.0.id, self.0.cap.max(1));
                match self.0.q().pop_front() {
                    Some(Some(_)) => {}
                    _ => break,
                }
            }
        }
    }
}
