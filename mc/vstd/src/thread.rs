use crate::sched;
use ::std::io;
use ::std::num::NonZeroUsize;
use ::std::sync::{Arc, Mutex as RMutex};
pub use ::std::thread::*;
use ::std::time::Duration;

type R<T> = ::std::thread::Result<T>;

pub struct JoinHandle<T> {
    inner: ::std::thread::JoinHandle<R<T>>,
    tid: Option<sched::Tid>,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> R<T> {
        if let Some(t) = self.tid {
            sched::op_join(t);
        }
        match self.inner.join() {
            Ok(r) => r,
            Err(e) => Err(e),
        }
    }

    pub fn thread(&self) -> &::std::thread::Thread {
        self.inner.thread()
    }

    pub fn is_finished(&self) -> bool {
        match self.tid {
            Some(t) if sched::controlled() => {
                sched::op_yield();
                sched::is_finished(t)
            }
            _ => self.inner.is_finished(),
        }
    }
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, name: String) -> Builder {
        self.name = Some(name);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Builder {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let mut b = ::std::thread::Builder::new();
        let name = self.name.clone().unwrap_or_default();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        let tid = sched::spawn_register(&name);
        let inner = match tid {
            Some(t) => {
                let e = sched::epoch();
                b.spawn(move || sched::thread_main(e, t, f))?
            }
            None => b.spawn(move || Ok(f()))?,
        };
        Ok(JoinHandle { inner, tid })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, scope: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(scope.spawn(f))
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn sleep(d: Duration) {
    if sched::controlled() {
        sched::sleep_ns(d.as_nanos() as u64);
    } else {
        ::std::thread::sleep(d)
    }
}

pub fn yield_now() {
    if !sched::op_yield() {
        ::std::thread::yield_now()
    }
}

pub fn park_timeout(_d: Duration) {
    yield_now()
}

pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    if sched::controlled() {
        Ok(NonZeroUsize::new(2).unwrap())
    } else {
        ::std::thread::available_parallelism()
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    inner: &'scope ::std::thread::Scope<'scope, 'env>,
    tids: Arc<RMutex<Vec<sched::Tid>>>,
}

pub struct ScopedJoinHandle<'scope, T> {
    inner: ::std::thread::ScopedJoinHandle<'scope, R<T>>,
    tid: Option<sched::Tid>,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> R<T> {
        if let Some(t) = self.tid {
            sched::op_join(t);
        }
        match self.inner.join() {
            Ok(r) => r,
            Err(e) => Err(e),
        }
    }
    pub fn thread(&self) -> &::std::thread::Thread {
        self.inner.thread()
    }
    pub fn is_finished(&self) -> bool {
        yield_now();
        self.inner.is_finished()
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match sched::spawn_register("scoped") {
            Some(t) => {
                self.tids.lock().unwrap().push(t);
                let e = sched::epoch();
                ScopedJoinHandle { inner: self.inner.spawn(move || sched::thread_main(e, t, f)), tid: Some(t) }
            }
            None => ScopedJoinHandle { inner: self.inner.spawn(move || Ok(f())), tid: None },
        }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    ::std::thread::scope(|s| {
        let tids = Arc::new(RMutex::new(vec![]));
        // lives as long as the scope does
        let sc: &Scope<'_, 'env> = Box::leak(Box::new(Scope { inner: s, tids: tids.clone() }));
        let r = f(sc);
        loop {
            let t = tids.lock().unwrap().pop();
            match t {
                Some(t) => {
                    sched::op_join(t);
                }
                None => break,
            }
        }
        r
    })
}
