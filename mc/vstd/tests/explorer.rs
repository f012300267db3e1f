//! The explorer against programs whose set of outcomes is known.
use std::collections::BTreeSet;
use vstd::sched::{explore, Config, Report};
use vstd::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use vstd::sync::{mpsc, Arc, Barrier, Condvar, Mutex, RwLock};
use vstd::thread;

static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn both<F: Fn() -> Result<String, String> + Send + Sync + Clone + 'static>(name: &str, f: F) -> (Report, Report) {
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let d = explore(&Config::new(name), f.clone());
    let mut c = Config::new(name);
    c.naive_bound = Some(3);
    let n = explore(&c, f);
    println!("{name}: dpor {} ({} redundant) naive {} outcomes {:?}", d.executions, d.redundant, n.executions, d.outcomes);
    assert!(d.engine_error.is_none(), "{:?}", d.engine_error);
    assert!(n.engine_error.is_none(), "{:?}", n.engine_error);
    let a: BTreeSet<_> = d.outcomes.iter().map(|x| x.0.clone()).collect();
    let b: BTreeSet<_> = n.outcomes.iter().map(|x| x.0.clone()).collect();
    assert_eq!(d.violation.is_some(), n.violation.is_some(), "{:?} {:?}", d.violation, n.violation);
    if d.violation.is_none() {
        assert_eq!(a, b);
    }
    (d, n)
}

#[test]
fn lost_update() {
    let (d, _) = both("lost", || {
        vstd::sched::explore_begin();
        let a = Arc::new(AtomicUsize::new(0));
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let a = a.clone();
                thread::spawn(move || {
                    let v = a.load(SeqCst);
                    a.store(v + 1, SeqCst);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        Ok(a.load(SeqCst).to_string())
    });
    assert_eq!(d.outcomes.len(), 2);
}

#[test]
fn three_writers() {
    let (d, _) = both("writers", || {
        vstd::sched::explore_begin();
        let a = Arc::new(Mutex::new(vec![]));
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let a = a.clone();
                thread::spawn(move || a.lock().unwrap().push(i))
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let s = format!("{:?}", a.lock().unwrap());
        Ok(s)
    });
    assert_eq!(d.outcomes.len(), 6);
    assert_eq!(d.executions - d.redundant, 6);
}

#[test]
fn deadlock() {
    let (d, _) = both("deadlock", || {
        vstd::sched::explore_begin();
        let a = Arc::new(Mutex::new(0));
        let b = Arc::new(Mutex::new(0));
        let (a2, b2) = (a.clone(), b.clone());
        let h = thread::spawn(move || {
            let _x = a2.lock().unwrap();
            let _y = b2.lock().unwrap();
        });
        {
            let _x = b.lock().unwrap();
            let _y = a.lock().unwrap();
        }
        h.join().unwrap();
        Ok(String::new())
    });
    assert!(d.violation.unwrap().0.starts_with("hang"));
}

#[test]
fn store_buffer_and_flags() {
    let (d, _) = both("sb", || {
        vstd::sched::explore_begin();
        let x = Arc::new(AtomicUsize::new(0));
        let y = Arc::new(AtomicUsize::new(0));
        let (x2, y2) = (x.clone(), y.clone());
        let h = thread::spawn(move || {
            x2.store(1, SeqCst);
            y2.load(SeqCst)
        });
        y.store(1, SeqCst);
        let a = x.load(SeqCst);
        let b = h.join().unwrap();
        Ok(format!("{a}{b}"))
    });
    assert_eq!(d.outcomes.len(), 3);
}

#[test]
fn condvar_channel_barrier() {
    both("chan", || {
        vstd::sched::explore_begin();
        let (s, r) = mpsc::sync_channel(1);
        let hs: Vec<_> = (0..2)
            .map(|i| {
                let s = s.clone();
                thread::spawn(move || s.send(i).unwrap())
            })
            .collect();
        drop(s);
        let v: Vec<i32> = r.iter().collect();
        for h in hs {
            h.join().unwrap();
        }
        Ok(format!("{v:?}"))
    });
}

#[test]
fn channels() {
    for n in [None, Some(0), Some(1), Some(2)] {
        both(&format!("channel {n:?}"), move || {
            vstd::sched::explore_begin();
            fn go<S: Clone + Send + 'static>(s: S, r: mpsc::Receiver<i32>, send: fn(&S, i32) -> bool) -> Result<String, String> {
                let hs: Vec<_> = (0..2)
                    .map(|i| {
                        let s = s.clone();
                        thread::spawn(move || send(&s, i) as i32 + if i == 1 { 0 } else { 2 * (send(&s, i + 10) as i32) })
                    })
                    .collect();
                drop(s);
                let v = [r.recv().ok(), r.try_recv().ok()];
                drop(r);
                let sent: Vec<i32> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                Ok(format!("{v:?} {sent:?}"))
            }
            match n {
                None => {
                    let (s, r) = mpsc::channel();
                    go(s, r, |s, x| s.send(x).is_ok())
                }
                Some(n) => {
                    let (s, r) = mpsc::sync_channel(n);
                    go(s, r, |s, x| s.send(x).is_ok())
                }
            }
        });
    }
}

#[test]
fn barrier_and_cv() {
    let (d, _) = both("barrier", || {
        vstd::sched::explore_begin();
        let b = Arc::new(Barrier::new(2));
        let a = Arc::new(AtomicUsize::new(0));
        let (b2, a2) = (b.clone(), a.clone());
        let h = thread::spawn(move || {
            a2.fetch_add(1, SeqCst);
            b2.wait();
            a2.fetch_add(10, SeqCst);
        });
        b.wait();
        let v = a.load(SeqCst);
        h.join().unwrap();
        Ok(v.to_string())
    });
    assert_eq!(d.outcomes.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), vec!["1", "11"]);
    // a lost wake-up
    let (d, _) = both("lost wake-up", || {
        vstd::sched::explore_begin();
        let p = Arc::new((AtomicBool::new(false), Mutex::new(()), Condvar::new()));
        let q = p.clone();
        let h = thread::spawn(move || {
            q.0.store(true, SeqCst);
            q.2.notify_one();
        });
        if !p.0.load(SeqCst) {
            let g = p.1.lock().unwrap();
            let _g = p.2.wait(g).unwrap();
        }
        h.join().unwrap();
        Ok(String::new())
    });
    assert!(d.violation.unwrap().0.starts_with("hang"));
}

#[test]
fn spin_and_sleep() {
    let (d, _) = both("spin", || {
        vstd::sched::explore_begin();
        let f = Arc::new(AtomicBool::new(false));
        let g = f.clone();
        let h = thread::spawn(move || g.store(true, SeqCst));
        while !f.load(SeqCst) {
            thread::sleep(std::time::Duration::from_millis(1));
        }
        h.join().unwrap();
        thread::sleep(std::time::Duration::from_millis(1));
        Ok(String::new())
    });
    assert!(d.violation.is_none());
    let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let d = explore(&Config::new("spin forever"), || {
        vstd::sched::explore_begin();
        let f = AtomicBool::new(false);
        while !f.load(SeqCst) {}
        Ok(String::new())
    });
    assert!(d.violation.unwrap().0.starts_with("livelock"));
    let d = explore(&Config::new("spin"), || {
        vstd::sched::explore_begin();
        let f = Arc::new(AtomicBool::new(false));
        let g = f.clone();
        let h = thread::spawn(move || g.store(true, SeqCst));
        while !f.load(SeqCst) {}
        h.join().unwrap();
        Ok(String::new())
    });
    assert!(d.violation.is_none());
}

#[test]
fn rwlock_panic_poison() {
    let (d, _) = both("rw", || {
        vstd::sched::explore_begin();
        let a = Arc::new(RwLock::new(0));
        let b = a.clone();
        let h = thread::spawn(move || {
            *b.write().unwrap() += 1;
            *b.write().unwrap() += 1;
        });
        let v = *a.read().unwrap();
        let w = *a.read().unwrap();
        h.join().unwrap();
        Ok(format!("{v}{w}"))
    });
    assert_eq!(d.outcomes.len(), 6);
    std::panic::set_hook(Box::new(|_| {}));
    let (d, _) = both("poison", || {
        vstd::sched::explore_begin();
        let a = Arc::new(Mutex::new(0));
        let b = a.clone();
        let h = thread::spawn(move || {
            let _g = b.lock().unwrap();
            panic!("x");
        });
        let p = a.lock().is_err();
        let e = h.join().is_err();
        Ok(format!("{p}{e}"))
    });
    let _ = std::panic::take_hook();
    assert_eq!(d.outcomes.len(), 2);
}

#[test]
fn scope_runs() {
    let (d, _) = both("scope", || {
        vstd::sched::explore_begin();
        let a = AtomicUsize::new(0);
        thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| a.fetch_add(1, SeqCst));
            }
        });
        Ok(a.load(SeqCst).to_string())
    });
    assert_eq!(d.outcomes.len(), 1);
}
