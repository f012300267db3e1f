//! Controlled scheduler and explorer.
//!
//! Every controlled thread is a real OS thread, but only the one holding the token runs. A thread
//! announces its next synchronisation operation (`op`) and gives the token up; the operation takes
//! effect when the scheduler picks that thread. Code between two operations runs undisturbed, so an
//! execution is determined by the sequence of picks.
//!
//! The explorer enumerates executions with dynamic partial-order reduction (source sets and sleep
//! sets over the happens-before relation of the executed operations); it is exhaustive up to
//! equivalence of executions that differ only in the order of independent operations.

use ::std::cell::Cell;
use ::std::collections::{HashMap, HashSet, VecDeque};
use ::std::sync::{Arc, Condvar as RCondvar, Mutex as RMutex, MutexGuard as RGuard};
use ::std::time::Duration as RDuration;

pub type Tid = usize;
pub const MAX_THREADS: usize = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Start,
    Lock,
    TryLock,
    RLock,
    WLock,
    TryRLock,
    TryWLock,
    Load,
    Store,
    Rmw,
    Arrive,
    Pass,
    Push,
    Pop,
    WaitEmpty,
    TryPush,
    TryPop,
    QRead,
    Join,
    CvWait,
    CvWake,
    CvNotify,
    Yield,
    Park,
    Unpark,
    Quiesce,
    Point,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub kind: Kind,
    pub obj: usize,
    /// barrier generation, joined thread, class of the pushed element, condvar ticket
    pub arg: usize,
}

type Clock = Vec<u32>;

fn join(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b.iter()) {
        if *y > *x {
            *x = *y;
        }
    }
}

fn covers(c: &Clock, tid: Tid, n: u32) -> bool {
    c.get(tid).copied().unwrap_or(0) >= n
}

#[derive(Default, Debug)]
struct Obj {
    // locks
    owner: Option<Tid>,
    readers: usize,
    rel: Clock,
    rel_r: Clock,
    // atomics and queue reads
    rd: Clock,
    wr: Clock,
    // queues
    cap: usize,
    items: VecDeque<(usize, Clock)>,
    popped: u64,
    push_c: Clock,
    pop_c: Clock,
    // barrier
    n: usize,
    arrived: usize,
    gen: usize,
    arr: Clock,
    gen_clock: Clock,
    // condvar / park
    waiters: VecDeque<(usize, Tid)>,
    woken: HashSet<usize>,
    token: bool,
    // events of the explored part on this object
    hist: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub tid: Tid,
    pub op: Op,
    clock: Clock,
    /// class of the element a push/pop transferred
    class: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TState {
    Pending,
    Running,
    Finished,
}

struct Th {
    state: TState,
    op: Op,
    clock: Clock,
    children: usize,
    start_hash: u64,
    /// what the thread itself has seen so far, without its identity
    local: u64,
    hash: u64,
    name: String,
    yielded_at: usize,
    /// consecutive operations without any progress of the system
    spin: usize,
    spin_at: usize,
}

#[derive(Clone, Debug, Default)]
struct Node {
    enabled: u64,
    backtrack: u64,
    done: u64,
    sleep: u64,
    chosen: Tid,
    sig: u64,
    /// for each enabled thread the representative of its symmetry class
    rep: Vec<(Tid, Tid)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Done,
    /// no thread can move, with a description of what each waits for
    Deadlock(String),
    /// the step limit was hit
    Livelock(String),
    /// the code ran without reaching a synchronisation operation for too long
    Stuck(String),
    Engine(String),
}

struct St {
    epoch: usize,
    active: bool,
    exploring: bool,
    aborting: bool,
    stop: Option<Stop>,
    body_done: bool,
    threads: Vec<Th>,
    tid_of: HashMap<(Tid, usize), Tid>,
    next_tid: usize,
    present: Vec<bool>,
    current: Tid,
    objs: Vec<Obj>,
    events: Vec<Event>,
    stack: Vec<Node>,
    prefix: usize,
    redundant: bool,
    steps: usize,
    total_steps: usize,
    progress: usize,
    idle_rounds: usize,
    time_ns: u64,
    max_steps: usize,
    seen: HashSet<u64>,
    transitions: u64,
    xor: u64,
    symmetry: bool,
    naive_bound: Option<usize>,
    priority: Vec<Tid>,
    turns: Vec<usize>,
    turn: usize,
    last_turn: Vec<usize>,
    live_os: usize,
    forced: Option<Vec<Tid>>,
    last_observed: u64,
    trace_on: bool,
    trace: Vec<String>,
}

pub struct Sched {
    m: RMutex<St>,
    cv: Vec<RCondvar>,
    driver: RCondvar,
}

::std::thread_local! {
    static CUR: Cell<Option<(usize, Tid)>> = const { Cell::new(None) };
}

fn sched() -> &'static Sched {
    static S: ::std::sync::OnceLock<Sched> = ::std::sync::OnceLock::new();
    S.get_or_init(|| Sched {
        m: RMutex::new(St {
            epoch: 0,
            active: false,
            exploring: false,
            aborting: false,
            stop: None,
            body_done: false,
            threads: vec![],
            tid_of: HashMap::new(),
            next_tid: 1,
            present: vec![],
            current: 0,
            objs: vec![],
            events: vec![],
            stack: vec![],
            prefix: 0,
            redundant: false,
            steps: 0,
            total_steps: 0,
            progress: 0,
            idle_rounds: 0,
            time_ns: 0,
            max_steps: 200_000,
            seen: HashSet::new(),
            transitions: 0,
            xor: 0,
            symmetry: true,
            naive_bound: None,
            priority: vec![],
            turns: vec![],
            turn: 0,
            last_turn: vec![],
            live_os: 0,
            forced: None,
            last_observed: 0,
            trace_on: false,
            trace: vec![],
        }),
        cv: (0..MAX_THREADS).map(|_| RCondvar::new()).collect(),
        driver: RCondvar::new(),
    })
}

::std::thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

/// Is the calling thread at work for the scheduler rather than the program?
pub fn inside() -> bool {
    INSIDE.try_with(|i| i.get() > 0).unwrap_or(true)
}

struct Guard(Option<RGuard<'static, St>>);

impl Guard {
    fn new(g: RGuard<'static, St>) -> Guard {
        INSIDE.with(|i| i.set(i.get() + 1));
        Guard(Some(g))
    }

    fn wait(mut self, cv: &RCondvar) -> Guard {
        Guard::new(cv.wait(self.0.take().unwrap()).unwrap_or_else(|e| e.into_inner()))
    }

    fn wait_timeout(mut self, cv: &RCondvar, d: RDuration) -> (Guard, bool) {
        let (g, to) = cv.wait_timeout(self.0.take().unwrap(), d).unwrap_or_else(|e| e.into_inner());
        (Guard::new(g), to.timed_out())
    }
}

impl ::std::ops::Deref for Guard {
    type Target = St;
    fn deref(&self) -> &St {
        self.0.as_ref().unwrap()
    }
}

impl ::std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut St {
        self.0.as_mut().unwrap()
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        self.0 = None;
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}

fn lk() -> Guard {
    Guard::new(sched().m.lock().unwrap_or_else(|e| e.into_inner()))
}

struct Abort;

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x
}

/// Is the calling thread under control of the current execution?
pub fn controlled() -> bool {
    match CUR.with(|c| c.get()) {
        None => false,
        Some((e, _)) => {
            let st = lk();
            st.active && st.epoch == e
        }
    }
}

pub fn me() -> Option<Tid> {
    CUR.with(|c| c.get()).map(|x| x.1)
}

/// An object identity that is assigned at first use in each execution.
pub struct Id(::std::sync::atomic::AtomicUsize);

const EPOCH_SHIFT: usize = 24;

impl Id {
    pub const fn new() -> Id {
        Id(::std::sync::atomic::AtomicUsize::new(0))
    }

    fn get(&self, st: &mut St) -> usize {
        let v = self.0.load(::std::sync::atomic::Ordering::Relaxed);
        if v >> EPOCH_SHIFT == st.epoch {
            return v & ((1 << EPOCH_SHIFT) - 1);
        }
        let i = st.objs.len();
        st.objs.push(Obj::default());
        self.0.store((st.epoch << EPOCH_SHIFT) | i, ::std::sync::atomic::Ordering::Relaxed);
        i
    }
}

impl Default for Id {
    fn default() -> Self {
        Id::new()
    }
}

/// A thread that keeps looking without anything changing waits like one that yields.
fn spinning(st: &St, t: Tid) -> bool {
    let th = &st.threads[t];
    th.spin >= 40 && th.spin_at == st.progress && matches!(th.op.kind, Kind::Load | Kind::QRead | Kind::TryLock | Kind::TryRLock | Kind::TryWLock | Kind::Yield)
}

fn enabled(st: &St, t: Tid) -> bool {
    let th = &st.threads[t];
    if th.state != TState::Pending {
        return false;
    }
    if spinning(st, t) {
        return false;
    }
    let o = &th.op;
    match o.kind {
        Kind::Lock => st.objs[o.obj].owner.is_none(),
        Kind::WLock => st.objs[o.obj].owner.is_none() && st.objs[o.obj].readers == 0,
        Kind::RLock => st.objs[o.obj].owner.is_none(),
        Kind::Pop => !st.objs[o.obj].items.is_empty(),
        Kind::Push => st.objs[o.obj].items.len() < st.objs[o.obj].cap,
        Kind::WaitEmpty => st.objs[o.obj].items.is_empty(),
        Kind::Pass => st.objs[o.obj].gen > o.arg,
        Kind::Join => st.threads[o.arg].state == TState::Finished,
        Kind::CvWake => st.objs[o.obj].woken.contains(&o.arg),
        Kind::Park => st.objs[o.obj].token,
        Kind::Yield => st.progress > th.yielded_at,
        Kind::Quiesce => false, // handled in pick
        _ => true,
    }
}

/// Is the pending operation of `q` dependent on event `e`, which was just executed?
fn pending_dep(st: &St, e: &Event, q: Tid) -> bool {
    if e.tid == q {
        return true;
    }
    let o = &st.threads[q].op;
    if !dep(&e.op, o) {
        return false;
    }
    if e.op.kind == Kind::Pop && o.kind == Kind::Pop && e.class != 0 {
        if let Some((c, _)) = st.objs[o.obj].items.front() {
            return *c != e.class;
        }
    }
    true
}

fn is_q(k: Kind) -> bool {
    matches!(k, Kind::Push | Kind::Pop | Kind::WaitEmpty | Kind::TryPush | Kind::TryPop | Kind::QRead)
}

/// May the two operations, both enabled in some state, fail to commute there?
fn dep(a: &Op, b: &Op) -> bool {
    use Kind::*;
    if a.obj != b.obj || a.obj == usize::MAX {
        return false;
    }
    match (a.kind, b.kind) {
        (Load, Load) => false,
        (Load | Store | Rmw, Load | Store | Rmw) => true,
        (RLock | TryRLock, RLock | TryRLock) => false,
        (Lock | TryLock | RLock | WLock | TryRLock | TryWLock, Lock | TryLock | RLock | WLock | TryRLock | TryWLock) => true,
        (Push, Pop) | (Pop, Push) => false,
        (Pop, WaitEmpty) | (WaitEmpty, Pop) => false,
        (WaitEmpty, WaitEmpty) | (QRead, QRead) | (WaitEmpty, QRead) | (QRead, WaitEmpty) => false,
        (x, y) if is_q(x) && is_q(y) => true,
        (CvWait | CvNotify, CvWait | CvNotify) => true,
        (Unpark, Unpark) => false,
        (Point, Point) => true,
        _ => false,
    }
}

fn class_rep(st: &St, t: Tid) -> Option<(u64, usize)> {
    // Workers of one pool (same code, same start) that have seen exactly the same so far and wait
    // on the same queue are interchangeable.
    let th = &st.threads[t];
    if !st.symmetry || th.op.kind != Kind::Pop || th.start_hash == 0 {
        return None;
    }
    Some((mix(th.start_hash, th.local), th.op.obj))
}

fn describe(st: &St) -> String {
    let mut s = String::new();
    for (i, t) in st.threads.iter().enumerate() {
        if !st.present[i] || t.state == TState::Finished {
            continue;
        }
        s.push_str(&format!("[{}:{} waits {:?} on {}] ", i, t.name, t.op.kind, t.op.obj as isize));
    }
    s
}

fn stop(st: &mut St, s: Stop) {
    if st.stop.is_none() {
        st.stop = Some(s);
    }
    sched().driver.notify_all();
}

/// Decide who runs next, apply the effect of its operation, hand it the token.
fn pick(st: &mut St) {
    st.steps += 1;
    st.total_steps += 1;
    if st.aborting || st.stop.is_some() {
        return;
    }
    if st.steps > st.max_steps {
        let d = describe(st);
        stop(st, Stop::Livelock(format!("no end after {} steps: {}", st.steps, d)));
        return;
    }
    let n = st.threads.len();
    let mut en: u64 = 0;
    for t in 0..n {
        if st.present[t] && enabled(st, t) {
            en |= 1 << t;
        }
    }
    if en == 0 {
        // somebody waiting for everyone else to come to rest?
        for t in 0..n {
            if st.present[t] && st.threads[t].state == TState::Pending && st.threads[t].op.kind == Kind::Quiesce {
                en |= 1 << t;
                break;
            }
        }
    }
    if en == 0 {
        let mut y: Option<Tid> = None;
        for t in 0..n {
            if st.present[t] && st.threads[t].state == TState::Pending && (st.threads[t].op.kind == Kind::Yield || spinning(st, t)) {
                // the one that has waited longest
                let better = match y {
                    None => true,
                    Some(b) => st.threads[t].spin < st.threads[b].spin,
                };
                if better {
                    y = Some(t);
                }
            }
        }
        match y {
            Some(t) if st.idle_rounds < 400 => {
                st.idle_rounds += 1;
                en |= 1 << t;
            }
            Some(_) => {
                let d = describe(st);
                stop(st, Stop::Livelock(format!("only spinning threads left: {}", d)));
                return;
            }
            None => {
                let d = describe(st);
                stop(st, Stop::Deadlock(d));
                return;
            }
        }
    }
    let chosen = if !st.exploring {
        match st.priority.iter().find(|t| en >> **t & 1 == 1) {
            Some(t) => *t,
            None if !st.turns.is_empty() => in_turn(st, en),
            None if en >> st.current & 1 == 1 => st.current,
            None => en.trailing_zeros() as usize,
        }
    } else {
        match choose(st, en) {
            Ok(t) => t,
            Err(e) => {
                stop(st, Stop::Engine(e));
                return;
            }
        }
    };
    execute(st, chosen);
    st.current = chosen;
    st.threads[chosen].state = TState::Running;
    sched().cv[chosen].notify_one();
}

/// The current thread while its turn lasts, then of those that can run the one whose last turn is longest ago
fn in_turn(st: &mut St, en: u64) -> Tid {
    st.turn += 1;
    if en >> st.current & 1 == 1 && st.turn < st.turns.get(st.current).copied().unwrap_or(1) {
        return st.current;
    }
    st.turn = 0;
    let n = st.threads.len();
    st.last_turn.resize(n, 0);
    let next = (0..n).filter(|t| en >> *t & 1 == 1).min_by_key(|t| st.last_turn[*t]).unwrap();
    st.last_turn[next] = st.total_steps + 1;
    next
}

fn choose(st: &mut St, en: u64) -> Result<Tid, String> {
    let depth = st.events.len();
    if let Some(f) = &st.forced {
        return Ok(match f.get(depth) {
            Some(t) if en >> *t & 1 == 1 => *t,
            Some(t) => return Err(format!("recorded schedule not followed: thread {} not enabled at step {}", t, depth)),
            None if en >> st.current & 1 == 1 => st.current,
            None => en.trailing_zeros() as usize,
        });
    }
    let mut sig = en;
    for t in 0..st.threads.len() {
        if en >> t & 1 == 1 {
            sig = mix(sig, (t as u64) << 32 | st.threads[t].op.kind as u64);
        }
    }
    if depth < st.prefix {
        let node = &st.stack[depth];
        if node.enabled != en || node.sig != sig {
            return Err(format!("replay diverged at step {}: enabled {:b} recorded {:b}", depth, en, node.enabled));
        }
        return Ok(node.chosen);
    }
    if st.redundant {
        return Ok(if en >> st.current & 1 == 1 { st.current } else { en.trailing_zeros() as usize });
    }
    // a new node
    let mut reps: Vec<(Tid, Tid)> = vec![];
    let mut classes: Vec<((u64, usize), Tid)> = vec![];
    for t in 0..st.threads.len() {
        if en >> t & 1 == 0 {
            continue;
        }
        let mut r = t;
        if let Some(c) = class_rep(st, t) {
            match classes.iter().find(|x| x.0 == c) {
                Some(x) => r = x.1,
                None => classes.push((c, t)),
            }
        }
        reps.push((t, r));
    }
    let mut sleep: u64 = 0;
    if depth > 0 {
        let parent = &st.stack[depth - 1];
        let e = &st.events[depth - 1];
        let cand = (parent.sleep | parent.done) & !(1u64 << e.tid);
        for q in 0..st.threads.len() {
            if cand >> q & 1 == 1 && st.threads[q].state == TState::Pending && !pending_dep(st, e, q) {
                sleep |= 1 << q;
            }
        }
        // symmetric threads sleep together
        for (t, r) in &reps {
            if reps.iter().any(|(t2, r2)| r2 == r && t2 != t && sleep >> t2 & 1 == 1) {
                sleep |= 1 << t;
            }
        }
    }
    let mut node = Node { enabled: en, sleep, sig, rep: reps, ..Default::default() };
    let avail = en & !sleep;
    if let Some(_b) = st.naive_bound {
        node.sleep = 0;
        node.backtrack = en;
        node.chosen = if en >> st.current & 1 == 1 { st.current } else { en.trailing_zeros() as usize };
        let c = node.chosen;
        st.stack.push(node);
        return Ok(c);
    }
    if avail == 0 {
        st.redundant = true;
        return Ok(en.trailing_zeros() as usize);
    }
    let c0 = if avail >> st.current & 1 == 1 { st.current } else { avail.trailing_zeros() as usize };
    let c = node.rep.iter().find(|x| x.0 == c0).map(|x| x.1).unwrap_or(c0);
    node.backtrack = 1 << c;
    node.chosen = c;
    st.stack.push(node);
    Ok(c)
}

fn execute(st: &mut St, t: Tid) {
    use Kind::*;
    let op = st.threads[t].op;
    let before = st.threads[t].clock.clone();
    let mut c = before.clone();
    let mut class = 0usize;
    let mut progress = true;
    let mut observed: u64 = 0;
    let mut pops: u64 = 0;
    match op.kind {
        Start | Point | Quiesce => {}
        Yield => progress = false,
        Join => {
            let k = st.threads[op.arg].clock.clone();
            join(&mut c, &k);
        }
        Lock => {
            let o = &mut st.objs[op.obj];
            o.owner = Some(t);
            join(&mut c, &o.rel);
        }
        TryLock => {
            let o = &mut st.objs[op.obj];
            if o.owner.is_none() {
                o.owner = Some(t);
                observed = 1;
            }
            progress = observed == 1;
            join(&mut c, &o.rel);
            join(&mut c, &o.wr);
        }
        RLock | TryRLock => {
            let o = &mut st.objs[op.obj];
            if o.owner.is_none() {
                o.readers += 1;
                observed = 1;
            }
            join(&mut c, &o.rel);
        }
        WLock | TryWLock => {
            let o = &mut st.objs[op.obj];
            if o.owner.is_none() && o.readers == 0 {
                o.owner = Some(t);
                observed = 1;
            }
            join(&mut c, &o.rel);
            join(&mut c, &o.rel_r);
        }
        Load => {
            let o = &st.objs[op.obj];
            join(&mut c, &o.wr);
            progress = false;
        }
        Store | Rmw => {
            let o = &st.objs[op.obj];
            join(&mut c, &o.wr);
            join(&mut c, &o.rd);
        }
        Arrive => {
            let o = &mut st.objs[op.obj];
            o.arrived += 1;
        }
        Pass => {
            let o = &st.objs[op.obj];
            join(&mut c, &o.gen_clock);
        }
        Push => {
            class = op.arg;
            let o = &st.objs[op.obj];
            join(&mut c, &o.push_c);
            join(&mut c, &o.rd);
            if o.items.len() + 1 >= o.cap {
                join(&mut c, &o.pop_c);
            }
        }
        TryPush => {
            class = op.arg;
            let o = &st.objs[op.obj];
            join(&mut c, &o.push_c);
            join(&mut c, &o.rd);
            join(&mut c, &o.pop_c);
        }
        Pop => {
            let o = &mut st.objs[op.obj];
            let (k, pc) = o.items.pop_front().unwrap();
            o.popped += 1;
            pops = if k != 0 { u64::MAX } else { o.popped };
            class = k;
            join(&mut c, &pc);
            join(&mut c, &o.rd);
            if class == 0 {
                join(&mut c, &o.pop_c);
            }
        }
        TryPop => {
            let o = &mut st.objs[op.obj];
            join(&mut c, &o.push_c);
            join(&mut c, &o.pop_c);
            join(&mut c, &o.rd);
            if let Some((k, pc)) = o.items.pop_front() {
                o.popped += 1;
                pops = o.popped;
                class = k;
                observed = 1;
                join(&mut c, &pc);
            }
        }
        WaitEmpty | QRead => {
            let o = &st.objs[op.obj];
            join(&mut c, &o.push_c);
            join(&mut c, &o.pop_c);
            progress = false;
        }
        CvWait | CvNotify => {
            let o = &st.objs[op.obj];
            join(&mut c, &o.wr);
        }
        CvWake => {
            let o = &mut st.objs[op.obj];
            o.woken.remove(&op.arg);
            join(&mut c, &o.wr);
        }
        Park => {
            let o = &mut st.objs[op.obj];
            o.token = false;
            join(&mut c, &o.wr);
        }
        Unpark => {}
    }
    // race detection against earlier explored events on the same object
    if st.exploring && !st.redundant && st.forced.is_none() && op.obj != usize::MAX {
        races(st, t, &op, class, &before);
    }
    if c.len() <= t {
        c.resize(t + 1, 0);
    }
    c[t] += 1;
    // effects that publish the clock
    let idx = st.events.len();
    if op.obj != usize::MAX {
        let o = &mut st.objs[op.obj];
        match op.kind {
            Load | QRead | WaitEmpty => join(&mut o.rd, &c),
            Store | Rmw | CvWait | CvNotify | TryLock => join(&mut o.wr, &c),
            Arrive => {
                join(&mut o.arr, &c);
                if o.arrived >= o.n {
                    o.arrived = 0;
                    o.gen += 1;
                    o.gen_clock = ::std::mem::take(&mut o.arr);
                }
            }
            Push => {
                o.items.push_back((class, c.clone()));
                join(&mut o.push_c, &c);
            }
            TryPush => {
                if o.items.len() < o.cap {
                    o.items.push_back((class, c.clone()));
                    observed = 1;
                }
                join(&mut o.push_c, &c);
            }
            Pop | TryPop => join(&mut o.pop_c, &c),
            Unpark => {
                o.token = true;
                join(&mut o.wr, &c);
            }
            _ => {}
        }
        if st.exploring {
            st.objs[op.obj].hist.push(idx);
        }
    }
    if progress {
        st.progress += 1;
        st.idle_rounds = 0;
    }
    if !progress && st.threads[t].spin_at == st.progress {
        st.threads[t].spin += 1;
    } else {
        st.threads[t].spin = 0;
        st.threads[t].spin_at = st.progress;
    }
    // fingerprint of the happens-before state
    let mut h = mix(st.threads[t].hash, op.kind as u64 + 1);
    for (i, v) in c.iter().enumerate() {
        if *v > 0 {
            h = mix(h, (i as u64) << 32 | *v as u64);
        }
    }
    h = mix(h, observed);
    st.xor ^= st.threads[t].hash ^ h;
    st.threads[t].hash = h;
    st.threads[t].clock = c.clone();
    st.last_observed = observed;
    let item = if matches!(op.kind, Pop | TryPop) { pops } else { 0 };
    let l = mix(mix(mix(st.threads[t].local, op.kind as u64), op.obj as u64), observed);
    st.threads[t].local = mix(l, item);
    if st.trace_on {
        let line = format!("{:>3} {:<24} {:?} obj {} arg {}", idx, format!("{}:{}", t, st.threads[t].name), op.kind, op.obj as isize, op.arg as isize);
        st.trace.push(line);
    }
    if st.exploring {
        if st.seen.len() < 20_000_000 {
            let x = st.xor;
            st.seen.insert(x);
        }
        if idx + 1 >= st.prefix {
            st.transitions += 1;
        }
        st.events.push(Event { tid: t, op, clock: c, class });
    }
}

fn races(st: &mut St, p: Tid, op: &Op, class: usize, before: &Clock) {
    if st.naive_bound.is_some() {
        return;
    }
    let mut acc = before.clone();
    let hist_len = st.objs[op.obj].hist.len();
    for k in (0..hist_len).rev() {
        let i = st.objs[op.obj].hist[k];
        let (etid, en, same) = {
            let e = &st.events[i];
            if e.tid == p || !dep(&e.op, op) {
                continue;
            }
            let same = e.op.kind == Kind::Pop && op.kind == Kind::Pop && class != 0 && e.class == class;
            (e.tid, e.clock[e.tid], same)
        };
        if same || covers(&acc, etid, en) {
            continue;
        }
        // reversible race between event i and this operation
        let ec = st.events[i].clock.clone();
        add_backtrack(st, i, p, before);
        join(&mut acc, &ec);
    }
}

/// Event `i` races with the operation `p` is about to execute (whose past is `before`).
fn add_backtrack(st: &mut St, i: usize, p: Tid, before: &Clock) {
    let (etid, en) = (st.events[i].tid, st.events[i].clock[st.events[i].tid]);
    // v: events after i that do not depend on i, then p's operation. Initials of v:
    let mut initials: u64 = 0;
    let mut seen_threads: u64 = 0;
    let mut heads: Vec<(Tid, u32)> = vec![];
    let mut vset: Vec<(Tid, u32)> = vec![];
    for j in i + 1..st.events.len() {
        let e = &st.events[j];
        if covers(&e.clock, etid, en) {
            continue; // depends on i
        }
        let first = seen_threads >> e.tid & 1 == 0;
        seen_threads |= 1 << e.tid;
        if first {
            // initial if nothing earlier in v happens before it
            let dep_on_v = vset.iter().any(|(t, n)| covers(&e.clock, *t, *n));
            if !dep_on_v {
                initials |= 1 << e.tid;
                heads.push((e.tid, e.clock[e.tid]));
            }
        }
        vset.push((e.tid, e.clock[e.tid]));
    }
    if seen_threads >> p & 1 == 0 {
        let dep_on_v = vset.iter().any(|(t, n)| covers(before, *t, *n));
        if !dep_on_v {
            initials |= 1 << p;
        }
    }
    let node = &mut st.stack[i];
    let canon = |t: Tid, node: &Node| node.rep.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(t);
    let mut cinit: u64 = 0;
    for t in 0..64 {
        if initials >> t & 1 == 1 && node.enabled >> t & 1 == 1 {
            cinit |= 1 << canon(t, node);
        }
    }
    if cinit & node.backtrack != 0 {
        return;
    }
    if cinit == 0 {
        for (_, r) in node.rep.clone() {
            node.backtrack |= 1 << r;
        }
        return;
    }
    let pc = canon(p, node);
    let add = if cinit >> pc & 1 == 1 { pc } else { cinit.trailing_zeros() as usize };
    node.backtrack |= 1 << add;
}

/// Announce `kind` on the object and wait until the scheduler lets it happen. Returns false when
/// the calling thread is not controlled (the caller then acts natively).
fn point(mk: impl FnOnce(&mut St, Tid) -> Op) -> Option<(Guard, Tid)> {
    let (epoch, t) = CUR.with(|c| c.get())?;
    let mut st = lk();
    if !st.active || st.epoch != epoch {
        drop(st);
        if ::std::thread::panicking() {
            return None;
        }
        ::std::panic::resume_unwind(Box::new(Abort));
    }
    if st.aborting {
        drop(st);
        if ::std::thread::panicking() {
            return None;
        }
        ::std::panic::resume_unwind(Box::new(Abort));
    }
    let op = mk(&mut st, t);
    st.threads[t].op = op;
    st.threads[t].state = TState::Pending;
    pick(&mut st);
    while st.threads[t].state != TState::Running {
        if st.aborting {
            drop(st);
            if ::std::thread::panicking() {
                return None;
            }
            ::std::panic::resume_unwind(Box::new(Abort));
        }
        st = st.wait(&sched().cv[t]);
    }
    Some((st, t))
}

fn simple(kind: Kind, id: &Id) -> bool {
    point(|st, _| Op { kind, obj: id.get(st), arg: 0 }).is_some()
}

pub fn op_lock(id: &Id) -> bool {
    simple(Kind::Lock, id)
}

/// Some(acquired) when controlled
pub fn op_try_lock(id: &Id) -> Option<bool> {
    point(|st, _| Op { kind: Kind::TryLock, obj: id.get(st), arg: 0 }).map(|(st, _)| st.last_observed == 1)
}

pub fn op_unlock(id: &Id) {
    if let Some((epoch, t)) = CUR.with(|c| c.get()) {
        let mut st = lk();
        if st.active && st.epoch == epoch {
            let o = id.get(&mut st);
            if st.objs[o].owner == Some(t) {
                st.objs[o].owner = None;
                let c = st.threads[t].clock.clone();
                join(&mut st.objs[o].rel, &c);
            }
        }
    }
}

pub fn op_rlock(id: &Id) -> bool {
    simple(Kind::RLock, id)
}

pub fn op_wlock(id: &Id) -> bool {
    simple(Kind::WLock, id)
}

pub fn op_try_r(id: &Id) -> Option<bool> {
    point(|st, _| Op { kind: Kind::TryRLock, obj: id.get(st), arg: 0 }).map(|(st, _)| st.last_observed == 1)
}

pub fn op_try_w(id: &Id) -> Option<bool> {
    point(|st, _| Op { kind: Kind::TryWLock, obj: id.get(st), arg: 0 }).map(|(st, _)| st.last_observed == 1)
}

pub fn op_runlock(id: &Id) {
    if let Some((epoch, t)) = CUR.with(|c| c.get()) {
        let mut st = lk();
        if st.active && st.epoch == epoch {
            let o = id.get(&mut st);
            if st.objs[o].readers > 0 {
                st.objs[o].readers -= 1;
            }
            let c = st.threads[t].clock.clone();
            join(&mut st.objs[o].rel_r, &c);
        }
    }
}

pub fn op_load(id: &Id) -> bool {
    simple(Kind::Load, id)
}
pub fn op_store(id: &Id) -> bool {
    simple(Kind::Store, id)
}
pub fn op_rmw(id: &Id) -> bool {
    simple(Kind::Rmw, id)
}

/// Some(is_leader)
pub fn op_barrier(id: &Id, n: usize) -> Option<bool> {
    let mut gen = 0;
    let r = point(|st, _| {
        let o = id.get(st);
        st.objs[o].n = n;
        Op { kind: Kind::Arrive, obj: o, arg: 0 }
    });
    let leader;
    match r {
        None => return None,
        Some((mut st, _)) => {
            let o = id.get(&mut st);
            // the effect of Arrive has been applied: if it completed the generation, arrived is 0
            leader = st.objs[o].arrived == 0;
            gen = gen.max(if leader { st.objs[o].gen - 1 } else { st.objs[o].gen });
        }
    }
    point(|st, _| Op { kind: Kind::Pass, obj: id.get(st), arg: gen })?;
    Some(leader)
}

pub fn op_queue_init(id: &Id, cap: usize) {
    let mut st = lk();
    let o = id.get(&mut st);
    st.objs[o].cap = cap;
}

fn q_obj(st: &mut St, id: &Id, cap: usize) -> usize {
    let o = id.get(st);
    st.objs[o].cap = cap;
    o
}

pub fn op_push(id: &Id, cap: usize, class: usize) -> bool {
    point(|st, _| Op { kind: Kind::Push, obj: q_obj(st, id, cap), arg: class }).is_some()
}
pub fn op_pop(id: &Id, cap: usize) -> bool {
    point(|st, _| Op { kind: Kind::Pop, obj: q_obj(st, id, cap), arg: 0 }).is_some()
}
pub fn op_wait_empty(id: &Id, cap: usize) -> bool {
    point(|st, _| Op { kind: Kind::WaitEmpty, obj: q_obj(st, id, cap), arg: 0 }).is_some()
}
pub fn op_qread(id: &Id, cap: usize) -> bool {
    point(|st, _| Op { kind: Kind::QRead, obj: q_obj(st, id, cap), arg: 0 }).is_some()
}
/// After these two the caller consults its own data (len/cap) to learn whether it succeeded.
pub fn op_try_push(id: &Id, cap: usize, class: usize) -> bool {
    point(|st, _| Op { kind: Kind::TryPush, obj: q_obj(st, id, cap), arg: class }).is_some()
}
pub fn op_try_pop(id: &Id, cap: usize) -> bool {
    point(|st, _| Op { kind: Kind::TryPop, obj: q_obj(st, id, cap), arg: 0 }).is_some()
}

/// Condition variable wait, the mutex `m` is held by the caller and is re-acquired on return.
pub fn op_cv_wait(id: &Id, m: &Id) -> bool {
    let mut ticket = 0;
    match point(|st, _| Op { kind: Kind::CvWait, obj: id.get(st), arg: 0 }) {
        None => return false,
        Some((mut st, t)) => {
            let o = id.get(&mut st);
            st.progress += 1;
            ticket += st.total_steps;
            st.objs[o].waiters.push_back((ticket, t));
        }
    }
    op_unlock(m);
    if point(|st, _| Op { kind: Kind::CvWake, obj: id.get(st), arg: ticket }).is_none() {
        return false;
    }
    op_lock(m)
}

/// Wait with a timeout: the timeout may fire at any time, it is modelled as firing at once when
/// nobody has notified yet.
pub fn op_cv_notify(id: &Id, all: bool) -> bool {
    match point(|st, _| Op { kind: Kind::CvNotify, obj: id.get(st), arg: 0 }) {
        None => false,
        Some((mut st, _)) => {
            let o = id.get(&mut st);
            loop {
                match st.objs[o].waiters.pop_front() {
                    None => break,
                    Some((ticket, _)) => {
                        st.objs[o].woken.insert(ticket);
                        if !all {
                            break;
                        }
                    }
                }
            }
            true
        }
    }
}

/// Record a value the calling thread has read (for symmetry and state fingerprints).
pub fn observe(v: u64) {
    if let Some((epoch, t)) = CUR.with(|c| c.get()) {
        let mut st = lk();
        if st.active && st.epoch == epoch {
            let th = &mut st.threads[t];
            th.local = mix(th.local, v);
            let old = th.hash;
            th.hash = mix(th.hash, v);
            let new = th.hash;
            st.xor ^= old ^ new;
        }
    }
}

/// The calling thread is getting on with something the scheduler does not see (so it does not spin).
pub fn progress() {
    if let Some((epoch, _)) = CUR.with(|c| c.get()) {
        let mut st = lk();
        if st.active && st.epoch == epoch {
            st.progress += 1;
            st.idle_rounds = 0;
        }
    }
}

pub fn op_yield() -> bool {
    point(|st, t| {
        st.threads[t].yielded_at = st.progress;
        Op { kind: Kind::Yield, obj: usize::MAX, arg: 0 }
    })
    .is_some()
}

pub fn op_park(id: &Id) -> bool {
    simple(Kind::Park, id)
}
pub fn op_unpark(id: &Id) -> bool {
    simple(Kind::Unpark, id)
}

/// Wait until every other thread is blocked (harness use).
pub fn quiesce() -> bool {
    point(|_, _| Op { kind: Kind::Quiesce, obj: usize::MAX, arg: 0 }).is_some()
}

/// Number of threads, other than this one, that have not ended; none of them can go on.
pub fn others() -> usize {
    quiesce();
    lk().live_os - 1
}

/// Number of threads, other than this one, that have not ended by now.
pub fn left() -> usize {
    lk().live_os - 1
}

/// Start exploring at this point: earlier events are fixed.
pub fn explore_begin() {
    quiesce();
    let mut st = lk();
    st.exploring = true;
    let n = st.threads.len();
    for t in 0..n {
        // the set-up gave every worker of a pool the same treatment
        st.threads[t].local = 1;
    }
    // exploring restarts clocks: everything before is ordered before everything after
    for t in 0..n {
        st.threads[t].clock = vec![];
    }
    for o in st.objs.iter_mut() {
        o.rel.clear();
        o.rel_r.clear();
        o.rd.clear();
        o.wr.clear();
        o.push_c.clear();
        o.pop_c.clear();
        o.arr.clear();
        o.gen_clock.clear();
        for i in o.items.iter_mut() {
            i.1.clear();
        }
    }
}

pub fn now_ns() -> u64 {
    lk().time_ns
}

pub fn sleep_ns(ns: u64) {
    {
        let mut st = lk();
        st.time_ns = st.time_ns.saturating_add(ns);
    }
    op_yield();
}

/// Register a child thread. Returns its tid, or None when the caller is not controlled.
pub fn spawn_register(name: &str) -> Option<Tid> {
    let (epoch, t) = CUR.with(|c| c.get())?;
    let mut st = lk();
    if !st.active || st.epoch != epoch || st.aborting {
        return None;
    }
    let k = st.threads[t].children;
    st.threads[t].children += 1;
    let tid = match st.tid_of.get(&(t, k)) {
        Some(x) => *x,
        None => {
            let x = st.next_tid;
            st.next_tid += 1;
            st.tid_of.insert((t, k), x);
            x
        }
    };
    if tid >= MAX_THREADS {
        stop(&mut st, Stop::Engine("too many threads".into()));
        return None;
    }
    let clock = st.threads[t].clock.clone();
    add_thread(&mut st, tid, clock, name);
    st.threads[tid].start_hash = {
        // workers of a pool share the name up to the index
        let base: String = name.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        let mut h = 7u64;
        for b in base.bytes() {
            h = mix(h, b as u64);
        }
        mix(h, t as u64) | 1
    };
    Some(tid)
}

fn add_thread(st: &mut St, tid: Tid, clock: Clock, name: &str) {
    while st.threads.len() <= tid {
        st.threads.push(Th {
            state: TState::Finished,
            op: Op { kind: Kind::Start, obj: usize::MAX, arg: 0 },
            clock: vec![],
            children: 0,
            start_hash: 0,
            local: 0,
            hash: 0,
            name: String::new(),
            yielded_at: 0,
            spin: 0,
            spin_at: 0,
        });
        st.present.push(false);
    }
    let th = &mut st.threads[tid];
    th.state = TState::Pending;
    th.op = Op { kind: Kind::Start, obj: usize::MAX, arg: 0 };
    th.clock = clock;
    th.children = 0;
    th.local = 1;
    th.hash = mix(11, tid as u64);
    th.name = name.to_string();
    th.yielded_at = 0;
    th.spin = 0;
    th.spin_at = 0;
    st.present[tid] = true;
    let h = st.threads[tid].hash;
    st.xor ^= h;
    st.live_os += 1;
}

pub fn epoch() -> usize {
    lk().epoch
}

/// Body of a controlled OS thread.
pub fn thread_main<T>(epoch: usize, tid: Tid, f: impl FnOnce() -> T) -> Result<T, Box<dyn ::std::any::Any + Send>> {
    CUR.with(|c| c.set(Some((epoch, tid))));
    // wait to be started
    let go = {
        let mut st = lk();
        loop {
            if st.epoch != epoch || st.aborting {
                break false;
            }
            if st.threads[tid].state == TState::Running {
                break true;
            }
            st = st.wait(&sched().cv[tid]);
        }
    };
    let r = if go {
        ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f))
    } else {
        Err(Box::new(Abort) as Box<dyn ::std::any::Any + Send>)
    };
    CUR.with(|c| c.set(None));
    let mut st = lk();
    if st.epoch == epoch {
        st.live_os -= 1;
        st.threads[tid].state = TState::Finished;
        if st.active && !st.aborting {
            st.progress += 1;
            if tid == 0 {
                st.body_done = true;
                stop(&mut st, Stop::Done);
            } else {
                pick(&mut st);
            }
        }
        sched().driver.notify_all();
    }
    r
}

pub fn op_join(tid: Tid) -> bool {
    point(|_, _| Op { kind: Kind::Join, obj: usize::MAX, arg: tid }).is_some()
}

pub fn is_finished(tid: Tid) -> bool {
    lk().threads[tid].state == TState::Finished
}

// ---------------------------------------------------------------------------------------------
// exploration driver

#[derive(Clone, Debug)]
pub struct Config {
    pub name: String,
    /// explore schedules; false: one execution under the default schedule
    pub explore: bool,
    pub max_executions: u64,
    /// when to stop after the first twenty executions
    pub deadline: Option<::std::time::Instant>,
    pub max_steps: usize,
    pub symmetry: bool,
    /// Some(b): instead of partial-order reduction enumerate every schedule with at most b
    /// preemptions (used to cross-check the reduction)
    pub naive_bound: Option<usize>,
    pub stuck_secs: u64,
    /// without exploration: the first of these that can run does so at every step; if none can, the
    /// current thread goes on
    pub priority: Vec<Tid>,
    /// without exploration: the threads that can run take turns, each of them for that many steps
    pub turns: Vec<usize>,
}

impl Config {
    pub fn new(name: &str) -> Config {
        Config { name: name.to_string(), explore: true, max_executions: 1_000_000, deadline: None, max_steps: 200_000, symmetry: true, naive_bound: None, stuck_secs: 120, priority: vec![], turns: vec![] }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub name: String,
    pub executions: u64,
    pub redundant: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_depth: usize,
    pub capped: bool,
    pub leaked: u64,
    /// observed outcome -> number of executions
    pub outcomes: Vec<(String, u64)>,
    pub violation: Option<(String, Vec<Tid>, Vec<String>)>,
    pub engine_error: Option<String>,
}

enum BodyEnd {
    Ok(String),
    Bad(String),
    Panic(String),
}

fn run_once<F>(cfg: &Config, body: &Arc<F>, trace: bool) -> (Stop, Option<BodyEnd>, usize)
where
    F: Fn() -> Result<String, String> + Send + Sync + 'static,
{
    let s = sched();
    let epoch;
    {
        let mut st = lk();
        st.epoch += 1;
        epoch = st.epoch;
        st.active = true;
        st.exploring = false;
        st.aborting = false;
        st.stop = None;
        st.body_done = false;
        st.threads.clear();
        st.present.clear();
        st.current = 0;
        st.objs.clear();
        st.objs.push(Obj::default());
        st.events.clear();
        st.steps = 0;
        st.progress = 1;
        st.idle_rounds = 0;
        st.time_ns = 1_000_000_000;
        st.max_steps = cfg.max_steps;
        st.redundant = false;
        st.xor = 0;
        st.symmetry = cfg.symmetry;
        st.naive_bound = cfg.naive_bound;
        st.priority = cfg.priority.clone();
        st.turns = cfg.turns.clone();
        st.turn = 0;
        st.last_turn.clear();
        st.live_os = 0;
        st.trace_on = trace;
        st.trace.clear();
        add_thread(&mut st, 0, vec![], "main");
    }
    let out: Arc<RMutex<Option<BodyEnd>>> = Arc::new(RMutex::new(None));
    let out2 = out.clone();
    let b = body.clone();
    let h = ::std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let r = thread_main(epoch, 0, || {
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| b()));
                let e = match r {
                    Ok(Ok(s)) => BodyEnd::Ok(s),
                    Ok(Err(s)) => BodyEnd::Bad(s),
                    Err(p) => {
                        if p.is::<Abort>() {
                            return;
                        }
                        BodyEnd::Panic(payload(&p))
                    }
                };
                *out2.lock().unwrap() = Some(e);
            });
            drop(r);
        })
        .unwrap();
    // start thread 0
    let stop_reason;
    {
        let mut st = lk();
        pick(&mut st);
        let mut last = 0usize;
        let mut idle = 0u64;
        while st.stop.is_none() {
            let (g, to) = st.wait_timeout(&s.driver, RDuration::from_secs(1));
            st = g;
            if to && st.stop.is_none() {
                if st.total_steps == last {
                    idle += 1;
                    if idle >= cfg.stuck_secs {
                        let c = st.current;
                        let d = format!("thread {}:{} ran for {} s without reaching a synchronisation operation; {}", c, st.threads[c].name, idle, describe(&st));
                        st.stop = Some(Stop::Stuck(d));
                    }
                } else {
                    last = st.total_steps;
                    idle = 0;
                }
            }
        }
        stop_reason = st.stop.clone().unwrap();
    }
    let stuck = matches!(stop_reason, Stop::Stuck(_));
    let mut leaked = 0;
    if !stuck {
        let mut st = lk();
        leaked = st.live_os;
        st.aborting = true;
        for c in s.cv.iter() {
            c.notify_all();
        }
        let mut waited = 0;
        while st.live_os > 0 && waited < 20 {
            let (g, to) = st.wait_timeout(&s.driver, RDuration::from_secs(1));
            st = g;
            if to {
                waited += 1;
            }
        }
        st.active = false;
        drop(st);
        let _ = h.join();
    }
    let e = out.lock().unwrap().take();
    (stop_reason, e, leaked)
}

pub fn payload(p: &Box<dyn ::std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn schedule(st: &St) -> Vec<Tid> {
    st.events.iter().map(|e| e.tid).collect()
}

/// Explore all executions of `body`. The body returns Ok(outcome) or Err(what is wrong); a
/// deadlock, livelock or panic of the body is a violation.
pub fn explore<F>(cfg: &Config, body: F) -> Report
where
    F: Fn() -> Result<String, String> + Send + Sync + 'static,
{
    let body = Arc::new(body);
    let mut rep = Report { name: cfg.name.clone(), ..Default::default() };
    let mut outcomes: HashMap<String, u64> = HashMap::new();
    {
        let mut st = lk();
        st.stack.clear();
        st.prefix = 0;
        st.seen.clear();
        st.transitions = 0;
        st.tid_of.clear();
        st.next_tid = 1;
    }
    loop {
        let (stop, end, leaked) = run_once(cfg, &body, false);
        rep.executions += 1;
        if stop == Stop::Done {
            rep.leaked += leaked as u64;
        }
        let mut st = lk();
        if st.redundant {
            rep.redundant += 1;
        }
        rep.max_depth = rep.max_depth.max(st.events.len());
        let bad = match (&stop, end) {
            (Stop::Done, Some(BodyEnd::Ok(s))) => {
                *outcomes.entry(s).or_insert(0) += 1;
                None
            }
            (Stop::Done, Some(BodyEnd::Bad(s))) => Some(s),
            (Stop::Done, Some(BodyEnd::Panic(s))) => Some(format!("panic reached the caller: {}", s)),
            (Stop::Done, None) => Some("no result".to_string()),
            (Stop::Deadlock(d), _) => Some(format!("hang: {}", d)),
            (Stop::Livelock(d), _) => Some(format!("livelock: {}", d)),
            (Stop::Stuck(d), _) => Some(format!("stuck: {}", d)),
            (Stop::Engine(d), _) => {
                rep.engine_error = Some(d.clone());
                None
            }
        };
        if rep.engine_error.is_some() {
            break;
        }
        if let Some(b) = bad {
            let sch = schedule(&st);
            drop(st);
            rep.violation = Some((b, sch, vec![]));
            break;
        }
        if !cfg.explore {
            break;
        }
        // next schedule
        let bound = cfg.naive_bound;
        let mut found = false;
        while let Some(top) = st.stack.last_mut() {
            top.done |= 1 << top.chosen;
            let mut cand = top.backtrack & !top.done & !top.sleep;
            if let Some(b) = bound {
                // cost of the prefix in preemptions
                let d = st.stack.len() - 1;
                let mut cost = 0;
                for k in 1..d {
                    let prev = st.stack[k - 1].chosen;
                    if st.stack[k].chosen != prev && st.stack[k].enabled >> prev & 1 == 1 {
                        cost += 1;
                    }
                }
                if d > 0 {
                    let prev = st.stack[d - 1].chosen;
                    if st.stack[d].enabled >> prev & 1 == 1 && cost + 1 > b {
                        cand &= 1 << prev;
                    }
                }
            }
            let top = st.stack.last_mut().unwrap();
            if cand != 0 {
                top.chosen = cand.trailing_zeros() as usize;
                found = true;
                break;
            }
            st.stack.pop();
        }
        if !found {
            break;
        }
        st.prefix = st.stack.len();
        if rep.executions >= cfg.max_executions || rep.executions >= 20 && cfg.deadline.is_some_and(|d| ::std::time::Instant::now() > d) {
            rep.capped = true;
            break;
        }
    }
    let st = lk();
    rep.states = st.seen.len() as u64;
    rep.transitions = st.transitions;
    drop(st);
    let mut o: Vec<(String, u64)> = outcomes.into_iter().collect();
    o.sort();
    rep.outcomes = o;
    if let Some((msg, sch, _)) = rep.violation.take() {
        let stuck = msg.starts_with("stuck:");
        let trace = if stuck { vec![] } else { replay(cfg, &body, &sch).1 };
        rep.violation = Some((msg, sch, trace));
    }
    rep
}

/// Run the body once under a recorded schedule; returns the result and a readable trace.
pub fn replay<F>(cfg: &Config, body: &Arc<F>, sch: &[Tid]) -> (String, Vec<String>)
where
    F: Fn() -> Result<String, String> + Send + Sync + 'static,
{
    {
        let mut st = lk();
        st.stack.clear();
        st.prefix = 0;
        st.forced = Some(sch.to_vec());
    }
    let (stop, end, _) = run_once(cfg, body, true);
    let mut st = lk();
    st.forced = None;
    let trace = ::std::mem::take(&mut st.trace);
    let msg = match (stop, end) {
        (Stop::Done, Some(BodyEnd::Ok(s))) => format!("ok: {}", s),
        (Stop::Done, Some(BodyEnd::Bad(s))) => s,
        (Stop::Done, Some(BodyEnd::Panic(s))) => format!("panic reached the caller: {}", s),
        (Stop::Deadlock(d), _) => format!("hang: {}", d),
        (Stop::Livelock(d), _) => format!("livelock: {}", d),
        (Stop::Stuck(d), _) => format!("stuck: {}", d),
        (s, _) => format!("{:?}", s),
    };
    (msg, trace)
}
