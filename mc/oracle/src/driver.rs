//! Case driver: shards the cases of a check over child processes, survives their crashes, hangs
//! and memory exhaustion, collects violations, and writes the evidence file.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

/// What a case says about itself.
pub enum Out {
    Ok { nontrivial: bool, what: String },
    Bad(String),
}

pub fn ok(nontrivial: bool) -> Out {
    Out::Ok { nontrivial, what: String::new() }
}

impl From<Result<(), String>> for Out {
    fn from(r: Result<(), String>) -> Out {
        match r {
            Ok(()) => ok(true),
            Err(e) => Out::Bad(e),
        }
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    shard: usize,
    shards: usize,
    only: Option<String>,
    idx: u64,
    seen: HashSet<u64>,
    distinct: u64,
    evals: u64,
    dup: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    bad: u64,
    id: &'static str,
    start: Instant,
    patience: Duration,
    stop: PathBuf,
    findings: Findings,
    status: std::fs::File,
    timeout: Duration,
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static LIMIT: AtomicU64 = AtomicU64::new(100);

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn payload(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// When the quick check has taken so long that the remaining scenarios are cut short, which the evidence then says.
    pub fn deadline(&self) -> Option<Instant> {
        (!self.thorough()).then(|| self.start + Duration::from_secs(600))
    }
    /// Seconds a single case may take before it counts as a hang.
    pub fn set_timeout(&mut self, secs: u64) {
        self.timeout = Duration::from_secs(secs);
        LIMIT.store(secs, Ordering::SeqCst);
    }
    /// Does this process have to run the next case? (for skipping expensive preparation)
    pub fn mine(&self) -> bool {
        self.only.is_some() || self.idx as usize % self.shards == self.shard
    }
    /// Run one case. `key` identifies it and must determine it.
    pub fn case(&mut self, key: &str, f: impl FnOnce() -> Out) {
        let i = self.idx;
        self.idx += 1;
        match &self.only {
            Some(o) => {
                if o != key {
                    return;
                }
            }
            None => {
                if i as usize % self.shards != self.shard {
                    return;
                }
            }
        }
        if !self.seen.insert(hash(key)) {
            self.dup += 1;
            return;
        }
        // once a violation is found the rest is only looked at for a while
        if self.start.elapsed() > self.patience && self.stop.exists() {
            *self.counters.entry("capped".into()).or_insert(0) += 1;
            return;
        }
        {
            use std::os::unix::fs::FileExt;
            let k = format!("{}\n", esc(key));
            let _ = self.status.write_all_at(k.as_bytes(), 0);
        }
        *CURRENT.lock().unwrap() = key.to_string();
        BEAT.fetch_add(1, Ordering::SeqCst);
        ACTIVE.store(true, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        ACTIVE.store(false, Ordering::SeqCst);
        BEAT.fetch_add(1, Ordering::SeqCst);
        self.evals += 1;
        let out = match r {
            Ok(o) => o,
            Err(p) => Out::Bad(format!("panic: {}", payload(&p))),
        };
        match out {
            Out::Ok { nontrivial, what } => {
                if nontrivial {
                    self.distinct += 1;
                }
                let n = self.evals;
                if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 {
                    let w = if what.is_empty() { "holds".to_string() } else { what };
                    self.samples.push(format!("{} -> {}", key, w));
                }
                if self.only.is_some() {
                    println!("N\tcase holds");
                }
            }
            Out::Bad(m) => {
                self.distinct += 1;
                self.bad += 1;
                if self.findings.find(self.id, key).is_none() {
                    let _ = std::fs::write(&self.stop, b"");
                }
                let m: String = m.chars().take(6000).collect();
                println!("V\t{}\t{}", esc(key), esc(&m));
            }
        }
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    /// The machinery itself failed: neither held nor violated.
    pub fn engine_error(&mut self, m: &str) {
        println!("X\t{}", esc(m));
    }
    fn finish(self) {
        for s in &self.samples {
            println!("S\t{}", esc(s));
        }
        for (k, v) in &self.counters {
            println!("C\t{}\t{}", k, v);
        }
        println!("E\t{}\t{}\t{}", self.evals, self.distinct, self.dup);
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Findings(Vec<(String, String, String)>);

impl Findings {
    /// lines: finding: property=<id> key='<case key>' <what fails>
    fn load() -> Findings {
        let mut v = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    if let Some((id, r)) = r.split_once(" key='") {
                        if let Some((k, w)) = r.split_once("' ") {
                            v.push((id.to_string(), k.to_string(), w.to_string()));
                        }
                    }
                }
            }
        }
        Findings(v)
    }
    fn find(&self, id: &str, key: &str) -> Option<&str> {
        self.0.iter().find(|(i, k, _)| i == id && k == key).map(|x| x.2.as_str())
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Entry point of a checker binary: `BIN ID [--case KEY]`; exit 0 held, 1 violated, 2 no answer.
pub fn main(checks: &[Check]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: {} ID [--case KEY | --shards N]; ids: {}", a[0], checks.iter().map(|c| c.id).collect::<Vec<_>>().join(" "));
        std::process::exit(2);
    }
    let c = match checks.iter().find(|c| c.id == a[1]) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {}", a[1]);
            std::process::exit(2);
        }
    };
    if a.get(2).map(|s| s.as_str()) == Some("--child") {
        child(c, &a);
    }
    parent(c, &a)
}

fn child(c: &Check, a: &[String]) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let shard: usize = a[3].parse().unwrap();
    let shards: usize = a[4].parse().unwrap();
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[5]).unwrap();
    let only = a.get(6).cloned();
    let mut ctx = Ctx {
        tier: tier(),
        seed: seed(),
        shard,
        shards,
        only,
        idx: 0,
        seen: HashSet::new(),
        distinct: 0,
        evals: 0,
        dup: 0,
        counters: BTreeMap::new(),
        samples: vec![],
        bad: 0,
        id: c.id,
        start: Instant::now(),
        patience: Duration::from_secs(if std::env::var("MC_FAILFAST").is_ok() { 0 } else { 20 }),
        stop: crate::scratch::root().join("violated"),
        findings: Findings::load(),
        status,
        timeout: Duration::from_secs(100),
    };
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last || !ACTIVE.load(Ordering::SeqCst) {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(LIMIT.load(Ordering::SeqCst)) {
                let k = CURRENT.lock().map(|g| g.clone()).unwrap_or_default();
                println!("V\t{}\thang: no end after {} s", esc(&k), LIMIT.load(Ordering::SeqCst));
                println!("E\t0\t0\t0");
                let _ = std::io::stdout().flush();
                unsafe { libc_exit(0) };
            }
        }
    });
    (c.run)(&mut ctx);
    ctx.finish();
    let _ = std::io::stdout().flush();
    unsafe { libc_exit(0) }
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn parent(c: &Check, a: &[String]) -> ! {
    let t0 = Instant::now();
    let only = match a.get(2).map(|s| s.as_str()) {
        Some("--case") => a.get(3).cloned(),
        _ => None,
    };
    let shards = if only.is_some() {
        1
    } else {
        match a.get(2).map(|s| s.as_str()) {
            Some("--shards") => a[3].parse().unwrap(),
            _ => std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16),
        }
    };
    let root = crate::scratch::root();
    std::fs::create_dir_all(&root).unwrap();
    let exe = std::env::current_exe().unwrap();
    struct R {
        v: Vec<(String, String)>,
        samples: Vec<String>,
        counters: BTreeMap<String, u64>,
        evals: u64,
        distinct: u64,
        dup: u64,
        err: Vec<String>,
    }
    let handles: Vec<_> = (0..shards)
        .map(|s| {
            let st = root.join(format!("status-{}", s));
            let mut cmd = Command::new(&exe);
            cmd.arg(c.id).arg("--child").arg(s.to_string()).arg(shards.to_string()).arg(&st);
            if let Some(o) = &only {
                cmd.arg(o);
            }
            cmd.env("MC_SCRATCH", &root).stdout(Stdio::piped()).stderr(if only.is_some() { Stdio::inherit() } else { Stdio::null() });
            unsafe {
                use std::os::unix::process::CommandExt;
                cmd.pre_exec(|| {
                    // 9 = RLIMIT_AS, 4 = RLIMIT_CORE
                    let lim = [6u64 << 30, 6u64 << 30];
                    setrlimit(9, &lim);
                    setrlimit(4, &[0, 0]);
                    Ok(())
                });
            }
            let id = c.id;
            std::thread::spawn(move || {
                let mut r = R { v: vec![], samples: vec![], counters: BTreeMap::new(), evals: 0, distinct: 0, dup: 0, err: vec![] };
                let mut ch = match cmd.spawn() {
                    Ok(c) => c,
                    Err(e) => {
                        r.err.push(format!("cannot start a child: {}", e));
                        return r;
                    }
                };
                let mut done = false;
                for l in BufReader::new(ch.stdout.take().unwrap()).lines() {
                    let l = match l {
                        Ok(l) => l,
                        Err(e) => {
                            r.err.push(format!("child output: {}", e));
                            break;
                        }
                    };
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "V" if f.len() == 3 => r.v.push((unesc(f[1]), unesc(f[2]))),
                        "S" => r.samples.push(unesc(f[1])),
                        "C" => *r.counters.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                        "X" => r.err.push(unesc(f[1])),
                        "N" => println!("{}: {}", id, f[1]),
                        "E" => {
                            r.evals = f[1].parse().unwrap();
                            r.distinct = f[2].parse().unwrap();
                            r.dup = f[3].parse().unwrap();
                            done = true;
                        }
                        _ => {}
                    }
                }
                let w = ch.wait();
                if !done {
                    let k = std::fs::read_to_string(&st).unwrap_or_default();
                    let k = unesc(k.lines().next().unwrap_or(""));
                    let how = match w {
                        Ok(s) => match s.signal() {
                            Some(n) => format!("signal {}", n),
                            None => format!("status {:?}", s.code()),
                        },
                        Err(e) => e.to_string(),
                    };
                    if k.is_empty() || how == "signal 9" {
                        r.err.push(format!("a child ended with {} before or while {:?}", how, k));
                    } else {
                        r.v.push((k, format!("the process died ({}): abort, stack overflow or memory exhaustion", how)));
                    }
                }
                r
            })
        })
        .collect();
    let mut v = vec![];
    let mut samples = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut distinct, mut dup) = (0, 0, 0);
    let mut err = vec![];
    for h in handles {
        let r = h.join().unwrap();
        v.extend(r.v);
        samples.extend(r.samples);
        for (k, n) in r.counters {
            if let Some(m) = k.strip_prefix("max:") {
                let e = counters.entry(m.to_string()).or_insert(0);
                *e = (*e).max(n);
            } else {
                *counters.entry(k).or_insert(0) += n;
            }
        }
        evals += r.evals;
        distinct += r.distinct;
        dup += r.dup;
        err.extend(r.err);
    }
    if std::env::var("MC_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&root);
    }
    let fnd = Findings::load();
    let mut news = vec![];
    let mut known = vec![];
    for (k, m) in &v {
        match fnd.find(c.id, k) {
            Some(w) => known.push((k.clone(), w.to_string())),
            None => news.push((k.clone(), m.clone())),
        }
    }
    for (k, w) in &known {
        println!("KNOWN-FINDING: property={} {} ({})", c.id, w, k);
    }
    let wall = t0.elapsed().as_secs_f64();
    let quick = tier() == Tier::Quick;
    if only.is_none() {
        samples.sort_by_key(|s| s.len());
        let samples: Vec<String> = samples.into_iter().take(12).collect();
        let mut cov: Vec<(String, String)> = vec![];
        let sj = format!("[{}]", samples.iter().map(|s| json(&s.chars().take(700).collect::<String>())).collect::<Vec<_>>().join(", "));
        cov.push(("evaluations".into(), evals.to_string()));
        cov.push(("distinct_nontrivial".into(), distinct.to_string()));
        cov.push(("rule".into(), json(c.rule)));
        cov.push(("samples".into(), sj));
        cov.push(("exhaustive".into(), (counters.get("capped").copied().unwrap_or(0) == 0 && err.is_empty()).to_string()));
        cov.push(("repeated_cases_skipped".into(), dup.to_string()));
        for (k, n) in &counters {
            cov.push((k.clone(), n.to_string()));
        }
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json(c.id),
            json(if quick { "quick" } else { "thorough" }),
            seed(),
            json(c.level),
            cov.iter().map(|(k, v)| format!("  {}: {}", json(k), v)).collect::<Vec<_>>().join(",\n"),
            c.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
            wall,
            news.len()
        );
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", c.id)), ev) {
            err.push(format!("evidence: {}", e));
        }
    }
    let mut summary = format!("{}: {} cases, {} distinct non-trivial", c.id, evals, distinct);
    for (k, n) in &counters {
        summary.push_str(&format!(", {} {}", n, k));
    }
    println!("{}, {:.1} s", summary, wall);
    if !news.is_empty() {
        news.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
        let path = write_replay(c.id, &news, &exe);
        println!("  first: {} -- {}", news[0].0, news[0].1.chars().take(1200).collect::<String>());
        println!("  {} violating cases in all", news.len());
        println!("VIOLATION property={} replay={}", c.id, path.display());
        std::process::exit(1);
    }
    if !err.is_empty() {
        for e in err.iter().take(5) {
            println!("ENGINE-ERROR {}: {}", c.id, e);
        }
        std::process::exit(2);
    }
    if evals == 0 {
        println!("ENGINE-ERROR {}: no case was run", c.id);
        std::process::exit(2);
    }
    std::process::exit(0);
}

fn write_replay(id: &str, news: &[(String, String)], exe: &Path) -> PathBuf {
    let dir = verif_dir().join("work").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.txt", id));
    let mut s = format!("property {}\n", id);
    for (k, m) in news.iter().take(25) {
        s.push_str(&format!("\ncase: {}\nreplay: {}/check.sh {} --case '{}'\n(binary: {})\n{}\n", k, verif_dir().display(), id, k.replace('\'', "'\\''"), exe.display(), m));
    }
    let _ = std::fs::write(&p, s);
    p
}
