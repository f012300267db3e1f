//! Running scenarios under the controlled scheduler.
use crate::conv;
use oracle::driver::{Ctx, Out};
use oracle::model::{diff, El};
use oracle::pbf;
use oracle::scratch::Scratch;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use vstd::sched::{self, Config, Id};

static FILES: [Id; 64] = [const { Id::new() }; 64];

/// Every tracked file operation is a scheduling point on an object standing for the file.
pub fn file_point(slot: usize, write: bool) {
    let id = &FILES[slot % 64];
    // the end of an execution cannot unwind through the C function; the thread ends at its next point
    let _ = std::panic::catch_unwind(|| {
        if write {
            sched::op_store(id);
        } else {
            sched::op_load(id);
        }
        sched::progress();
    });
}

static LOG: Id = Id::new();

/// something happened that only the caller at the end observes
pub fn note() {
    sched::op_load(&LOG);
    sched::progress();
}
pub fn observe_notes() {
    sched::op_store(&LOG);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// every schedule
    All,
    /// the default schedule only
    One,
}

/// Run one scenario as a case.
pub fn scenario<F>(ctx: &mut Ctx, key: &str, mode: Mode, cap: u64, body: F)
where
    F: Fn(&mut dyn FnMut()) -> Result<String, String> + Send + Sync + 'static,
{
    ordered(ctx, key, mode, cap, Order::default(), body)
}

/// The one schedule of Mode::One
#[derive(Clone, Debug, Default)]
pub struct Order {
    /// the threads that go first whenever they can
    pub priority: Vec<usize>,
    /// the steps for which a thread goes on before the next one does
    pub turns: Vec<usize>,
}

pub fn ordered<F>(ctx: &mut Ctx, key: &str, mode: Mode, cap: u64, order: Order, body: F)
where
    F: Fn(&mut dyn FnMut()) -> Result<String, String> + Send + Sync + 'static,
{
    let mut st = (0u64, 0u64, 0u64, 0u64, false, None);
    let st2 = &mut st;
    let deadline = ctx.deadline();
    ctx.case(key, move || {
        let mut cfg = Config::new(key);
        cfg.explore = mode == Mode::All;
        cfg.max_executions = cap;
        cfg.deadline = deadline;
        if mode == Mode::One {
            cfg.max_steps = 30_000_000;
            cfg.priority = order.priority;
            cfg.turns = order.turns;
        }
        if let Ok(b) = std::env::var("MC_NAIVE") {
            cfg.naive_bound = b.parse().ok();
        }
        let t0 = std::time::Instant::now();
        let r = sched::explore(&cfg, move || {
            let r = body(&mut || sched::explore_begin());
            // a late effect of a thread that outlives the calls is part of the execution
            sched::quiesce();
            r
        });
        *st2 = (r.executions, r.states, r.transitions, r.max_depth as u64, r.capped, r.engine_error.clone());
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:.2} s {}: executions {} redundant {} states {} transitions {} depth {} capped {} leaked {} outcomes {:?}", t0.elapsed().as_secs_f64(), key, r.executions, r.redundant, r.states, r.transitions, r.max_depth, r.capped, r.leaked, r.outcomes.iter().map(|o| (o.0.chars().take(60).collect::<String>(), o.1)).take(10).collect::<Vec<_>>());
        }
        if let Some((m, sch, trace)) = r.violation {
            return Out::Bad(format!("{}\nafter {} executions, schedule {:?}\ntrace:\n{}", m, r.executions, sch, trace.join("\n")));
        }
        Out::Ok { nontrivial: true, what: format!("{} schedules, outcomes {:?}", r.executions, r.outcomes.iter().map(|o| o.0.chars().take(40).collect::<String>()).take(4).collect::<Vec<_>>()) }
    });
    ctx.add("schedules", st.0);
    ctx.add("states", st.1);
    ctx.add("transitions", st.2);
    ctx.add("max:longest_schedule", st.3);
    if mode == Mode::All && st.0 > 0 {
        ctx.add("scenarios_all_schedules", 1);
    }
    if st.4 {
        ctx.add("capped", 1);
    }
    if let Some(e) = st.5 {
        ctx.engine_error(&format!("{}: {}", key, e));
    }
}

#[derive(Clone, Debug)]
pub enum Call {
    One(El),
    Many(Vec<El>),
    Sentinel,
    /// list with a sentinel at the end
    ManyS(Vec<El>),
}

pub fn elements_of(calls: &[Call]) -> Vec<El> {
    calls
        .iter()
        .flat_map(|c| match c {
            Call::One(e) => vec![e.clone()],
            Call::Many(v) | Call::ManyS(v) => v.clone(),
            Call::Sentinel => vec![],
        })
        .collect()
}

pub fn sorted(mut v: Vec<El>) -> Vec<El> {
    v.sort_by_key(|e| e.key());
    v
}

pub fn open_writer(path: &Path, buf: usize, block: usize, z: bool) -> Result<ParallelWriter, String> {
    let mut w = ParallelWriter::from_file_info(buf, block, path.to_path_buf(), FileInfo::default(), if z { CompressionType::Zlib } else { CompressionType::Uncompressed })
        .map_err(|e| format!("creating the writer failed: {:#}", e))?;
    w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
    Ok(w)
}

pub fn make(c: &Call) -> (Vec<Element>, bool) {
    match c {
        Call::One(e) => (vec![conv::to(e)], true),
        Call::Many(v) => (conv::all(v), false),
        Call::Sentinel => (vec![Element::Sentinel], true),
        Call::ManyS(v) => {
            // sentinels anywhere in a list: in front, between the elements and behind them
            let mut x = vec![];
            for e in v {
                x.push(Element::Sentinel);
                x.push(conv::to(e));
            }
            x.push(Element::Sentinel);
            (x, false)
        }
    }
}

pub fn apply(w: &mut ParallelWriter, c: &Call) -> Result<(), String> {
    let (mut v, single) = make(c);
    if single {
        w.write_element(v.pop().unwrap()).map_err(|e| format!("{:#}", e))
    } else {
        w.write_elements(v).map_err(|e| format!("{:#}", e))
    }
}

/// The decoded file, strictly checked
pub fn decode(path: &Path) -> Result<(pbf::DFile, Vec<u8>), String> {
    let b = std::fs::read(path).map_err(|e| format!("output cannot be read: {}", e))?;
    let d = pbf::decode(&b).map_err(|e| format!("output is not a valid file: {}", e))?;
    Ok((d, b))
}

pub fn check_output(path: &Path, expected: &[El], block: usize) -> Result<Vec<u8>, String> {
    let (d, b) = decode(path)?;
    diff(expected, &d.elements())?;
    for (i, x) in d.blocks.iter().enumerate() {
        if x.elements.is_empty() {
            return Err(format!("block {} is empty", i + 1));
        }
        if x.elements.len() > block {
            return Err(format!("block {} holds {} elements, more than {}", i + 1, x.elements.len(), block));
        }
        if x.elements.iter().any(|e| e.kind != x.elements[0].kind) {
            return Err(format!("block {} mixes kinds", i + 1));
        }
    }
    Ok(b)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Remembers the bytes of the first execution of a scenario and compares the others with them.
#[derive(Default)]
pub struct Same(Mutex<Option<Vec<u8>>>);

impl Same {
    pub fn check(&self, b: Vec<u8>) -> Result<String, String> {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_ref() {
            None => {
                let h = fnv(&b);
                *g = Some(b);
                Ok(format!("{:016x}", h))
            }
            Some(a) if *a == b => Ok(format!("{:016x}", fnv(&b))),
            Some(a) => {
                let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                Err(format!("the bytes of the output depend on the schedule: {} and {} bytes, first difference at {}", a.len(), b.len(), i))
            }
        }
    }
}

pub fn out(s: &Scratch) -> PathBuf {
    s.file("out.osm.pbf")
}
