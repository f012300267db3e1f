//! C28: memory in use, as the allocator sees it, for data of different lengths.
use crate::conv;
use crate::dump;
use crate::inputs::KINDS;
use crate::par::{self, Mode, Order};
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Header};
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::alloc::{GlobalAlloc, Layout as Mem, System};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

pub struct Counting;

fn more(n: isize) {
    // what the scheduler notes is not the program's
    if vstd::sched::inside() {
        return;
    }
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.fetch_max(now, Relaxed);
    }
}

fn less(n: isize) {
    if !vstd::sched::inside() {
        LIVE.fetch_sub(n, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Mem) -> *mut u8 {
        more(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Mem) {
        less(l.size() as isize);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Mem) -> *mut u8 {
        more(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Mem, n: usize) -> *mut u8 {
        more(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Memory in use at most, beyond what is in use now, while `f` runs
fn peak<T>(f: impl FnOnce() -> Result<T, String>) -> Result<isize, String> {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    f()?;
    Ok(PEAK.load(Relaxed) - before)
}

/// Memory for the longer data must not be more than for the shorter. What has a limit may take
/// long to reach it, then longer data shows that.
fn settles(sizes: &[usize], tolerance: impl Fn(isize) -> isize, mut at: impl FnMut(usize) -> Result<isize, String>) -> Result<String, String> {
    let mut short = at(sizes[0])?;
    let mut last = Ok(String::new());
    for n in &sizes[1..] {
        let long = at(*n)?;
        last = at_most(short + tolerance(short), short, long);
        if last.is_ok() {
            return last;
        }
        short = long;
    }
    last
}

fn little(short: isize) -> isize {
    short / 100 + 20_000
}

/// where the order of the threads has some influence
fn more_or_less(short: isize) -> isize {
    short / 8 + 100_000
}

fn at_most(most: isize, short: isize, long: isize) -> Result<String, String> {
    if long > most {
        return Err(format!("{} bytes are in use for the longer data, {} for the shorter", long, short));
    }
    Ok("no more for the longer data".into())
}

/// An element with much text, none of it common with others
fn heavy(kind: Kind, id: i64, bytes: usize) -> El {
    let mut e = El::of(kind, id);
    let mut x = (id as u64).wrapping_mul(0x9e3779b97f4a7c15) + 1;
    let mut t = String::with_capacity(bytes);
    while t.len() < bytes {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        t.push_str(&format!("{:016x}", x ^ x >> 29));
    }
    e.tags = vec![("k".into(), t)];
    e.uid = 1;
    e.cs = 1;
    e.user = "u".into();
    e
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    /// blocks of one kind
    Kind(Kind),
    /// nodes, ways and relations in turn
    Mixed,
    /// all nodes in one group of their own
    Plain,
    /// with a large blob of an unknown type before each block
    Unknown,
    /// no elements in the blocks but their number
    Empty,
}

const SHAPES: [Shape; 7] = [Shape::Kind(Kind::Node), Shape::Kind(Kind::Way), Shape::Kind(Kind::Relation), Shape::Mixed, Shape::Plain, Shape::Unknown, Shape::Empty];

/// `n` blocks of about 30 kB
fn file(shape: Shape, n: usize) -> Vec<u8> {
    let mut out = pbf::header_blob(&Header { required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into(), "HistoricalInformation".into()], ..Header::usual() });
    for i in 0..n as i64 {
        let kind = match shape {
            Shape::Kind(k) => k,
            Shape::Mixed => KINDS[i as usize % 3],
            _ => Kind::Node,
        };
        if shape == Shape::Unknown {
            out.extend(pbf::blob("Unknown", &vec![7; 100_000], None, false));
        }
        let v: Vec<El> = if shape == Shape::Empty { vec![] } else { (0..20).map(|j| heavy(kind, 1 + i * 20 + j, 1500)).collect() };
        let b = if shape == Shape::Plain { Block::of(v) } else { Block::dense(v) };
        out.extend(pbf::data_blob(&b));
    }
    out
}

/// Files of one shape: of a single block, short and long; and what it takes to read the first one
#[derive(Clone)]
struct Files {
    one: PathBuf,
    short: PathBuf,
    long: PathBuf,
    block: isize,
}

struct All {
    s: Scratch,
    long: usize,
    of: Mutex<Vec<(Shape, Files)>>,
}

impl All {
    fn files(&self, shape: Shape) -> Result<Files, String> {
        if let Some((_, f)) = self.of.lock().unwrap().iter().find(|x| x.0 == shape) {
            return Ok(f.clone());
        }
        let of = |n: usize| self.s.write(&format!("{:?} {}.osm.pbf", shape, n).replace(['(', ')'], "-"), &file(shape, n));
        let mut f = Files { one: of(if shape == Shape::Mixed { 3 } else { 1 }), short: of(12), long: of(self.long), block: 0 };
        f.block = peak(|| run(Way::Elements, &self.s, &f.one))?;
        self.of.lock().unwrap().push((shape, f.clone()));
        Ok(f)
    }
}

/// Each task may use what it takes to process a block
fn per_task(m: isize, tasks: usize, block: isize) -> Result<String, String> {
    if m > block * tasks as isize + block / 2 + 100_000 {
        return Err(format!("{} bytes are in use by {} tasks, {} are needed for one block", m, tasks, block));
    }
    Ok("at most one block per task".into())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Elements,
    Blocks,
    Copy,
    ToDump,
}

const WAYS: [Way; 4] = [Way::Elements, Way::Blocks, Way::Copy, Way::ToDump];

fn e<T>(what: &str, r: Result<T, anyhow::Error>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {:#}", what, e))
}

fn writer(p: &Path) -> Result<Writer, String> {
    let mut w = e("creating the writer", Writer::from_file_info(p.to_path_buf(), FileInfo::default(), seq::compression(false)))?;
    e("write_header", w.write_header())?;
    Ok(w)
}

fn run(way: Way, s: &Scratch, p: &Path) -> Result<(), String> {
    let r = e("opening", Reader::new(p))?;
    match way {
        Way::Elements => {
            e("elements", r.elements())?.count();
        }
        Way::Blocks => {
            e("blocks", r.blocks())?.count();
        }
        Way::Copy => {
            let mut w = writer(&s.file("copy.osm.pbf"))?;
            for b in e("blocks", r.blocks())?.skip(1) {
                e("write_file_block", w.write_file_block(b))?;
            }
            e("close", w.close())?;
        }
        Way::ToDump => {
            let d = s.file("dump");
            let _ = std::fs::remove_dir_all(&d);
            let mut w = e("creating the dump", DumpWriter::new(d, 0))?;
            for x in e("elements", r.elements())? {
                e("write_element", w.write_element(x))?;
            }
            e("close", w.close())?;
        }
    }
    Ok(())
}

fn judged(r: Result<String, String>) -> Out {
    match r {
        Ok(what) => Out::Ok { nontrivial: true, what },
        Err(m) => Out::Bad(m),
    }
}

fn in_parallel(p: &Path, tasks: usize) -> Result<(), String> {
    let r = e("opening", Reader::new(p))?;
    e("parallel iteration", r.parallel_for_each(tasks, |_| Ok(())))
}

pub fn c28(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    let all = Arc::new(All { s: Scratch::new(), long: if ctx.thorough() { 600 } else { 150 }, of: Mutex::new(vec![]) });
    // a file read in all ways
    for shape in SHAPES {
        for way in WAYS {
            ctx.case(&format!("{:?} of {:?}", way, shape), || {
                let r = all.files(shape).and_then(|f| {
                    settles(&[12, all.long, 4 * all.long, 16 * all.long], little, |n| {
                        let p = match n {
                            12 => f.short.clone(),
                            n if n == all.long => f.long.clone(),
                            n => s.write("longer.osm.pbf", &file(shape, n)),
                        };
                        peak(|| run(way, &s, &p))
                    })
                });
                judged(r)
            });
        }
        for tasks in 1..=4usize {
            for order in orders_of(tasks) {
                let all = all.clone();
                par::ordered(ctx, &format!("{:?} read by {} tasks, {:?}", shape, tasks, order), Mode::One, 1, order, move |_| {
                    let f = all.files(shape)?;
                    per_task(peak(|| in_parallel(&f.long, tasks))?, tasks, f.block)
                });
            }
        }
        for order in orders_of(2) {
            for bounds in [false, true] {
                let all = all.clone();
                let what = if bounds { "bounding box" } else { "count" };
                par::ordered(ctx, &format!("{} of {:?}, {:?}", what, shape, order), Mode::One, 1, order.clone(), move |_| {
                    let f = all.files(shape)?;
                    num_cpus::set(2);
                    let m = peak(|| {
                        if !bounds {
                            e("count_objects", e("opening", Reader::new(&f.long))?.count_objects())?;
                        } else {
                            let r = BoundingBoxCalculator::new(&f.long).calc();
                            if shape == Shape::Kind(Kind::Node) {
                                e("bounding box", r)?;
                            }
                        }
                        Ok(())
                    })?;
                    per_task(m, 2, f.block)
                });
            }
        }
    }
    // at most one block per task in all schedules
    for (tasks, blocks) in [(1usize, 2usize), (1, 3), (2, 3), (2, 4), (3, 4)] {
        if tasks + blocks > 6 && !ctx.thorough() {
            continue;
        }
        let all = all.clone();
        let s = s.clone();
        par::scenario(ctx, &format!("{} blocks read by {} tasks, all schedules", blocks, tasks), Mode::All, 2_000_000, move |begin| {
            let f = all.files(Shape::Kind(Kind::Way))?;
            let b = s.write("b.osm.pbf", &file(Shape::Kind(Kind::Way), blocks));
            begin();
            per_task(peak(|| in_parallel(&b, tasks))?, tasks, f.block)
        });
    }
    // the sequential writer
    for kind in KINDS {
        for list in [0usize, 1, 100, 16_000] {
            ctx.case(&format!("{:?} written in lists of {}", kind, list), || {
                let at = |n: usize| {
                        let n = n as i64;
                    peak(|| {
                        let mut w = writer(&s.file("out.osm.pbf"))?;
                        let mut v = vec![];
                        for i in 0..n {
                            let x = conv::to(&heavy(kind, i + 1, 200));
                            if list == 0 {
                                e("write_element", w.write_element(x))?;
                            } else {
                                v.push(x);
                                if v.len() == list {
                                    e("write_elements", w.write_elements(std::mem::take(&mut v)))?;
                                }
                            }
                        }
                        e("write_elements", w.write_elements(v))?;
                        e("close", w.close())
                    })
                };
                judged(settles(&[32_000, 64_000, 128_000, 256_000], little, at))
            });
        }
    }
    // the dump writer, many objects or many versions of one, all with much text
    for kind in KINDS {
        for versions in [1i64, 7, 100_000] {
            for deleted in [false, true] {
                ctx.case(&format!("dump of {:?}, {} versions each, deleted {}", kind, versions, deleted), || {
                    let at = |n: usize| {
                        let n = n as i64;
                        peak(|| {
                            let d = s.file("dump");
                            let _ = std::fs::remove_dir_all(&d);
                            let mut w = e("creating the dump", DumpWriter::new(d, 0))?;
                            for i in 0..n {
                                let mut x = heavy(kind, i / versions + 1, 300);
                                x.version = (i % versions) as i32 + 1;
                                x.visible = !(deleted && i % 2 == 1);
                                e("write_element", w.write_element(conv::to(&x)))?;
                            }
                            e("close", w.close())
                        })
                    };
                    judged(settles(&[2_000, 12_000, 48_000, 192_000], little, at))
                });
            }
        }
    }
    // the dump reader: iteration, the sorting before it being the work of another library
    for kind in KINDS {
        for versions in [1i64, 7] {
            ctx.case(&format!("reading a dump of {:?}, {} versions each", kind, versions), || {
                let at = |n: usize| {
                        let n = n as i64;
                    let (d, t) = (s.file("foreign"), s.file("tmp"));
                    let _ = std::fs::remove_dir_all(&d);
                    let _ = std::fs::remove_dir_all(&t);
                    let v: Vec<El> = (0..n)
                        .map(|i| {
                            let mut x = heavy(kind, i / versions + 1, 300);
                            x.version = (i % versions) as i32 + 1;
                            x
                        })
                        .collect();
                    copy::write_dump(&d, &copy::rows_of(&v), &Layout::plain());
                    drop(v);
                    let r = dump::open(&d, &t)?;
                    peak(|| {
                        let got = e("elements", r.elements())?.filter(|x| !x.is_sentinel()).count();
                        if got as i64 != n {
                            return Err(format!("{} elements of {}", got, n));
                        }
                        Ok(())
                    })
                };
                judged(settles(&[2_000, 12_000, 48_000, 192_000], little, at))
            });
        }
    }
    // the parallel writer: threads 1 (order), 2 to 5 (encoding), 6 (writing). A single encoder that waits
    // for ever with a block, while the others go on, is left out: blocks behind it have to be kept.
    // All of them, or all but one, do much or little in their turn.
    for fast in 0..64u32 {
        let steps = |bit: u32| if fast >> bit & 1 == 1 { 40 } else { 1 };
        let of_writer = [steps(1), steps(2), steps(3), steps(3), steps(4), steps(5)];
        if steps(2) < steps(3) && steps(4) > 1 {
            // the same with the encoders in another order
            continue;
        }
        let turns = [vec![steps(0)], of_writer.repeat(4)].concat();
        for list in [0usize, 1, 3] {
            for (buf, block) in [(1usize, 1usize), (6, 2)] {
                let s = s.clone();
                let order = Order { turns: turns.clone(), ..Order::default() };
                par::ordered(ctx, &format!("written in parallel, lists of {}, buffer {}, block {}, steps of threads {} {:?}", list, buf, block, steps(0), of_writer), Mode::One, 1, order, move |_| {
                    let at = |n: usize| {
                        peak(|| {
                            let mut w = par::open_writer(&s.file("out.osm.pbf"), buf, block, false)?;
                            let mut v = vec![];
                            for i in 0..n * list.max(block) {
                                let x = conv::to(&heavy(Kind::Way, i as i64 + 1, 1000));
                                if list == 0 {
                                    e("write_element", w.write_element(x))?;
                                } else {
                                    v.push(x);
                                    if v.len() == list {
                                        e("write_elements", w.write_elements(std::mem::take(&mut v)))?;
                                    }
                                }
                            }
                            e("close", w.close())
                        })
                    };
                    settles(&[2000, 3600, 7200, 14_400], more_or_less, at)
                });
            }
        }
    }
}

/// Orders of the caller and the tasks, rising or falling with the caller first or
/// last, or one of them slower or faster than the others
pub fn orders_of(tasks: usize) -> Vec<Order> {
    let up: Vec<usize> = (1..=tasks).collect();
    let down: Vec<usize> = (1..=tasks).rev().collect();
    let mut v = vec![Order::default()];
    for o in [up, down] {
        v.push(Order { priority: [vec![0], o.clone()].concat(), turns: vec![] });
        v.push(Order { priority: [o, vec![0]].concat(), turns: vec![] });
    }
    for (one, others) in [(1usize, 30usize), (30, 1)] {
        for i in 0..=tasks {
            let t: Vec<usize> = (0..=tasks).map(|j| if i == j { one } else { others }).collect();
            v.push(Order { priority: vec![], turns: t });
        }
    }
    v
}
