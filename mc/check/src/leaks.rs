//! C32: whatever an operation comes to, it leaves no threads and no open files behind.
use crate::conv;
use crate::dump;
use crate::effects::{caught, plan, Fault};
use crate::files;
use crate::memory::orders_of;
use crate::io::{self, Op};
use crate::par::{self, scenario, Mode, Order};
use crate::reuse::data;
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use vstd::sched;

/// files below `base` that this process has open
fn open_files(base: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|x| std::fs::read_link(x.ok()?.path()).ok()).filter(|p| p.starts_with(base)).map(|p| p.strip_prefix(base).unwrap().display().to_string()).collect();
    v.sort();
    v
}

/// Nothing of an operation is left. Whatever is left stays: the threads cannot go on.
fn nothing_left(base: &Path) -> Result<(), String> {
    let n = sched::others();
    if n > 0 {
        return Err(format!("{} threads are left", n));
    }
    closed(base)
}

fn closed(base: &Path) -> Result<(), String> {
    let mut v = open_files(base);
    // a thread that has ended may still be giving back what it holds
    for _ in 0..200 {
        if v.is_empty() {
            return Ok(());
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        v = open_files(base);
    }
    Err(format!("files are left open: {:?}", v))
}

fn short<T>(r: Result<Result<T, anyhow::Error>, String>) -> String {
    let s = match r {
        Err(p) => p,
        Ok(Err(e)) => format!("error: {:#}", e),
        Ok(Ok(_)) => "done".into(),
    };
    s.chars().take(50).collect()
}

type Action = Arc<dyn Fn(&Path) -> Result<(), anyhow::Error> + Send + Sync>;

fn act(f: impl Fn(&Path) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Action {
    Arc::new(f)
}

/// Ways of reading a PBF file
fn readings() -> Vec<(String, Action)> {
    let mut v: Vec<(String, Action)> = vec![
        ("opening".into(), act(|p| Reader::new(p).map(|_| ()))),
        ("opening twice".into(), act(|p| {
            let r = Reader::new(p)?;
            let _ = Reader::new(p)?;
            r.clone().elements()?.next();
            Ok(())
        })),
        ("counting".into(), act(|p| Reader::new(p)?.count_objects().map(|_| ()))),
        ("bounding box".into(), act(|p| BoundingBoxCalculator::new(p).calc().map(|_| ()))),
    ];
    for n in [0usize, 1, 2, 100] {
        v.push((format!("{} elements", n), act(move |p| {
            Reader::new(p)?.elements()?.take(n).count();
            Ok(())
        })));
        v.push((format!("{} blocks", n), act(move |p| {
            Reader::new(p)?.blocks()?.take(n).count();
            Ok(())
        })));
    }
    for tasks in [1usize, 2, 3] {
        v.push((format!("parallel, {} tasks", tasks), act(move |p| Reader::new(p)?.parallel_for_each(tasks, |_| Ok(())))));
        for (what, panics) in [("fails", false), ("panics", true)] {
            for at in [0usize, 1, 3] {
                v.push((format!("parallel, {} tasks, call {} {}", tasks, at, what), act(move |p| {
                    let n = AtomicUsize::new(0);
                    Reader::new(p)?.parallel_for_each(tasks, move |_| match n.fetch_add(1, Ordering::SeqCst) == at {
                        false => Ok(()),
                        true if panics => panic!("callback"),
                        true => Err(anyhow::anyhow!("callback")),
                    })
                })));
            }
        }
    }
    v
}

/// Ways of writing one: how far it goes before the writer is dropped
fn writings() -> Vec<(String, Action)> {
    let mut v: Vec<(String, Action)> = vec![];
    for parallel in [false, true] {
        for list in [false, true] {
            for stage in 0..5 {
                for (buf, block) in [(0usize, 1usize), (5, 2), (100, 8000)] {
                    if !parallel && buf > 0 {
                        continue;
                    }
                    v.push((format!("{} writer, lists {}, up to stage {}, {} {}", if parallel { "parallel" } else { "sequential" }, list, stage, buf, block), act(move |p| {
                        let els = par::sorted(data('a'));
                        if parallel {
                            let mut w = ParallelWriter::from_file_info(buf, block, p.to_path_buf(), FileInfo::default(), seq::compression(list))?;
                            if stage > 0 {
                                w.write_header()?;
                            }
                            if stage > 1 {
                                // half of them, or all
                                let n = if stage == 2 { els.len() / 2 } else { els.len() };
                                if list {
                                    w.write_elements(conv::all(&els[..n]))?;
                                } else {
                                    for e in &els[..n] {
                                        w.write_element(conv::to(e))?;
                                    }
                                }
                            }
                            if stage > 3 {
                                w.close()?;
                            }
                        } else {
                            let mut w = Writer::from_file_info(p.to_path_buf(), FileInfo::default(), seq::compression(list))?;
                            if stage > 0 {
                                w.write_header()?;
                            }
                            if stage > 1 {
                                let n = if stage == 2 { els.len() / 2 } else { els.len() };
                                if list {
                                    w.write_elements(conv::all(&els[..n]))?;
                                } else {
                                    for e in &els[..n] {
                                        w.write_element(conv::to(e))?;
                                    }
                                }
                            }
                            if stage > 3 {
                                w.close()?;
                            }
                        }
                        Ok(())
                    })));
                }
            }
        }
    }
    v
}

/// An action after which nothing may be left, undisturbed or with a fault; whoever comes first:
/// by default, the caller, and the threads it starts
fn leaves_nothing(ctx: &mut Ctx, s: &Arc<Scratch>, key: &str, p: PathBuf, a: Action, fault: Option<(Op, u64, Fault)>) {
    let orders = [("", vec![]), (", the caller first", (0..20).collect()), (", the caller last", (1..20).rev().chain([0]).collect())];
    for (n, priority) in orders {
        let (s, p, a) = (s.clone(), p.clone(), a.clone());
        par::ordered(ctx, &format!("{}{}", key, n), Mode::One, 1, Order { priority, turns: vec![] }, move |_| {
            num_cpus::set(3);
            if let Some((op, at, f)) = fault {
                io::set_plan(Some(plan(op, at, f, Arc::new(AtomicUsize::new(0)))));
            }
            let r = caught(|| a(&p));
            let running = sched::left();
            // the threads still meet the fault
            let n = sched::others();
            io::set_plan(None);
            if n > 0 {
                return Err(format!("{} threads are left, {}", n, short(r)));
            }
            if running > 0 {
                return Err(format!("{} threads are still running, {}", running, short(r)));
            }
            nothing_left(&s.path()).map_err(|e| format!("{}, {}", e, short(r)))?;
            Ok("nothing is left".into())
        });
    }
}

pub fn c32(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    // files of every kind, right and wrong, to read
    let mut inputs: Vec<(String, PathBuf)> = vec![];
    for l in ["n", "nn|w|r", "n|n|n|n|n|n|w", "w", "||"] {
        inputs.push((l.to_string(), s.write(&format!("in{}", inputs.len()), &files::file(l))));
    }
    inputs.push(("no file".into(), s.file("no such file")));
    inputs.push(("no directory".into(), s.file("none/none")));
    std::fs::create_dir_all(s.file("directory")).unwrap();
    inputs.push(("a directory".into(), s.file("directory")));
    inputs.push(("an empty file".into(), s.write("empty", b"")));
    inputs.push(("garbage".into(), s.write("garbage", &[0xffu8; 50])));
    let whole = files::file("nn|w|r");
    for at in 1..whole.len() {
        inputs.push((format!("cut at {}", at), s.write(&format!("cut{}", at), &whole[..at])));
    }
    for (k, d) in files::DAMAGE.iter().enumerate() {
        for at in 0..3 {
            inputs.push((format!("{} at {}", d, at), s.write(&format!("damaged{}-{}", k, at), &files::with_blob("nn|w|r", at, &files::damaged(k)))));
        }
    }
    for (n, p) in &inputs {
        for (what, a) in readings() {
            leaves_nothing(ctx, &s, &format!("{} of {:?}", what, n), p.clone(), a, None);
        }
    }
    // calls that fail while reading
    for (what, a) in readings() {
        for op in [Op::Open, Op::Read, Op::Seek] {
            for at in 0..24u64 {
                for f in [Fault::Once(io::EIO), Fault::Lasting(io::EMFILE)] {
                    leaves_nothing(ctx, &s, &format!("{}, {:?} {} {:?}", what, op, at, f), inputs[1].1.clone(), a.clone(), Some((op, at, f)));
                }
            }
        }
    }
    // writing
    std::fs::create_dir_all(s.file("read only")).unwrap();
    let outs = [("a file", s.file("o.osm.pbf")), ("a directory", s.file("directory")), ("below nothing", s.file("none/o.osm.pbf")), ("below a file", s.file("empty/o.osm.pbf"))];
    for (what, a) in writings() {
        for (n, p) in &outs {
            leaves_nothing(ctx, &s, &format!("{} to {}", what, n), p.clone(), a.clone(), None);
        }
        for op in [Op::Create, Op::Write] {
            for at in 0..12u64 {
                for f in [Fault::Once(io::ENOSPC), Fault::Lasting(io::EIO), Fault::Torn(io::EIO), Fault::Nothing] {
                    if op == Op::Create && (at > 0 || !matches!(f, Fault::Once(_) | Fault::Lasting(_))) {
                        continue;
                    }
                    leaves_nothing(ctx, &s, &format!("{}, {:?} {} {:?}", what, op, at, f), outs[0].1.clone(), a.clone(), Some((op, at, f)));
                }
            }
        }
    }
    dumps(ctx, &s);
    at_a_time(ctx, &s);
}

/// No more files are open at a time for many blocks or elements than for a few
fn at_a_time(ctx: &mut Ctx, s: &Arc<Scratch>) {
    for (short, long) in [("n|n|n|n|n|n|n|n", 200), ("nw|rr,n", 100)].map(|(l, n)| (l.replace("nw", "n,w"), n)) {
        let a = s.write(&format!("short{}", long), &files::file(&short));
        let b = s.write(&format!("long{}", long), &files::file(&vec![short.as_str(); long].join("|")));
        for (what, action) in readings() {
            // what is read in parallel comes next
            if what.starts_with("parallel") || what == "counting" || what == "bounding box" {
                continue;
            }
            let (a, b) = (a.clone(), b.clone());
            scenario(ctx, &format!("open at a time: {} of {} times {:?}", what, long, short), Mode::One, 1, move |_| {
                let (r, x) = io::peak_open(|| action(&a));
                r.map_err(|e| format!("{:#}", e))?;
                let (r, y) = io::peak_open(|| action(&b));
                r.map_err(|e| format!("{:#}", e))?;
                if y > x {
                    return Err(format!("{} files are open at a time, {} for a short one", y, x));
                }
                Ok(format!("{} files", y))
            });
        }
        for tasks in 1..=4usize {
            for order in orders_of(tasks) {
                for way in ["iteration", "count", "bounding box"] {
                    let b = b.clone();
                    par::ordered(ctx, &format!("open at a time: {} of {} times {:?} by {} tasks, {:?}", way, long, short, tasks, order), Mode::One, 1, order.clone(), move |_| {
                        num_cpus::set(tasks);
                        let (r, y) = io::peak_open(|| match way {
                            "iteration" => Reader::new(&b)?.parallel_for_each(tasks, |_| Ok(())),
                            "count" => Reader::new(&b)?.count_objects().map(|_| ()),
                            _ => BoundingBoxCalculator::new(&b).calc().map(|_| ()),
                        });
                        r.map_err(|e| format!("{:#}", e))?;
                        // the one that is looked through, and one per task
                        if y > tasks as i64 + 2 {
                            return Err(format!("{} files are open at a time for {} tasks", y, tasks));
                        }
                        Ok(format!("{} files", y))
                    });
                }
            }
        }
    }
    let d = s.file("growing");
    let t = s.file("growing tmp");
    let many = |n: i64| -> Vec<El> {
        let mut v = vec![];
        for k in crate::inputs::KINDS {
            for i in 0..n {
                v.push(dump::version(k, 1 + i, 1, 'f'));
                v.push(dump::version(k, 1 + i, 2, 'f'));
            }
        }
        v
    };
    for read in [false, true] {
        ctx.case(&format!("open at a time: dumps, reading {}", read), || {
            let at = |n: i64| -> Result<i64, String> {
                let _ = std::fs::remove_dir_all(&d);
                let _ = std::fs::remove_dir_all(&t);
                let (r, y) = io::peak_open(|| dump::write(&d, &many(n)));
                r?;
                if !read {
                    return Ok(y);
                }
                let r = dump::open(&d, &t)?;
                let (r, y) = io::peak_open(|| r.elements().map(|i| i.count()));
                r.map(|_| y).map_err(|e| format!("{:#}", e))
            };
            match at(3).and_then(|a| Ok((a, at(3000)?))) {
                Err(e) => Out::Bad(e),
                Ok((a, b)) if b > a => Out::Bad(format!("{} files are open at a time, {} for a short one", b, a)),
                Ok((a, _)) => Out::Ok { nontrivial: true, what: format!("{} files", a) },
            }
        });
    }
}

fn dumps(ctx: &mut Ctx, s: &Arc<Scratch>) {
    let d = s.file("dump");
    // written
    for stage in 0..3 {
        let a: Action = act(move |p| {
            let _ = std::fs::remove_dir_all(p);
            let mut w = DumpWriter::new(p.to_path_buf(), 0)?;
            for e in &data('a')[..[0, 5, 12][stage]] {
                w.write_element(conv::to(e))?;
            }
            if stage > 1 {
                w.close()?;
            }
            Ok(())
        });
        leaves_nothing(ctx, s, &format!("dump writer up to stage {}", stage), d.clone(), a.clone(), None);
        for op in [Op::Create, Op::Write] {
            for at in 0..64u64 {
                for f in [Fault::Once(io::ENOSPC), Fault::Lasting(io::EIO)] {
                    leaves_nothing(ctx, s, &format!("dump writer up to stage {}, {:?} {} {:?}", stage, op, at, f), d.clone(), a.clone(), Some((op, at, f)));
                }
            }
        }
    }
    // read
    let right = s.file("right");
    copy::write_dump(&right, &copy::rows_of(&data('a')), &Layout::plain());
    let mut names: Vec<_> = std::fs::read_dir(&right).unwrap().map(|x| x.unwrap().file_name()).collect();
    names.sort();
    let mut wrong: Vec<(String, Option<(std::ffi::OsString, &str)>)> = vec![("right".into(), None)];
    for n in &names {
        for how in ["missing", "empty", "cut", "garbage"] {
            wrong.push((format!("{:?} {}", n, how), Some((n.clone(), how))));
        }
    }
    for (what, damage) in wrong {
        for part in [0usize, 1, 3, 100] {
            let (s2, right) = (s.clone(), right.clone());
            let damage = damage.clone();
            let a = act(move |d| {
                let t = s2.file("tmp");
                let _ = std::fs::remove_dir_all(&t);
                let _ = std::fs::remove_dir_all(d);
                std::fs::create_dir_all(d).unwrap();
                for m in std::fs::read_dir(&right).unwrap() {
                    let m = m.unwrap();
                    std::fs::copy(m.path(), d.join(m.file_name())).unwrap();
                }
                if let Some((n, how)) = &damage {
                    let b = std::fs::read(d.join(n)).unwrap();
                    match *how {
                        "missing" => std::fs::remove_file(d.join(n)).unwrap(),
                        "empty" => std::fs::write(d.join(n), b"").unwrap(),
                        "cut" => std::fs::write(d.join(n), &b[..b.len() / 2]).unwrap(),
                        _ => std::fs::write(d.join(n), b"\xff\xfe\tx\n").unwrap(),
                    }
                }
                let r = dump::open(d, &t).map_err(|e| anyhow::anyhow!("{}", e))?;
                if part > 0 {
                    r.elements()?.take(part).count();
                }
                Ok(())
            });
            leaves_nothing(ctx, s, &format!("dump {}, {} elements", what, part), d.clone(), a, None);
        }
    }
}
