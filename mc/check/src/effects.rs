//! C10 (sequential writers), C20, C22, C23: what the operating system answers, and what is left behind.
use crate::conv;
use crate::dump;
use crate::files;
use crate::inputs::KINDS;
use crate::io::{self, Act, Op};
use crate::par::{self, scenario, Call, Mode};
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| format!("panicked: {}", payload(&p)))
}

/// `n` elements, nodes then ways then relations, with texts
fn mixed(n: usize) -> Vec<El> {
    (0..n)
        .map(|i| {
            let mut e = El::of(KINDS[i * 3 / n], 5 + i as i64).tag("k", &format!("value {}", i)).tag("name", "tab\there");
            e.uid = (i % 3) as i32;
            e.user = format!("user {}", i % 3);
            e.cs = 40 + (i % 3) as i64;
            e
        })
        .collect()
}

// --------------------------------------------------------------------------------------------
// C10

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// this call only
    Once(i32),
    /// this one and all later ones
    Lasting(i32),
    /// part of the data, then failures
    Torn(i32),
    /// nothing is taken, without an error
    Nothing,
}

pub fn plan(op: Op, at: u64, f: Fault, fired: Arc<AtomicUsize>) -> io::Plan {
    Box::new(move |o, n, _| {
        if o != op {
            return Act::Go;
        }
        let hit = |a: Act| {
            fired.fetch_add(1, Ordering::SeqCst);
            a
        };
        match f {
            Fault::Once(e) if n == at => hit(Act::Fail(e)),
            Fault::Lasting(e) if n >= at => hit(Act::Fail(e)),
            Fault::Torn(_) if n == at => Act::Short(3),
            Fault::Torn(e) if n > at => hit(Act::Fail(e)),
            Fault::Nothing if n == at => hit(Act::Short(0)),
            _ => Act::Go,
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum After {
    /// the caller goes on and closes
    Continue,
    /// the caller gives up at the first error
    Stop,
    /// the caller goes straight to close
    Close,
}

fn drive(after: After, n: usize, mut step: impl FnMut(usize) -> Result<(), String>, close: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    drive_with(after, n, &mut step, close)
}

fn drive_with(after: After, n: usize, step: &mut dyn FnMut(usize) -> Result<(), String>, close: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    let mut first = None;
    for i in 0..n {
        if let Err(e) = step(i) {
            first.get_or_insert(e);
            match after {
                After::Continue => {}
                After::Stop => return Err(first.unwrap()),
                After::Close => break,
            }
        }
    }
    if let Err(e) = close() {
        first.get_or_insert(e);
    }
    match first {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// A fault at one call of a run; `run` reports the first error, `check` looks at the files if there was none.
fn faulty(ctx: &mut Ctx, key: &str, op: Op, at: u64, f: Fault, run: impl FnOnce() -> Result<(), String>, check: impl FnOnce() -> Result<(), String>) {
    ctx.case(key, || {
        let fired = Arc::new(AtomicUsize::new(0));
        io::set_plan(Some(plan(op, at, f, fired.clone())));
        let r = caught(run);
        io::set_plan(None);
        let hit = fired.load(Ordering::SeqCst);
        match r {
            Err(p) => Out::Bad(p),
            Ok(Err(e)) => Out::Ok { nontrivial: hit > 0, what: e.chars().take(60).collect() },
            Ok(Ok(())) if hit > 0 => Out::Bad("every call succeeded although writing failed".into()),
            Ok(Ok(())) => match check() {
                Ok(()) => Out::Ok { nontrivial: hit > 0, what: "no call was hit".into() },
                Err(e) => Out::Bad(format!("every call succeeded, but {}", e)),
            },
        }
    });
}

fn seq_faults(ctx: &mut Ctx, s: &Scratch) {
    let p = s.file("o.osm.pbf");
    let p = &p;
    let big: Vec<El> = (1..=16_001).map(El::node).collect();
    let histories: Vec<(&str, Vec<Call>)> = vec![
        ("nothing", vec![]),
        ("one node", vec![Call::One(El::node(1))]),
        ("all kinds one by one", mixed(6).into_iter().map(Call::One).collect()),
        ("all kinds in a list", vec![Call::Many(mixed(6))]),
        ("list then single", vec![Call::Many(mixed(5)), Call::One(El::rel(900))]),
        ("three blocks in a list", vec![Call::Many(big.clone())]),
        ("three blocks one by one", big.iter().cloned().map(Call::One).collect()),
        ("two lists", vec![Call::Many(big[..8000].to_vec()), Call::Many(big[8000..].to_vec())]),
        ("a block, then ways", vec![Call::Many(big[..8000].to_vec()), Call::One(El::way(1)), Call::Many(vec![El::way(2), El::rel(1)])]),
    ];
    for (name, cs) in &histories {
        let els = par::elements_of(cs);
        let large = els.len() > 1000;
        let mut seen = 0;
        for z in [false, true] {
            let n = cs.len();
            let run = |after: After| {
                let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), seq::compression(z)).map_err(|e| format!("creation: {:#}", e))?;
                let w = std::cell::RefCell::new(&mut w);
                drive(
                    after,
                    n + 1,
                    |i| {
                        let mut w = w.borrow_mut();
                        if i == 0 {
                            return w.write_header().map_err(|e| format!("header: {:#}", e));
                        }
                        let (mut v, single) = par::make(&cs[i - 1]);
                        if single {
                            w.write_element(v.pop().unwrap()).map_err(|e| format!("{:#}", e))
                        } else {
                            w.write_elements(v).map_err(|e| format!("{:#}", e))
                        }
                    },
                    || w.borrow_mut().close().map_err(|e| format!("close: {:#}", e)),
                )
            };
            let check = || par::check_output(p, &els.iter().map(quantised).collect::<Vec<_>>(), 8000).map(|_| ());
            for e in [io::EIO, io::ENOSPC, io::EMFILE] {
                for after in [After::Continue, After::Stop] {
                    faulty(ctx, &format!("writer: create fails with {} {} {:?} {}", e, name, after, seq_z(z)), Op::Create, 0, Fault::Once(e), || run(after), check);
                }
            }
            for at in 0..18 {
                for f in [Fault::Once(io::EIO), Fault::Lasting(io::ENOSPC), Fault::Torn(io::ENOSPC), Fault::Nothing] {
                    for after in [After::Continue, After::Stop, After::Close] {
                        if large && z && after != After::Continue {
                            continue;
                        }
                        seen += 1;
                        faulty(ctx, &format!("writer: write {} {:?} {} {:?} {}", at, f, name, after, seq_z(z)), Op::Write, at, f, || run(after), check);
                    }
                }
            }
        }
        let _ = seen;
    }
    for place in ["missing directory", "directory"] {
        ctx.case(&format!("writer: {}", place), || {
            let q = if place == "directory" { s.path().to_path_buf() } else { s.file("none").join("x.pbf") };
            match caught(|| seq::write(&q, &[(true, vec![El::node(1)])], false)) {
                Err(e) => Out::Bad(e),
                Ok(Ok(())) => Out::Bad("every call succeeded although nothing can be written".into()),
                Ok(Err(_)) => ok(true),
            }
        });
    }
}

fn seq_z(z: bool) -> &'static str {
    if z {
        "zlib"
    } else {
        "raw"
    }
}

/// histories of any length around the one whose last row does not fit in a table's buffer any more
fn last_rows(ctx: &mut Ctx, s: &Scratch) {
    let d = s.file("dump");
    let d = &d;
    for n in 100..=230i64 {
        let els: Vec<El> = (0..3 * n)
            .map(|i| {
                let mut e = El::of(KINDS[(i / n) as usize], 1_000_000_000_000_000 + i % n);
                e.tags = vec![("key".into(), "value of the tag".repeat(2))];
                // rows of changesets of any length
                e.cs = 10i64.pow(3 + (n % 12) as u32) + i % n;
                match e.kind {
                    Kind::Node => {}
                    Kind::Way => e.refs = vec![4_000_000_000_000_000_001],
                    Kind::Relation => e.members = vec![(Kind::Way, 4_000_000_000_000_000_003, "the role of the member".into())],
                }
                e
            })
            .collect();
        let els = &els;
        let run = || {
            let _ = std::fs::remove_dir_all(d);
            let mut w = DumpWriter::new(d.clone(), 0).map_err(|e| format!("creation: {:#}", e))?;
            let w = std::cell::RefCell::new(&mut w);
            drive(After::Continue, els.len(), |i| w.borrow_mut().write_element(conv::to(&els[i])).map_err(|e| format!("write: {:#}", e)), || w.borrow_mut().close().map_err(|e| format!("close: {:#}", e)))
        };
        let check = || {
            let mut x = copy::parse_dump(d)?;
            dump::normalise(&mut x);
            dump::conforms(&x, els)
        };
        for at in 0..30 {
            faulty(ctx, &format!("dump writer: {} of each kind, write {} fails", n, at), Op::Write, at, Fault::Once(io::EIO), run, check);
        }
    }
}

fn dump_faults(ctx: &mut Ctx, s: &Scratch) {
    let d = s.file("dump");
    let d = &d;
    let long = |n: usize| -> Vec<El> {
        mixed(n)
            .into_iter()
            .map(|mut e| {
                e.tags = vec![("k".into(), "x".repeat(300))];
                e
            })
            .collect()
    };
    for (name, els) in [("nothing", vec![]), ("all kinds", mixed(9)), ("more than the buffers hold", long(180)), ("tables longer than the buffers", {
        // every table of elements, of either generation, has to be written in several pieces
        let mut v = mixed(660);
        for (i, e) in v.iter_mut().enumerate() {
            e.tags = vec![("key".into(), "v".repeat(30))];
            e.user = format!("the name of user {:08}", i % 60);
            e.uid = (i % 60) as i32;
            e.cs = 1_000_000 + i as i64 % 200;
            match e.kind {
                Kind::Node => {}
                Kind::Way => e.refs = vec![1_000_000_001, 1_000_000_002],
                Kind::Relation => e.members = vec![(Kind::Way, 1_000_000_003, "outer".into()), (Kind::Node, 1_000_000_001, "label".into())],
            }
        }
        v
    }), ("texts longer than the buffers", {
        let mut v = mixed(6);
        for e in &mut v {
            e.tags = vec![("k".into(), "y".repeat(20_000))];
        }
        v
    })] {
        let els = &els;
        let run = |after: After| {
            let _ = std::fs::remove_dir_all(d);
            let mut w = DumpWriter::new(d.clone(), 0).map_err(|e| format!("creation: {:#}", e))?;
            let w = std::cell::RefCell::new(&mut w);
            drive(after, els.len(), |i| w.borrow_mut().write_element(conv::to(&els[i])).map_err(|e| format!("write: {:#}", e)), || w.borrow_mut().close().map_err(|e| format!("close: {:#}", e)))
        };
        let check = || {
            let mut x = copy::parse_dump(d)?;
            dump::normalise(&mut x);
            dump::conforms(&x, els)
        };
        for at in 0..60 {
            for f in [Fault::Once(io::EMFILE), Fault::Lasting(io::EIO)] {
                for after in [After::Continue, After::Stop] {
                    faulty(ctx, &format!("dump writer: create {} {:?} {} {:?}", at, f, name, after), Op::Create, at, f, || run(after), check);
                }
            }
        }
        for at in 0..90 {
            for f in [Fault::Once(io::EIO), Fault::Once(io::ENOSPC), Fault::Lasting(io::ENOSPC), Fault::Torn(io::ENOSPC), Fault::Nothing] {
                for after in [After::Continue, After::Stop, After::Close] {
                    faulty(ctx, &format!("dump writer: write {} {:?} {} {:?}", at, f, name, after), Op::Write, at, f, || run(after), check);
                }
            }
        }
        for at in 0..3 {
            for e in [io::EIO, io::ENOSPC] {
                faulty(ctx, &format!("dump writer: directory {} fails with {} {}", at, e, name), Op::Other, at, Fault::Lasting(e), || run(After::Continue), check);
            }
        }
        for (what, make) in [("a file in place of the directory", 0), ("a directory in place of a table", 1), ("a directory in place of the table of contents", 2), ("a file above the directory", 3)] {
            ctx.case(&format!("dump writer: {} {}", what, name), || {
                let _ = std::fs::remove_dir_all(d);
                let _ = std::fs::remove_file(d);
                let mut q = d.clone();
                match make {
                    0 => std::fs::write(d, b"x").unwrap(),
                    1 => std::fs::create_dir_all(d.join("4292.dat")).unwrap(),
                    2 => std::fs::create_dir_all(d.join("toc.dat")).unwrap(),
                    _ => {
                        std::fs::write(d, b"x").unwrap();
                        q = d.join("below");
                    }
                }
                let r = caught(|| dump::write(&q, els));
                let _ = std::fs::remove_file(d);
                let _ = std::fs::remove_dir_all(d);
                match r {
                    Err(e) => Out::Bad(e),
                    Ok(Ok(())) => Out::Bad("every call succeeded although nothing can be written".into()),
                    Ok(Err(_)) => ok(true),
                }
            });
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    let s = Scratch::new();
    seq_faults(ctx, &s);
    dump_faults(ctx, &s);
    last_rows(ctx, &s);
    crate::write_par::c10_par(ctx);
}

// --------------------------------------------------------------------------------------------
// C20

type Job = Arc<dyn Fn() -> Result<Vec<u8>, String> + Send + Sync>;

/// the files of a dump, without the times at which it was written
fn dump_bytes(d: &Path) -> Result<Vec<u8>, String> {
    let x = copy::parse_dump(d)?;
    let mut out = std::fs::read(d.join("toc.dat")).map_err(|e| e.to_string())?;
    for (name, t) in x {
        out.extend_from_slice(format!("{} {}\n", name, t.file).as_bytes());
        let clock: Vec<usize> = ["created_at", "closed_at", "creation_time"].iter().filter_map(|c| t.col(c).ok()).collect();
        for mut r in t.rows {
            for i in &clock {
                r[*i] = None;
            }
            out.extend_from_slice(format!("{:?}\n", r).as_bytes());
        }
    }
    let mut names: Vec<String> = std::fs::read_dir(d).map_err(|e| e.to_string())?.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    names.sort();
    out.extend_from_slice(names.join(" ").as_bytes());
    Ok(out)
}

fn jobs(s: &Arc<Scratch>) -> Vec<(&'static str, bool, Job)> {
    let mut v: Vec<(&'static str, bool, Job)> = vec![];
    // writers
    for z in [false, true] {
        let p = s.file(if z { "wz.pbf" } else { "wr.pbf" });
        v.push((
            if z { "writer zlib" } else { "writer raw" },
            false,
            Arc::new(move || {
                let _ = std::fs::remove_file(&p);
                seq::write(&p, &[(true, mixed(9)), (false, (1..40).map(|i| El::rel(1000 + i)).collect())], z)?;
                std::fs::read(&p).map_err(|e| e.to_string())
            }),
        ));
    }
    let p = s.file("wp.pbf");
    v.push((
        "parallel writer",
        true,
        Arc::new(move || {
            let _ = std::fs::remove_file(&p);
            let mut w = par::open_writer(&p, 2, 3, true)?;
            par::apply(&mut w, &Call::Many(mixed(6)))?;
            par::apply(&mut w, &Call::One(El::rel(900)))?;
            w.close().map_err(|e| format!("close: {:#}", e))?;
            std::fs::read(&p).map_err(|e| e.to_string())
        }),
    ));
    let d = s.file("dw");
    v.push((
        "dump writer",
        false,
        Arc::new(move || {
            let _ = std::fs::remove_dir_all(&d);
            dump::write(&d, &mixed(120))?;
            dump_bytes(&d)
        }),
    ));
    // readers
    let inputs: Vec<(&'static str, PathBuf)> = vec![
        ("small", s.write("in1.pbf", &files::file("nn|w,r|n"))),
        ("large", s.write("in2.pbf", &files::file(&format!("{}|{}|{}", "n".repeat(300), "w".repeat(200), "r".repeat(200))))),
    ];
    for (name, p) in inputs {
        let small = name == "small";
        let q = p.clone();
        v.push((
            if small { "reader small" } else { "reader large" },
            false,
            Arc::new(move || {
                let r = Reader::new(&q).map_err(|e| format!("{:#}", e))?;
                Ok(format!("{:?} {:?}", r.info(), seq::read(&q)?).into_bytes())
            }),
        ));
        let q = p.clone();
        v.push((
            if small { "parallel iteration small" } else { "parallel iteration large" },
            true,
            Arc::new(move || {
                num_cpus::set(2);
                let r = Reader::new(&q).map_err(|e| format!("{:#}", e))?;
                let seen = Arc::new(Mutex::new(vec![]));
                let s2 = seen.clone();
                r.parallel_for_each(2, move |e| {
                    s2.lock().unwrap().push(conv::from(&e));
                    Ok(())
                })
                .map_err(|e| format!("{:#}", e))?;
                let mut x: Vec<String> = seen.lock().unwrap().iter().map(|e| format!("{:?}", e)).collect();
                x.sort();
                Ok(x.join("\n").into_bytes())
            }),
        ));
        let q = p.clone();
        v.push((
            if small { "counting small" } else { "counting large" },
            true,
            Arc::new(move || {
                num_cpus::set(2);
                let r = Reader::new(&q).map_err(|e| format!("{:#}", e))?;
                Ok(format!("{:?}", r.count_objects().map_err(|e| format!("{:#}", e))?).into_bytes())
            }),
        ));
        let q = p.clone();
        v.push((
            if small { "bounding box small" } else { "bounding box large" },
            true,
            Arc::new(move || {
                num_cpus::set(2);
                Ok(format!("{:?}", BoundingBoxCalculator::new(&q).calc().map_err(|e| format!("{:#}", e))?).into_bytes())
            }),
        ));
    }
    for (name, n) in [("dump reader small", 9), ("dump reader large", 200)] {
        let (d, t) = (s.file(&format!("dr{}", n)), s.file(&format!("drt{}", n)));
        copy::write_dump(&d, &copy::rows_of(&mixed(n)), &Layout::plain());
        v.push((
            name,
            false,
            Arc::new(move || {
                let _ = std::fs::remove_dir_all(&t);
                num_cpus::set(1);
                let r = dump::read(&d, &t);
                num_cpus::set(2);
                Ok(format!("{:?}", r?).into_bytes())
            }),
        ));
    }
    v
}

fn same_result(ctx: &mut Ctx, key: &str, job: &Job, parallel: bool, want: &Arc<Result<Vec<u8>, String>>, mk: impl Fn() -> io::Plan + Send + Sync + 'static) {
    let (job, want) = (job.clone(), want.clone());
    let go = move || -> Result<String, String> {
        io::set_plan(Some(mk()));
        let r = caught(|| job());
        io::set_plan(None);
        let got = r?.map_err(|e| format!("failed: {}", e))?;
        let want = want.as_ref().as_ref().map_err(|e| format!("fails without any deviation: {}", e))?;
        if got != *want {
            let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("another result: {} instead of {} bytes, first difference at {}: {:?}", got.len(), want.len(), i, String::from_utf8_lossy(&got[i..(i + 200).min(got.len())])));
        }
        Ok("same".into())
    };
    if parallel {
        scenario(ctx, key, Mode::One, 1, move |begin| {
            begin();
            go()
        });
    } else {
        ctx.case(key, || match go() {
            Ok(w) => Out::Ok { nontrivial: true, what: w },
            Err(e) => Out::Bad(e),
        });
    }
}

fn base(job: &Job, parallel: bool) -> (Arc<Result<Vec<u8>, String>>, [u64; 6]) {
    let out = Arc::new(Mutex::new((Err("not run".to_string()), [0u64; 6])));
    let (j, o) = (job.clone(), out.clone());
    let go = move || {
        io::set_plan(Some(Box::new(|_, _, _| Act::Go)));
        let r = caught(|| j()).and_then(|x| x);
        let c = io::counts();
        io::set_plan(None);
        *o.lock().unwrap() = (r, c);
    };
    if parallel {
        let mut cfg = vstd::sched::Config::new("base");
        cfg.explore = false;
        cfg.max_steps = 3_000_000;
        vstd::sched::explore(&cfg, move || {
            go();
            Ok::<String, String>(String::new())
        });
    } else {
        go();
    }
    let g = out.lock().unwrap().clone();
    (Arc::new(g.0), g.1)
}

pub fn c20(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    let deep = ctx.thorough();
    for (name, parallel, job) in jobs(&s) {
        let (want, counts) = base(&job, parallel);
        if let Err(e) = want.as_ref() {
            ctx.case(&format!("{} undisturbed", name), || Out::Bad(e.clone()));
            continue;
        }
        let ops = [Op::Open, Op::Create, Op::Read, Op::Write];
        // one call
        for op in ops {
            let acts: &[Act] = if op == Op::Read || op == Op::Write { &[Act::Fail(io::EINTR), Act::Short(1), Act::Short(2), Act::Short(3), Act::Short(7), Act::Short(100)] } else { &[Act::Fail(io::EINTR)] };
            let n = counts[op as usize];
            let limit = if deep { 3000 } else { 400 };
            for at in 0..n.min(limit) {
                for act in acts {
                    let act = *act;
                    same_result(ctx, &format!("{} {:?} {} {:?}", name, op, at, act), &job, parallel, &want, move || Box::new(move |o, k, _| if o == op && k == at { act } else { Act::Go }));
                }
                // interrupted again and again
                for times in [2, 5, 20] {
                    same_result(ctx, &format!("{} {:?} {} interrupted {} times", name, op, at, times), &job, parallel, &want, move || Box::new(move |o, k, _| if o == op && (at..at + times).contains(&k) { Act::Fail(io::EINTR) } else { Act::Go }));
                }
            }
            // two calls
            let n2 = n.min(if deep { 120 } else { 25 });
            for a in 0..n2 {
                for b in a + 1..n2 {
                    for (x, y) in [(0, 0), (1, 1), (0, 1), (1, 0)] {
                        if acts.len() == 1 && (x, y) != (0, 0) {
                            continue;
                        }
                        let (x, y) = (acts[x], acts[y]);
                        same_result(ctx, &format!("{} {:?} {} {:?} {} {:?}", name, op, a, x, b, y), &job, parallel, &want, move || {
                            Box::new(move |o, k, _| {
                                if o == op && k == a {
                                    x
                                } else if o == op && k == b {
                                    y
                                } else {
                                    Act::Go
                                }
                            })
                        });
                    }
                }
            }
        }
        // all calls
        for k in [1usize, 2, 3, 4, 5, 7, 8, 16, 17, 64, 1000, 4096, 8191] {
            for which in 0..3u8 {
                same_result(ctx, &format!("{} all short {} which {}", name, k, which), &job, parallel, &want, move || Box::new(move |o, _, _| if o == Op::Read && which != 1 || o == Op::Write && which != 0 { Act::Short(k) } else { Act::Go }));
            }
        }
        for m in 2..6u64 {
            for r in 0..m {
                for k in [0usize, 1, 6] {
                    same_result(ctx, &format!("{} every call but {} of {} interrupted, short {}", name, r, m, k), &job, parallel, &want, move || {
                        Box::new(move |o, n, _| {
                            if o == Op::Other || o == Op::Seek {
                                // creating a directory, seeking and looking at attributes are not interrupted
                                Act::Go
                            } else if n % m != r {
                                Act::Fail(io::EINTR)
                            } else if k > 0 {
                                Act::Short(k)
                            } else {
                                Act::Go
                            }
                        })
                    });
                }
            }
        }
    }
}

// --------------------------------------------------------------------------------------------
// C22

type Snapshot = BTreeMap<String, (u64, u64, u32, std::time::SystemTime, u64)>;

fn snapshot(d: &Path) -> Snapshot {
    use std::os::unix::fs::MetadataExt;
    fn walk(d: &Path, out: &mut Snapshot) {
        let m = std::fs::symlink_metadata(d).unwrap();
        let h = if m.is_file() { par::fnv(&std::fs::read(d).unwrap()) } else { 0 };
        out.insert(d.display().to_string(), (m.ino(), m.len(), m.mode(), m.modified().unwrap(), h));
        if m.is_dir() {
            for e in std::fs::read_dir(d).unwrap() {
                walk(&e.unwrap().path(), out);
            }
        }
    }
    let mut s = Snapshot::new();
    walk(d, &mut s);
    s
}

/// runs the operation and compares the input; writing is allowed below `tmp` only
fn untouched(input: &Path, tmp: Option<&Path>, f: impl FnOnce() -> Result<(), String>) -> Out {
    let before = snapshot(input);
    io::watch();
    let r = caught(f);
    let w = io::watched();
    let after = snapshot(input);
    if before != after {
        let k = before.keys().chain(after.keys()).find(|k| before.get(*k) != after.get(*k)).cloned().unwrap_or_default();
        return Out::Bad(format!("{} has changed", k.rsplit('/').next().unwrap_or("")));
    }
    for p in &w {
        let inside = tmp.is_some_and(|t| Path::new(p).starts_with(t)) || p.contains("/status-") || p == "/dev/null";
        if !inside && p.starts_with('/') {
            return Out::Bad(format!("wrote to {}", p));
        }
    }
    match r.and_then(|x| x) {
        Ok(()) => ok(true),
        Err(e) => Out::Bad(e),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Look {
    Open,
    All,
    Few,
    Two,
    Blocks,
    Parallel,
    ParallelFails,
    ParallelPanics,
    Count,
    Bbox,
}

const LOOKS: [Look; 10] = [Look::Open, Look::All, Look::Few, Look::Two, Look::Blocks, Look::Parallel, Look::ParallelFails, Look::ParallelPanics, Look::Count, Look::Bbox];

/// The result of an operation, "failed" where the file is damaged
fn look(p: &PathBuf, l: Look) -> String {
    let r = caught(|| -> Result<String, anyhow::Error> {
        let r = Reader::new(p)?;
        Ok(match l {
            Look::Open => format!("{:?}", r.info()),
            Look::All => format!("{:?}", r.elements()?.map(|e| conv::from(&e)).collect::<Vec<_>>()),
            Look::Few => format!("{:?}", r.elements()?.take(2).map(|e| conv::from(&e)).collect::<Vec<_>>()),
            Look::Two => {
                let (mut a, mut b) = (r.elements()?, r.elements()?);
                format!("{:?} {:?} {:?}", a.next().map(|e| conv::from(&e)), b.next().map(|e| conv::from(&e)), a.next().map(|e| conv::from(&e)))
            }
            Look::Blocks => format!("{}", r.blocks()?.count()),
            Look::Parallel | Look::ParallelFails | Look::ParallelPanics => {
                let seen = Arc::new(Mutex::new(vec![]));
                let s2 = seen.clone();
                let r = r.parallel_for_each(2, move |e| {
                    if conv::from(&e).is_some_and(|x| x.id == 2) {
                        match l {
                            Look::ParallelFails => return Err(anyhow::anyhow!("asked for")),
                            Look::ParallelPanics => panic!("asked for"),
                            _ => {}
                        }
                    }
                    s2.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{:?}", conv::from(&e)));
                    Ok(())
                });
                let mut v = seen.lock().unwrap_or_else(|e| e.into_inner()).clone();
                v.sort();
                match r {
                    Ok(()) => format!("{:?}", v),
                    Err(_) => "failed".into(),
                }
            }
            Look::Count => format!("{:?}", r.count_objects()?),
            Look::Bbox => format!("{:?}", BoundingBoxCalculator::new(p).calc()?),
        })
    });
    match r {
        Ok(Ok(s)) => s,
        _ => "failed".into(),
    }
}

pub fn c22(ctx: &mut Ctx) {
    let s = Scratch::new();
    num_cpus::set(2);
    let mut inputs: Vec<(&str, Vec<u8>)> = vec![("whole", files::file("nn|w,r|n")), ("empty", files::file(""))];
    let cut = files::file("nn|w,r|n");
    inputs.push(("cut", cut[..cut.len() - 9].to_vec()));
    inputs.push(("garbage", b"this is not a file of that format at all".to_vec()));
    for (name, bytes) in &inputs {
        let d = s.file(&format!("in-{}", name));
        std::fs::create_dir_all(&d).unwrap();
        let p = d.join("x.osm.pbf");
        std::fs::write(&p, bytes).unwrap();
        let first: Vec<String> = LOOKS.iter().map(|l| look(&p, *l)).collect();
        let depth = if ctx.thorough() { 4 } else { 3 };
        for len in 1..=depth {
            for code in 0..LOOKS.len().pow(len) {
                let seq: Vec<usize> = (0..len).map(|i| code / LOOKS.len().pow(i) % LOOKS.len()).collect();
                ctx.case(&format!("{} {:?}", name, seq.iter().map(|i| LOOKS[*i]).collect::<Vec<_>>()), || {
                    untouched(&d, None, || {
                        for i in &seq {
                            let r = look(&p, LOOKS[*i]);
                            if r != first[*i] {
                                return Err(format!("{:?} gives another result than the first time", LOOKS[*i]));
                            }
                        }
                        Ok(())
                    })
                });
            }
        }
    }
    // dumps: complete, abandoned, repeated, over one or several temporary directories
    for (name, els) in [("dump", mixed(9)), ("empty dump", vec![])] {
        for written in [false, true] {
            let d = s.file(&format!("{} {}", name, written));
            if written {
                dump::write(&d, &els).unwrap();
            } else {
                copy::write_dump(&d, &copy::rows_of(&els), &Layout::plain());
            }
            // digits: elements taken by each of up to three iterations, 4 opens again
            let depth = if ctx.thorough() { 4 } else { 3u32 };
            for code in 0..5usize.pow(depth) {
                for exists in [false, true] {
                    ctx.case(&format!("{} written {} reading {} existing directory {}", name, written, code, exists), || {
                        let t = s.file("tmp").join("a").join("b");
                        let _ = std::fs::remove_dir_all(s.file("tmp"));
                        if exists {
                            std::fs::create_dir_all(&t).unwrap();
                        }
                        untouched(&d, Some(&s.file("tmp")), || {
                            let mut r = dump::open(&d, &t)?;
                            for i in 0..depth {
                                match code / 5usize.pow(i) % 5 {
                                    0 => dump::same(&els, &dump::drain(r.elements().map_err(|e| format!("{:#}", e))?)?)?,
                                    4 => r = dump::open(&d, &t)?,
                                    k => {
                                        r.elements().map_err(|e| format!("{:#}", e))?.take(4 * k).count();
                                    }
                                }
                            }
                            Ok(())
                        })
                    });
                }
            }
        }
    }
    // damaged dumps
    let d0 = s.file("whole dump");
    copy::write_dump(&d0, &copy::rows_of(&mixed(6)), &Layout::plain());
    let mut names: Vec<String> = std::fs::read_dir(&d0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    names.sort();
    for n in &names {
        for how in ["missing", "empty", "cut", "garbage"] {
            ctx.case(&format!("dump with {} {}", n, how), || {
                let d = s.file("damaged dump");
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(&d).unwrap();
                for m in &names {
                    std::fs::copy(d0.join(m), d.join(m)).unwrap();
                }
                let b = std::fs::read(d.join(n)).unwrap();
                match how {
                    "missing" => std::fs::remove_file(d.join(n)).unwrap(),
                    "empty" => std::fs::write(d.join(n), b"").unwrap(),
                    "cut" => std::fs::write(d.join(n), &b[..b.len() / 2]).unwrap(),
                    _ => std::fs::write(d.join(n), b"\xff\xfe\tx\n").unwrap(),
                }
                let t = s.file("tmp");
                let _ = std::fs::remove_dir_all(&t);
                untouched(&d, Some(&t), || {
                    let _ = caught(|| dump::read(&d, &t));
                    Ok(())
                })
            });
        }
    }
}

// --------------------------------------------------------------------------------------------
// C23

/// Reading has to fail, or to give everything.
fn visible(d: &Path, t: &Path, els: &[El]) -> Out {
    let _ = std::fs::remove_dir_all(t);
    match caught(|| dump::read(d, t)) {
        Err(_) => Out::Ok { nontrivial: true, what: "fails".into() },
        Ok(Err(_)) => Out::Ok { nontrivial: true, what: "fails".into() },
        Ok(Ok(got)) => match dump::same(els, &got) {
            Ok(()) => Out::Ok { nontrivial: false, what: "everything is read".into() },
            Err(e) => Out::Bad(format!("reading succeeds with another result: {}", e)),
        },
    }
}

pub fn c23(ctx: &mut Ctx) {
    let s = Scratch::new();
    ctx.set_timeout(20);
    num_cpus::set(1);
    let t = s.file("tmp");
    let sets: Vec<(&str, Vec<El>)> = vec![("all kinds", mixed(6)), ("nodes", mixed(6)[..2].to_vec()), ("many", mixed(150))];
    for (name, els) in &sets {
        let d0 = s.file(&format!("d {}", name));
        copy::write_dump(&d0, &copy::rows_of(els), &Layout::plain());
        // failing calls
        let t2 = t.clone();
        let d1 = d0.clone();
        let job: Job = Arc::new(move || {
            let _ = std::fs::remove_dir_all(&t2);
            Ok(format!("{:?}", dump::read(&d1, &t2)?).into_bytes())
        });
        let (_, counts) = base(&job, false);
        // (a file that cannot be created within the sorting library makes its thread panic
        // and the library wait for it for ever, which is no result either)
        for op in [Op::Open, Op::Read, Op::Write, Op::Other, Op::Seek] {
            for at in 0..counts[op as usize] {
                for f in [Fault::Once(io::EIO), Fault::Lasting(io::EIO), Fault::Torn(io::ENOSPC)] {
                    if f == Fault::Torn(io::ENOSPC) && op != Op::Read && op != Op::Write {
                        continue;
                    }
                    ctx.case(&format!("{}: {:?} {} {:?}", name, op, at, f), || {
                        let _ = std::fs::remove_dir_all(&t);
                        let fired = Arc::new(AtomicUsize::new(0));
                        io::set_plan(Some(plan(op, at, f, fired.clone())));
                        let r = caught(|| dump::read(&d0, &t));
                        io::set_plan(None);
                        match r {
                            Err(_) | Ok(Err(_)) => ok(true),
                            Ok(Ok(got)) => match dump::same(els, &got) {
                                Ok(()) => ok(false),
                                Err(e) => Out::Bad(format!("reading succeeds although a call failed: {}", e)),
                            },
                        }
                    });
                }
            }
        }
        // files cut at any byte, removed, with a broken row
        let mut names: Vec<String> = std::fs::read_dir(&d0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        names.sort();
        let d = s.file("damaged");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        for m in &names {
            std::fs::copy(d0.join(m), d.join(m)).unwrap();
        }
        for n in &names {
            let b = std::fs::read(d0.join(n)).unwrap();
            let mut change = |ctx: &mut Ctx, key: String, new: Option<Vec<u8>>| {
                if !ctx.mine() {
                    ctx.case(&key, || ok(true));
                    return;
                }
                match new {
                    Some(x) => std::fs::write(d.join(n), x).unwrap(),
                    None => std::fs::remove_file(d.join(n)).unwrap(),
                }
                ctx.case(&key, || visible(&d, &t, els));
                std::fs::write(d.join(n), &b).unwrap();
            };
            let n = n.as_str();
            change(ctx, format!("{}: {} is missing", name, n), None);
            let step = if *name == "many" { 97 } else { 1 };
            if n == "toc.dat" {
                continue;
            }
            for cut in (0..b.len()).step_by(step) {
                change(ctx, format!("{}: {} cut at {}", name, n, cut), Some(b[..cut].to_vec()));
            }
            if *name == "many" {
                continue;
            }
            for i in 0..b.len() {
                let mut x = b.clone();
                x.insert(i, 0xff);
                change(ctx, format!("{}: {} with a byte of no text at {}", name, n, i), Some(x));
                if b[i] == b'\t' {
                    let mut x = b.clone();
                    x.remove(i);
                    change(ctx, format!("{}: {} without the separator at {}", name, n, i), Some(x));
                }
            }
        }
    }
}
