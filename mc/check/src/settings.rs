//! C31: numbers of threads and sizes of buffers, blocks and lists change layout and speed, never the contents.
use crate::conv;
use crate::dump;
use crate::effects::caught;
use crate::files;
use crate::inputs::KINDS;
use crate::par::{self, scenario, Mode};
use crate::reuse::data;
use crate::seq;
use oracle::copy;
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Header};
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use osm_io::osm::pbf::writer::Writer;
use std::path::Path;
use std::sync::{Arc, Mutex};

fn err(e: anyhow::Error) -> String {
    format!("error: {:#}", e).chars().take(60).collect()
}

/// What a call with unusual settings may do: succeed, which is judged, or say that it does not
fn or_refused<T>(r: Result<Result<T, anyhow::Error>, String>, judge: impl FnOnce(T) -> Result<(), String>) -> Result<String, String> {
    match r {
        Err(p) => Ok(p.chars().take(60).collect()),
        Ok(Err(e)) => Ok(err(e)),
        Ok(Ok(x)) => judge(x).map(|_| "as given".to_string()),
    }
}

fn name(n: usize) -> String {
    match n {
        usize::MAX => "the most".into(),
        n => n.to_string(),
    }
}

/// Reading in parallel delivers every element once and a sentinel per block, by `tasks` threads
fn iterate(p: &Path, want: &[El], blocks: usize, tasks: usize) -> Result<String, String> {
    let r = Reader::new(p).map_err(err)?;
    let seen = Arc::new(Mutex::new((vec![], 0usize)));
    let s2 = seen.clone();
    let x = caught(|| {
        r.parallel_for_each(tasks, move |e| {
            let mut g = s2.lock().unwrap();
            match conv::from(&e) {
                Some(e) => g.0.push(e),
                None => g.1 += 1,
            }
            Ok(())
        })
    });
    if tasks > 0 {
        x.works()?;
    }
    or_refused(x, |_| {
        let g = seen.lock().unwrap();
        diff(&par::sorted(want.to_vec()), &par::sorted(g.0.clone()))?;
        if g.1 != blocks {
            return Err(format!("{} sentinels for {} blocks", g.1, blocks));
        }
        Ok(())
    })
}

trait Works {
    fn works(&self) -> Result<(), String>;
}

impl<T> Works for Result<Result<T, anyhow::Error>, String> {
    /// settings that are in order have to work
    fn works(&self) -> Result<(), String> {
        match self {
            Err(p) => Err(p.clone()),
            Ok(Err(e)) => Err(format!("failed: {:#}", e)),
            Ok(Ok(_)) => Ok(()),
        }
    }
}

fn count(p: &Path, want: &[El], processors: usize) -> Result<(), String> {
    num_cpus::set(processors);
    let n = |k| want.iter().filter(|x| x.kind == k).count() as i64;
    let r = caught(|| Reader::new(p).and_then(|r| r.count_objects()));
    r.works()?;
    let got = r.unwrap().unwrap();
    if got != (n(Kind::Node), n(Kind::Way), n(Kind::Relation)) {
        return Err(format!("counted {:?}", got));
    }
    let (lats, lons): (Vec<i64>, Vec<i64>) = want.iter().filter(|x| x.kind == Kind::Node).map(|x| (x.lat, x.lon)).unzip();
    let r = caught(|| BoundingBoxCalculator::new(p).calc());
    match r {
        Ok(Err(_)) if lats.is_empty() => Ok(()),
        r => {
            r.works()?;
            let b = r.unwrap().unwrap();
            let deg = |n: i64| n as f64 / 1e9;
            let (a, z) = (lats.iter().min().unwrap(), lats.iter().max().unwrap());
            let (w, e) = (lons.iter().min().unwrap(), lons.iter().max().unwrap());
            for (what, want, got) in [("bottom", a, b.bottom()), ("top", z, b.top()), ("left", w, b.left()), ("right", e, b.right())] {
                if (deg(*want) - got).abs() > 1e-8 {
                    return Err(format!("{} is {} instead of {}", what, got, deg(*want)));
                }
            }
            Ok(())
        }
    }
}

/// how the elements are handed over: one by one, or in lists of this length
fn parallel(p: &Path, els: &[El], list: usize, buffer: usize, block: usize, z: bool) -> Result<Result<(), anyhow::Error>, String> {
    caught(|| {
        let mut w = ParallelWriter::from_file_info(buffer, block, p.to_path_buf(), FileInfo::default(), seq::compression(z))?;
        let mut r = w.write_header();
        if list == 0 {
            for e in els {
                r = r.and_then(|_| w.write_element(conv::to(e)));
            }
        } else {
            for e in els.chunks(list) {
                r = r.and_then(|_| w.write_elements(conv::all(e)));
            }
        }
        let c = w.close();
        r.and(c)
    })
}

fn mixed(n: &[usize; 3]) -> Vec<El> {
    let mut v = vec![];
    for k in KINDS {
        for i in 0..n[k as usize] {
            let mut e = El::of(k, 3 + 2 * i as i64).tag("k", &format!("v{}", i));
            if k == Kind::Node {
                e.lat = (i as i64 + 1) * -100_000_000;
                e.lon = (i as i64 % 5) * 300_000_000;
            }
            v.push(quantised(&e));
        }
    }
    v
}

pub fn c31(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    // threads that read
    let mut layouts: Vec<(String, Vec<pbf::Block>)> = ["", "n", "nn|w", "nnn|nn|w|r", "||n", "w|r|n,w,r"].iter().map(|l| (l.to_string(), if l.is_empty() { vec![] } else { files::blocks(l) })).collect();
    layouts.push(("3000 blocks".into(), files::blocks(&vec!["n"; 3000].join("|"))));
    for (n, b) in layouts {
        let f = s.write(&format!("in-{}.osm.pbf", n.replace(['|', ','], "-")), &pbf::file(&Header::usual(), &b));
        let b = Arc::new(b);
        for tasks in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 28, 55] {
            let (b1, f1) = (b.clone(), f.clone());
            scenario(ctx, &format!("{:?} read by {} tasks", n, tasks), Mode::One, 1, move |_| iterate(&f1, &files::elements(&b1), b1.len(), tasks));
            if (1..29).contains(&tasks) {
                let (b, f) = (b.clone(), f.clone());
                scenario(ctx, &format!("{:?} on {} processors", n, tasks), Mode::One, 1, move |_| count(&f, &files::elements(&b), tasks).map(|_| "as given".into()));
            }
        }
    }
    // the buffer and the blocks of the parallel writer
    let most = usize::MAX;
    for n in [[0usize, 0, 0], [1, 0, 0], [0, 1, 0], [3, 2, 1], [1, 2, 4], [2, 0, 3], [0, 5, 1]] {
        let els = mixed(&n);
        let k = els.len();
        let mut sizes: Vec<usize> = (0..=k + 2).collect();
        sizes.extend([1000, 8000, 1 << 20, 1 << 40, most / 100, most - 1, most]);
        for buffer in &sizes {
            for block in &sizes {
                for list in [0usize, 1, 2, 100] {
                    let (els, s, buffer, block) = (els.clone(), s.clone(), *buffer, *block);
                    scenario(ctx, &format!("{:?} written with a buffer of {} and blocks of {}, in lists of {}", n, name(buffer), name(block), list), Mode::One, 1, move |_| {
                        let p = s.file("o.osm.pbf");
                        let _ = std::fs::remove_file(&p);
                        let r = parallel(&p, &els, list, buffer, block, block % 2 == 0);
                        if block > 0 {
                            r.works()?;
                        }
                        or_refused(r, |_| par::check_output(&p, &els, block).map(|_| ()))
                    });
                }
            }
        }
    }
    // elements out of order: a buffer that takes them all is enough
    for perm in dump::permutations(4) {
        let els: Vec<El> = mixed(&[2, 1, 1]);
        for buffer in [0usize, 1, 2, 3, 4, 5, 1 << 40, most] {
            for block in [0usize, 1, 2, 3, 4, 5, 1 << 40, most] {
                for list in [0usize, 2, 4] {
                    let (els, perm, s) = (els.clone(), perm.clone(), s.clone());
                    scenario(ctx, &format!("order {:?} written with a buffer of {} and blocks of {}, in lists of {}", perm, name(buffer), name(block), list), Mode::One, 1, move |_| {
                        let p = s.file("o.osm.pbf");
                        let _ = std::fs::remove_file(&p);
                        let given: Vec<El> = perm.iter().map(|i| els[*i].clone()).collect();
                        let r = parallel(&p, &given, list, buffer, block, false);
                        if block > 0 && buffer >= 4 {
                            r.works()?;
                        }
                        or_refused(r, |_| par::check_output(&p, &els, block).map(|_| ()))
                    });
                }
            }
        }
    }
    // more elements, blocks and lists than the queues between the threads take
    for n in [1000usize, 2000] {
        for (buffer, block) in [(0usize, 1usize), (1, 1), (10, 7), (255, 1), (256, 1), (257, 1), (n - 1, 1), (n, 1), (n + 1, 3), (0, n), (n, n), (most, 1), (most, most)] {
            for list in [0usize, 1, n] {
                let s = s.clone();
                scenario(ctx, &format!("{} elements written with a buffer of {} and blocks of {}, in lists of {}", n, name(buffer), name(block), list), Mode::One, 1, move |_| {
                    let p = s.file("o.osm.pbf");
                    let _ = std::fs::remove_file(&p);
                    let els = mixed(&[n / 2, n / 4, n - n / 2 - n / 4]);
                    let r = parallel(&p, &els, list, buffer, block, false);
                    r.works()?;
                    par::check_output(&p, &els, block).map(|_| "as given".into())
                });
            }
        }
    }
    // lists of the sequential writers
    let els = Arc::new(par::sorted(data('a')));
    let p = s.file("q.osm.pbf");
    let d = s.file("dump");
    let t = s.file("tmp");
    for list in 0..=els.len() + 1 {
        for z in [false, true] {
            ctx.case(&format!("sequential writer, lists of {}, compressed {}", list, z), || {
                let r = caught(|| -> Result<(), anyhow::Error> {
                    let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), seq::compression(z))?;
                    w.write_header()?;
                    if list == 0 {
                        for e in els.iter() {
                            w.write_element(conv::to(e))?;
                        }
                    } else {
                        for e in els.chunks(list) {
                            w.write_elements(conv::all(e))?;
                        }
                    }
                    w.close()
                });
                match r.works().and_then(|_| par::check_output(&p, &els, 8000)) {
                    Ok(_) => good("as given"),
                    Err(e) => Out::Bad(e),
                }
            });
        }
    }
    // the accumulator
    for capacity in [0usize, 1, 2, 3, 7, 1000, most / 2, most] {
        for lists in words(4, 3) {
            ctx.case(&format!("accumulator of {}, taken after {:?}", name(capacity), lists), || match std::thread::scope(|t| t.spawn(|| accumulate(capacity, &lists)).join().unwrap()) {
                Ok(x) => good(&x),
                Err(e) => Out::Bad(e),
            });
        }
    }
    // compression of dumps
    for level in i8::MIN..=i8::MAX {
        ctx.case(&format!("dump with compression level {}", level), || {
            let _ = std::fs::remove_dir_all(&d);
            let _ = std::fs::remove_dir_all(&t);
            let r = caught(|| {
                let mut w = DumpWriter::new(d.clone(), level)?;
                for e in els.iter() {
                    w.write_element(conv::to(e))?;
                }
                w.close()
            });
            let r = or_refused(r, |_| {
                let mut x = copy::parse_dump(&d)?;
                dump::normalise(&mut x);
                dump::current(&x, &els)?;
                dump::conforms(&x, &els)?;
                dump::same(&els, &dump::read(&d, &t)?)
            });
            match r {
                Ok(x) => good(&x),
                Err(e) => Out::Bad(e),
            }
        });
    }
}

/// all words of up to `n` numbers below `m`
fn words(n: usize, m: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w: &Vec<usize>| (0..=m).map(move |x| w.iter().cloned().chain([x]).collect())).collect();
        all.extend(last.clone());
    }
    all
}

/// Lists of these lengths, each taken after its elements were added, to two accumulators in turn
fn accumulate(capacity: usize, lists: &[usize]) -> Result<String, String> {
    let r = caught(|| {
        let acc = [ThreadLocalAccumulator::new(capacity), ThreadLocalAccumulator::new(capacity)];
        let mut id = 0;
        let mut want: [Vec<El>; 2] = Default::default();
        for (i, n) in lists.iter().enumerate() {
            for _ in 0..*n {
                for a in 0..2 {
                    id += 1;
                    let e = El::of(KINDS[id as usize % 3], id);
                    want[a].push(e.clone());
                    acc[a].add(conv::to(&e));
                }
            }
            let a = i % 2;
            let got: Vec<El> = acc[a].elements().iter().filter_map(conv::from).collect();
            diff(&std::mem::take(&mut want[a]), &got)?;
        }
        for a in 0..2 {
            let got: Vec<El> = acc[a].elements().iter().filter_map(conv::from).collect();
            diff(&want[a], &got)?;
            if !acc[a].elements().is_empty() {
                return Err("elements that were taken are still there".to_string());
            }
        }
        Ok(())
    });
    match r {
        // capacities that no memory has
        Err(p) if capacity > 1 << 30 => Ok(p.chars().take(40).collect()),
        Err(p) => Err(p),
        Ok(r) => r.map(|_| "as given".into()),
    }
}

fn good(what: &str) -> Out {
    Out::Ok { nontrivial: true, what: what.to_string() }
}
