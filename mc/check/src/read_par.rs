//! C06, C07, C11: parallel iteration, counting and bounding boxes under every schedule.
use crate::conv;
use crate::effects::{self, Fault};
use crate::files;
use crate::io::{self, Op};
use crate::par::*;
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Group, Header, ALL};
use oracle::scratch::Scratch;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use std::collections::BTreeMap;
use std::sync::atomic::AtomicUsize;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(vstd::thread::ThreadId, Option<El>)>>>;

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Every element once, on one thread per block in file order, a sentinel after each block.
fn judge(log: &[(vstd::thread::ThreadId, Option<El>)], blocks: &[Vec<El>]) -> Result<usize, String> {
    let mut per: BTreeMap<String, Vec<Option<&El>>> = BTreeMap::new();
    for (t, e) in log {
        per.entry(format!("{:?}", t)).or_default().push(e.as_ref());
    }
    let mut left: Vec<(usize, &Vec<El>)> = blocks.iter().enumerate().collect();
    let threads = per.len();
    for (t, calls) in per {
        let mut i = 0;
        while i < calls.len() {
            let j = calls[i..].iter().position(|c| c.is_none()).ok_or_else(|| format!("thread {}: calls without a sentinel after them: {:?}", t, calls[i].map(|e| e.brief())))?;
            let got: Vec<El> = calls[i..i + j].iter().map(|c| c.unwrap().clone()).collect();
            match left.iter().position(|(_, b)| **b == got) {
                Some(p) => {
                    left.remove(p);
                }
                None => return Err(format!("thread {}: {:?} followed by a sentinel is not an outstanding block; outstanding {:?}", t, got.iter().map(|e| e.brief()).collect::<Vec<_>>(), left.iter().map(|(i, b)| (*i, b.iter().map(|e| e.brief()).collect::<Vec<_>>())).collect::<Vec<_>>())),
            }
            i += j + 1;
        }
    }
    if let Some((i, b)) = left.first() {
        return Err(format!("block {} ({:?}) was not delivered before parallel_for_each returned", i, b.iter().map(|e| e.brief()).collect::<Vec<_>>()));
    }
    Ok(threads)
}

fn counts(v: &[El]) -> (i64, i64, i64) {
    let n = |k| v.iter().filter(|e| e.kind == k).count() as i64;
    (n(Kind::Node), n(Kind::Way), n(Kind::Relation))
}

fn iterate(ctx: &mut Ctx, key: &str, bytes: Vec<u8>, want: Vec<Vec<El>>, tasks: usize, mode: Mode) {
    let s = Scratch::new();
    let p = s.write("in.osm.pbf", &bytes);
    let s = Arc::new(s);
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        let reader = Reader::new(&p).map_err(|e| format!("opening failed: {:#}", e))?;
        let log: Log = Default::default();
        let l = log.clone();
        begin();
        reader
            .parallel_for_each(tasks, move |e| {
                lock(&l).push((vstd::thread::current().id(), conv::from(&e)));
                note();
                Ok(())
            })
            .map_err(|e| format!("parallel_for_each failed: {:#}", e))?;
        observe_notes();
        let n = lock(&log).len();
        let used = judge(&lock(&log), &want)?;
        vstd::sched::quiesce();
        if lock(&log).len() != n {
            return Err("the callback was called after parallel_for_each had returned".into());
        }
        Ok(format!("{} threads used", used))
    });
}

fn count(ctx: &mut Ctx, key: &str, bytes: Vec<u8>, want: Vec<El>, tasks: usize, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let p = s.write("in.osm.pbf", &bytes);
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        num_cpus::set(tasks);
        let reader = Reader::new(&p).map_err(|e| format!("opening failed: {:#}", e))?;
        begin();
        let c = reader.count_objects().map_err(|e| format!("count_objects failed: {:#}", e))?;
        if c != counts(&want) {
            return Err(format!("count_objects gives {:?}, the file holds {:?}", c, counts(&want)));
        }
        Ok(format!("{:?}", c))
    });
}

fn per_block(layout: &str) -> Vec<Vec<El>> {
    files::blocks(layout).iter().map(|b| b.elements().into_iter().map(|x| x.0).collect()).collect()
}

pub fn c06(ctx: &mut Ctx) {
    let small: &[&str] = &["n", "nn", "n,w", "n,w,r", "n|n", "nn|w", "n|w|r", "nn|nn|w", ",|n|", "n,w,r|N|w,r", "r|w|n", "|", "|n||w"];
    let deep: &[&str] = &["n|w|r|n", "nn|ww|rr|n", "n|n|n|n", "nnn,w|rr|N,n|w"];
    for tasks in 1..=3usize {
        for l in small {
            iterate(ctx, &format!("iterate tasks {} blocks {}", tasks, l), files::file(l), per_block(l), tasks, Mode::All);
            count(ctx, &format!("count tasks {} blocks {}", tasks, l), files::file(l), files::elements(&files::blocks(l)), tasks, Mode::All);
        }
        let l = "";
        iterate(ctx, &format!("iterate tasks {} header only", tasks), pbf::file(&Header::usual(), &[]), vec![], tasks, Mode::All);
        count(ctx, &format!("count tasks {} header only", tasks), pbf::file(&Header::usual(), &[]), vec![], tasks, Mode::All);
        let _ = l;
        // blocks of types the reader does not know, and a blob with index data
        let mut odd = pbf::header_blob(&Header::usual());
        let b = files::blobs("nn|w|r");
        odd.extend(&b[0]);
        odd.extend(pbf::blob("OSMOther", &pbf::blob_body(b"whatever", pbf::Body::Zlib, 6), Some(b"i"), true));
        odd.extend(&b[1]);
        odd.extend(pbf::blob("x", &[], None, false));
        odd.extend(&b[2]);
        iterate(ctx, &format!("iterate tasks {} blobs of unknown types", tasks), odd.clone(), per_block("nn|w|r"), tasks, Mode::All);
        count(ctx, &format!("count tasks {} blobs of unknown types", tasks), odd, files::elements(&files::blocks("nn|w|r")), tasks, Mode::All);
    }
    for l in deep {
        iterate(ctx, &format!("iterate tasks 2 blocks {}", l), files::file(l), per_block(l), 2, Mode::All);
    }
    if ctx.thorough() {
        for l in deep {
            for tasks in [3, 4] {
                iterate(ctx, &format!("iterate tasks {} blocks {}", tasks, l), files::file(l), per_block(l), tasks, Mode::All);
                count(ctx, &format!("count tasks {} blocks {}", tasks, l), files::file(l), files::elements(&files::blocks(l)), tasks, Mode::All);
            }
        }
        for l in ["n|w|r|n|w", "n|w|r|n|w|r"] {
            for tasks in [2, 3] {
                iterate(ctx, &format!("iterate tasks {} blocks {}", tasks, l), files::file(l), per_block(l), tasks, Mode::All);
            }
        }
        // every layout of up to three blocks over a small set of blocks
        let bs = ["", "n", "nn", "w", "r", "n,w"];
        for n in 1..=3usize {
            for c in 0..bs.len().pow(n as u32) {
                let l: Vec<&str> = (0..n).map(|i| bs[c / bs.len().pow(i as u32) % bs.len()]).collect();
                let l = l.join("|");
                iterate(ctx, &format!("iterate tasks 2 all layouts {:?}", l), files::file(&l), per_block(&l), 2, Mode::All);
            }
        }
    }
    // sizes around the capacity of the pool's queue and beyond, one schedule each
    let sizes: &[usize] = if ctx.thorough() { &[5, 17, 63, 64, 65, 255, 1022, 1023, 1024, 1025, 1026, 1027, 1100, 2047, 2048, 2049, 3000] } else { &[17, 64, 1023, 1024, 1025, 1026, 1100] };
    for n in sizes {
        for tasks in [1usize, 2, 3, 8] {
            let key = format!("sweep iterate tasks {} blocks {}", tasks, n);
            if !ctx.mine() {
                ctx.case(&key, || ok(true));
            } else {
                let l = vec!["n"; *n].join("|");
                iterate(ctx, &key, files::file(&l), per_block(&l), tasks, Mode::One);
            }
        }
    }
    // blocks of full size
    for tasks in [1usize, 3] {
        let key = format!("sweep iterate tasks {} blocks of 8000", tasks);
        if !ctx.mine() {
            ctx.case(&key, || ok(true));
        } else {
            let l = format!("{}|{}|{}", "n".repeat(8000), "w".repeat(8000), "r".repeat(3));
            iterate(ctx, &key, files::file(&l), per_block(&l), tasks, Mode::One);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    Error,
    Panic,
    PanicAny,
}

/// No call of the callback is made once the iteration has returned
fn nothing_later(calls: &Mutex<usize>) -> Result<(), String> {
    let n = *lock(calls);
    vstd::sched::quiesce();
    match *lock(calls) - n {
        0 => Ok(()),
        m => Err(format!("the callback was called {} times after parallel_for_each had returned", m)),
    }
}

/// A callback fails at the given calls: (block, position); the position after the last element is
/// the sentinel's. Sentinels are recognised by counting per thread.
fn failing(ctx: &mut Ctx, key: &str, layout: &'static str, tasks: usize, at: Vec<(usize, usize)>, how: Fail, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let p = s.write("in.osm.pbf", &files::file(layout));
    let blocks = per_block(layout);
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        let reader = Reader::new(&p).map_err(|e| format!("opening failed: {:#}", e))?;
        let mut ids = vec![];
        let mut sentinels = vec![];
        for (b, i) in &at {
            match blocks[*b].get(*i) {
                Some(e) => ids.push(e.id),
                // the sentinel after the block that starts with this id
                None => sentinels.push(blocks[*b].first().map(|e| e.id)),
            }
        }
        let last: Mutex<std::collections::HashMap<vstd::thread::ThreadId, Option<i64>>> = Mutex::new(Default::default());
        begin();
        let fired = Arc::new(Mutex::new(0usize));
        let f = fired.clone();
        let calls = Arc::new(Mutex::new(0usize));
        let c = calls.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            reader.parallel_for_each(tasks, move |e| {
                let t = vstd::thread::current().id();
                *lock(&c) += 1;
                let bad = match conv::from(&e) {
                    Some(x) => {
                        lock(&last).entry(t).or_insert(Some(x.id)).get_or_insert(x.id);
                        ids.contains(&x.id)
                    }
                    None => {
                        let b = lock(&last).insert(t, None).flatten();
                        sentinels.contains(&b)
                    }
                };
                note();
                if bad {
                    *lock(&f) += 1;
                    match how {
                        Fail::Error => return Err(anyhow::anyhow!("refused")),
                        Fail::Panic => panic!("callback panic"),
                        Fail::PanicAny => std::panic::panic_any(42u8),
                    }
                }
                Ok(())
            })
        }));
        observe_notes();
        nothing_later(&calls)?;
        match r {
            Err(p) => Err(format!("parallel_for_each panicked: {}", payload(&p))),
            Ok(Ok(())) if *lock(&fired) > 0 => Err(format!("parallel_for_each succeeded although {} calls of the callback failed", *lock(&fired))),
            Ok(Ok(())) => Err("parallel_for_each succeeded without calling the callback that fails".into()),
            Ok(Err(e)) => Ok(format!("{:#}", e).chars().take(30).collect()),
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Iterate,
    Count,
    Bbox,
}

/// A damaged file must give an error
pub fn damaged(ctx: &mut Ctx, key: &str, bytes: Vec<u8>, what: What, tasks: usize, mode: Mode) {
    if !ctx.mine() {
        ctx.case(key, || ok(true));
        return;
    }
    let s = Arc::new(Scratch::new());
    let p = s.write("in.osm.pbf", &bytes);
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        num_cpus::set(tasks);
        begin();
        let calls = Arc::new(Mutex::new(0usize));
        let c = calls.clone();
        let f = move |_| {
            *lock(&c) += 1;
            note();
            Ok(())
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
            What::Iterate => Reader::new(&p).and_then(|r| r.parallel_for_each(tasks, f)).map(|_| String::new()),
            What::Count => Reader::new(&p).and_then(|r| r.count_objects()).map(|c| format!("{:?}", c)),
            What::Bbox => BoundingBoxCalculator::new(&p).calc().map(|b| format!("{:?}", b)),
        }));
        observe_notes();
        nothing_later(&calls)?;
        match r {
            Err(p) => Err(format!("{:?} panicked: {}", what, payload(&p))),
            Ok(Ok(v)) => Err(format!("{:?} succeeded on a damaged file {}", what, v)),
            Ok(Err(e)) => Ok(format!("{:#}", e).chars().take(30).collect()),
        }
    });
}

/// A file of which a call to read it fails gives an error or everything
pub fn failing_call(ctx: &mut Ctx, key: &str, layout: &'static str, what: What, tasks: usize, mode: Mode, op: Op, at: u64, fault: Fault) {
    if !ctx.mine() {
        ctx.case(key, || ok(true));
        return;
    }
    let want = files::elements(&files::blocks(layout));
    let s = Arc::new(Scratch::new());
    let p = s.write("in.osm.pbf", &files::file(layout));
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        num_cpus::set(tasks);
        begin();
        let calls = Arc::new(Mutex::new(0usize));
        let seen = Arc::new(Mutex::new(vec![]));
        let (c, e) = (calls.clone(), seen.clone());
        let f = move |x| {
            *lock(&c) += 1;
            lock(&e).extend(conv::from(&x));
            note();
            Ok(())
        };
        let fired = Arc::new(AtomicUsize::new(0));
        io::set_plan(Some(effects::plan(op, at, fault, fired.clone())));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
            What::Iterate => Reader::new(&p).and_then(|r| r.parallel_for_each(tasks, f)).map(|_| String::new()),
            What::Count => Reader::new(&p).and_then(|r| r.count_objects()).map(|c| format!("{:?}", c)),
            What::Bbox => BoundingBoxCalculator::new(&p).calc().map(|b| format!("{:?}", b)),
        }));
        observe_notes();
        io::set_plan(None);
        nothing_later(&calls)?;
        let r = match r {
            Err(p) => return Err(format!("{:?} panicked: {}", what, payload(&p))),
            Ok(Err(e)) => return Ok(format!("{:#}", e).chars().take(30).collect()),
            Ok(Ok(v)) => v,
        };
        let complete = match what {
            What::Iterate => {
                let mut got: Vec<El> = lock(&seen).clone();
                got.sort_by_key(|e| e.key());
                let mut w = want.clone();
                w.sort_by_key(|e| e.key());
                diff(&w, &got)
            }
            What::Count => {
                let w = format!("{:?}", counts(&want));
                if r == w { Ok(()) } else { Err(format!("{} instead of {}", r, w)) }
            }
            What::Bbox => {
                let w = BoundingBoxCalculator::new(&p).calc().map(|b| format!("{:?}", b)).unwrap_or_default();
                if r == w { Ok(()) } else { Err(format!("{} instead of {}", r, w)) }
            }
        };
        match complete {
            Ok(()) => Ok("complete".into()),
            Err(e) => Err(format!("{:?} succeeded although a call failed, but not with everything: {}", what, e)),
        }
    });
}

pub fn c07(ctx: &mut Ctx) {
    let layouts: &[&'static str] = if ctx.thorough() { &["n", "n,w", "n|n", "nn|w", "n|w|r", "nn|w|rr", "|n", "n|w|r|n"] } else { &["n", "nn|w", "n|w|r", "|n"] };
    for l in layouts {
        let b = per_block(l);
        let places: Vec<(usize, usize)> = b.iter().enumerate().flat_map(|(i, v)| (0..=v.len()).map(move |j| (i, j))).collect();
        for tasks in 1..=3usize {
            for how in [Fail::Error, Fail::Panic, Fail::PanicAny] {
                if how == Fail::PanicAny && !ctx.thorough() && tasks != 2 {
                    continue;
                }
                for (i, a) in places.iter().enumerate() {
                    failing(ctx, &format!("callback {:?} at {:?} of {} tasks {}", how, a, l, tasks), l, tasks, vec![*a], how, Mode::All);
                    if tasks == 2 || ctx.thorough() {
                        for c in &places[i + 1..] {
                            failing(ctx, &format!("callback {:?} at {:?} and {:?} of {} tasks {}", how, a, c, l, tasks), l, tasks, vec![*a, *c], how, Mode::All);
                        }
                    }
                }
                // every call fails
                failing(ctx, &format!("callback {:?} always of {} tasks {}", how, l, tasks), l, tasks, places.clone(), how, Mode::All);
            }
        }
    }
    // more failing blocks than the queue holds, one schedule
    for n in if ctx.thorough() { vec![3usize, 1024, 1025, 1026, 1100] } else { vec![1026usize] } {
        for how in [Fail::Error, Fail::Panic] {
            for tasks in [1usize, 2] {
                let key = format!("callback {:?} in every one of {} blocks tasks {}", how, n, tasks);
                if !ctx.mine() {
                    ctx.case(&key, || ok(true));
                    continue;
                }
                let l: &'static str = Box::leak(vec!["n"; n].join("|").into_boxed_str());
                failing(ctx, &key, l, tasks, (0..n).map(|i| (i, 0)).collect(), how, Mode::One);
            }
        }
    }
    for (k, name) in files::DAMAGE.iter().enumerate() {
        for what in [What::Iterate, What::Count, What::Bbox] {
            for (l, ats) in [("n|w", vec![0usize, 1, 2]), ("n", vec![0, 1])] {
                for at in ats {
                    for tasks in if ctx.thorough() { vec![1usize, 2, 3] } else { vec![2usize] } {
                        let f = files::with_blob(l, at, &files::damaged(k));
                        damaged(ctx, &format!("{:?} {} before block {} of {} tasks {}", what, name, at, l, tasks), f, what, tasks, Mode::All);
                    }
                }
            }
            // only damaged blocks
            for n in 1..=3usize {
                for tasks in [1usize, 2] {
                    let mut f = pbf::header_blob(&Header::usual());
                    for _ in 0..n {
                        f.extend(files::damaged(k));
                    }
                    damaged(ctx, &format!("{:?} {} times {} tasks {}", what, name, n, tasks), f, what, tasks, Mode::All);
                }
            }
        }
    }
    // broken framing after good blocks
    let tail: &[(&str, Vec<u8>)] = &[
        ("one stray byte", vec![0]),
        ("a cut length field", vec![0, 0, 0]),
        ("a length field alone", vec![0, 0, 0, 13]),
        ("a negative length", vec![0xff, 0xff, 0xff, 0xff, 1, 2, 3]),
        ("a huge length", vec![0x7f, 0xff, 0xff, 0xff, 1, 2, 3]),
        ("a zero length", vec![0, 0, 0, 0]),
        ("a header that is no message", vec![0, 0, 0, 4, 0xff, 0xff, 0xff, 0xff]),
        ("a block cut in its body", {
            let b = files::blobs("nnn").remove(0);
            b[..b.len() - 1].to_vec()
        }),
    ];
    for (name, t) in tail {
        for what in [What::Iterate, What::Count, What::Bbox] {
            for l in ["n", "n|w|r"] {
                for tasks in [1usize, 2] {
                    let mut f = files::file(l);
                    f.extend(t);
                    damaged(ctx, &format!("{:?} {} after {} tasks {}", what, name, l, tasks), f, what, tasks, Mode::All);
                }
            }
        }
    }
}

fn bbox_case(ctx: &mut Ctx, key: &str, blocks: Vec<Block>, declared: Option<[i64; 4]>, tasks: usize, mode: Mode) {
    let nodes: Vec<El> = files::elements(&blocks).into_iter().filter(|e| e.kind == Kind::Node).collect();
    let mut h = Header::usual();
    h.bbox = declared;
    let s = Arc::new(Scratch::new());
    let p = s.write("in.osm.pbf", &pbf::file(&h, &blocks));
    scenario(ctx, key, mode, 2_000_000, move |begin| {
        let _ = &s;
        num_cpus::set(tasks);
        begin();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| BoundingBoxCalculator::new(&p).calc()));
        let r = match r {
            Err(p) => return Err(format!("calc panicked: {}", payload(&p))),
            Ok(r) => r,
        };
        if nodes.is_empty() {
            return match r {
                Err(_) => Ok("error".into()),
                Ok(b) => Err(format!("a file without nodes has the box {:?}", b)),
            };
        }
        let b = r.map_err(|e| format!("calc failed: {:#}", e))?;
        let n = |x: f64| (x * 1e9).round() as i64;
        let want = (
            nodes.iter().map(|e| e.lon).min().unwrap(),
            nodes.iter().map(|e| e.lat).min().unwrap(),
            nodes.iter().map(|e| e.lon).max().unwrap(),
            nodes.iter().map(|e| e.lat).max().unwrap(),
        );
        let got = (n(b.left()), n(b.bottom()), n(b.right()), n(b.top()));
        if got != want {
            return Err(format!("box (left, bottom, right, top in nanodegrees) {:?}, the nodes span {:?}", got, want));
        }
        Ok(format!("{:?}", got))
    });
}

pub fn c11(ctx: &mut Ctx) {
    const G: i64 = 1_000_000_000;
    // coordinates (lat, lon)
    let pts: [(i64, i64); 8] = [(0, 0), (90 * G, 180 * G), (-90 * G, -180 * G), (-90 * G, 180 * G), (50 * G + 100, 10 * G + 300), (50 * G + 200, 10 * G + 200), (-100, 100), (-12_345_678_900, -123_456_789_000)];
    let node = |i: usize, p: (i64, i64)| {
        let mut e = El::node(i as i64 + 1);
        e.lat = p.0;
        e.lon = p.1;
        e
    };
    // placements: the nodes are dealt over blocks and groups
    // letters: a, b, c stand for the nodes, w and r for other elements
    let shapes1 = ["a", "w,a", "a,w", "r|a", "a|r", "w|a|r", "|a|"];
    let shapes2 = ["ab", "a|b", "a,w|r,b", "w,ab", "a,b", "w|a|b", "a|w|b", "A|b", "w,a|w,b"];
    let shapes3 = ["abc", "ab|c", "a|bc", "a|b|c", "a,w,b|r|c", "w,a|r,b|w,c", "A,b|C"];
    let build = |shape: &str, ps: &[(i64, i64)]| -> Vec<Block> {
        let mut id = 100;
        shape
            .split('|')
            .map(|b| {
                Block::new(
                    b.split(',')
                        .map(|g| {
                            let v: Vec<El> = g
                                .chars()
                                .map(|c| {
                                    id += 1;
                                    match c {
                                        'w' => El::way(id),
                                        'r' => El::rel(id),
                                        c => {
                                            let i = (c.to_ascii_lowercase() as u8 - b'a') as usize;
                                            node(i, ps[i])
                                        }
                                    }
                                })
                                .collect();
                            match g.chars().next() {
                                None => Group::Empty,
                                Some('w') => Group::Ways(v, Some(ALL)),
                                Some('r') => Group::Rels(v, Some(ALL)),
                                Some(c) if c.is_uppercase() => Group::Nodes(v, Some(ALL)),
                                _ => Group::Dense(v, Some(ALL)),
                            }
                        })
                        .collect(),
                )
            })
            .collect()
    };
    // boxes per placement in one schedule (a file of many cases is one case here: values × shapes)
    for shape in shapes1 {
        for p in pts {
            for tasks in 1..=2 {
                bbox_case(ctx, &format!("one node {:?} placed {} tasks {}", p, shape, tasks), build(shape, &[p]), None, tasks, Mode::All);
            }
        }
    }
    for shape in shapes2 {
        for (i, p) in pts.iter().enumerate() {
            for (j, q) in pts.iter().enumerate() {
                let all = (i + j) % 3 == 0 || ctx.thorough();
                bbox_case(ctx, &format!("two nodes {:?} {:?} placed {}", p, q, shape), build(shape, &[*p, *q]), if (i + j) % 2 == 0 { None } else { Some([-5, 5, 7, -7]) }, 2, if all { Mode::All } else { Mode::One });
            }
        }
    }
    for shape in shapes3 {
        for (i, p) in pts.iter().enumerate() {
            for (j, q) in pts.iter().enumerate() {
                for (k, r) in pts.iter().enumerate() {
                    if !ctx.thorough() && (i + 2 * j + 3 * k) % 5 != 0 {
                        continue;
                    }
                    let all = (i * 64 + j * 8 + k) % if ctx.thorough() { 8 } else { 40 } == 0;
                    bbox_case(ctx, &format!("three nodes {:?} {:?} {:?} placed {}", p, q, r, shape), build(shape, &[*p, *q, *r]), None, 2 + k % 2, if all { Mode::All } else { Mode::One });
                }
            }
        }
    }
    for l in ["", "w", "r", "w|r", "|", "w,r|w"] {
        for d in [None, Some([-G, G, G, -G])] {
            for tasks in 1..=2 {
                bbox_case(ctx, &format!("no nodes {:?} declared {:?} tasks {}", l, d, tasks), build(l, &[]), d, tasks, Mode::All);
            }
        }
    }
    bbox_case(ctx, "header only", vec![], Some([-G, G, G, -G]), 2, Mode::All);
    // the extreme nodes at the first and last places of long blocks
    for at in [0usize, 1, 4000, 7998, 7999] {
        let key = format!("long blocks, extremes at {}", at);
        if !ctx.mine() {
            ctx.case(&key, || ok(true));
            continue;
        }
        let mut bs = vec![];
        for b in 0..3i64 {
            let mut v: Vec<El> = (0..8000).map(|i| node((b * 8000 + i) as usize, (i * 100, -i * 100))).collect();
            v[at].lat = (b - 1) * 80 * G;
            v[at].lon = (1 - b) * 170 * G;
            bs.push(Block::dense(v));
        }
        bbox_case(ctx, &key, bs, None, 2, Mode::One);
    }
}
