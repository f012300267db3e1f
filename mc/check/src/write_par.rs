//! C08, C09, C18, C19 and the parallel part of C10: the parallel writer under every schedule.
use crate::conv;
use crate::files;
use crate::io::{self, Act, Op};
use crate::par::*;
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf;
use oracle::scratch::Scratch;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

const CAP: u64 = 400_000;

fn letters(s: &str) -> Vec<El> {
    // "n3 w1 r2.4": kind, id, version
    s.split_whitespace()
        .map(|t| {
            let k = match &t[..1] {
                "n" => Kind::Node,
                "w" => Kind::Way,
                _ => Kind::Relation,
            };
            let (id, v) = t[1..].split_once('.').unwrap_or((&t[1..], "1"));
            let id: i64 = id.parse().unwrap();
            El::of(k, id).v(v.parse().unwrap()).tag("k", &format!("v{}", id))
        })
        .collect()
}

/// calls separated by '/', a list in brackets, '!' a sentinel
fn calls(s: &str) -> Vec<Call> {
    s.split('/')
        .map(|c| {
            let c = c.trim();
            if c == "!" {
                Call::Sentinel
            } else if let Some(x) = c.strip_prefix('[') {
                match x.trim_end_matches(']').strip_suffix('!') {
                    Some(y) => Call::ManyS(letters(y)),
                    None => Call::Many(letters(x.trim_end_matches(']'))),
                }
            } else {
                Call::One(letters(c).pop().unwrap())
            }
        })
        .collect()
}

/// The most elements that one element has greater ones before it.
fn displacement(v: &[El]) -> usize {
    (0..v.len()).map(|i| v[..i].iter().filter(|e| e.key() > v[i].key()).count()).max().unwrap_or(0)
}

/// What a buffer of this size restores for sure: after giving away a block it holds the rest.
fn restorable(buf: usize, block: usize) -> usize {
    (buf + 1).saturating_sub(block)
}

fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<Result<T, String>, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| format!("panic in the caller: {}", payload(&p)))
}

/// Write and close; in-domain input: must succeed with the right content
fn complete(ctx: &mut Ctx, key: &str, buf: usize, block: usize, z: bool, cs: Vec<Call>, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let want = sorted(elements_of(&cs));
    if ctx.mine() {
        assert!(displacement(&elements_of(&cs)) <= restorable(buf, block), "{}", key);
    }
    let same = Same::default();
    scenario(ctx, key, mode, CAP, move |begin| {
        let p = out(&s);
        let _ = std::fs::remove_file(&p);
        let mut w = open_writer(&p, buf, block, z)?;
        begin();
        for (i, c) in cs.iter().enumerate() {
            apply(&mut w, c).map_err(|e| format!("call {} failed: {}", i, e))?;
        }
        w.close().map_err(|e| format!("close failed: {:#}", e))?;
        let b = check_output(&p, &want, block)?;
        same.check(b)
    });
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// All ways to hand a sequence over: cut into calls, each one list or (length one) a single call.
fn partitions(v: &[El]) -> Vec<Vec<Call>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for n in 1..=v.len() {
        for rest in partitions(&v[n..]) {
            let mut heads = vec![Call::Many(v[..n].to_vec())];
            if n == 1 {
                heads.push(Call::One(v[0].clone()));
            }
            for h in heads {
                let mut c = vec![h];
                c.extend(rest.clone());
                out.push(c);
            }
        }
    }
    out
}

fn show(cs: &[Call]) -> String {
    cs.iter()
        .map(|c| match c {
            Call::One(e) => e.brief(),
            Call::Many(v) => format!("[{}]", v.iter().map(|e| e.brief()).collect::<Vec<_>>().join(" ")),
            Call::ManyS(v) => format!("[{}!]", v.iter().map(|e| e.brief()).collect::<Vec<_>>().join(" ")),
            Call::Sentinel => "!".into(),
        })
        .collect::<Vec<_>>()
        .join(" / ")
}

pub fn c08(ctx: &mut Ctx) {
    // every schedule of chosen histories
    let small: &[(usize, usize, &str)] = &[
        (0, 1, "n1"),
        (0, 1, "n1 / n2"),
        (1, 1, "n2 / n1"),
        (1, 1, "[n2 n1] / w1"),
        (2, 1, "w1 / n1 / n2"),
        (2, 2, "n1 / [n3 n2] / n4"),
        (3, 2, "[n2 n1 !] / [w1]"),
        (10, 1, "r1 / w1 / n1"),
        (10, 2, "[r1 w2 w1 n1 n2]"),
        (0, 3, "[n1 n2 n3] / [n4 n5 n6]"),
        (1, 1, "n1.2 / n1.1 / n2.1"),
        (0, 1, "! / n1 / !"),
        (5, 2, "!"),
        (2, 1, "[] / n1 / []"),
        (1, 8, "n1 / w1 / r1"),
        (0, 8, "[n1 w1 r1]"),
        (0, 1, "n1 / n1 / n2"),
        (1, 1, "n1 / n2 / n1 / n2"),
        (0, 2, "[n1 n1 n1] / w1 / w1"),
        (0, 8, "[n1 w1!] / [r1!]"),
    ];
    for (buf, block, c) in small {
        for z in [false, true] {
            complete(ctx, &format!("buffer {} block {} zlib {} calls {}", buf, block, z, c), *buf, *block, z, calls(c), Mode::All);
        }
    }
    complete(ctx, "nothing written", 3, 2, false, vec![], Mode::All);
    let bigger: &[(usize, usize, &str)] = &[(0, 1, "n1 / n2 / n3"), (0, 1, "n1 / w1 / r1"), (0, 1, "[n1 n2 n3 n4]"), (2, 1, "n3 / n2 / n1 / n4"), (1, 2, "[n1 n2] / [n3 n4] / [w1 w2]"), (0, 1, "n1 / [n2 n3] / ! / w1")];
    for (buf, block, c) in bigger {
        complete(ctx, &format!("buffer {} block {} calls {}", buf, block, c), *buf, *block, false, calls(c), Mode::All);
    }
    if ctx.thorough() {
        for (buf, block, c) in [(0, 1, "n1 / n2 / n3 / n4 / n5"), (2, 1, "n3 / n2 / n1 / n5 / n4"), (0, 1, "[n1 n2 n3 n4 n5 n6]"), (1, 1, "n2 / n1 / n4 / n3 / w2 / w1 / r2 / r1"), (0, 1, "[n1 n2] / [w1 w2] / [r1 r2]")] {
            complete(ctx, &format!("buffer {} block {} calls {}", buf, block, c), buf, block, true, calls(c), Mode::All);
        }
    }
    // every permutation that the buffer can restore, every way to hand it over
    let sets: &[&str] = &["n1 n2 n3 n4", "n1 n2 w1 r1", "n1.1 n1.2 w1 w2", "w1 w2 r1 r2", "n1 w1 w1.2 r-1", "n1 n1 w1 w1"];
    for set in sets {
        let v = sorted(letters(set));
        for (buf, block) in [(0usize, 1usize), (1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (4, 2), (3, 3), (8, 3), (8, 8000)] {
            for p in permutations(v.len()) {
                let seq: Vec<El> = p.iter().map(|i| v[*i].clone()).collect();
                if displacement(&seq) > restorable(buf, block) {
                    continue;
                }
                for cs in partitions(&seq) {
                    let key = format!("sequence buffer {} block {} calls {}", buf, block, show(&cs));
                    if !ctx.mine() {
                        ctx.case(&key, || ok(true));
                    } else {
                        complete(ctx, &key, buf, block, false, cs, Mode::One);
                    }
                }
            }
        }
    }
    // more blocks than the queues of the pools hold, and full blocks
    let n = |n: i64| -> Vec<Call> { (1..=n).map(|i| Call::One(El::node(i))).collect() };
    let mut long: Vec<(String, usize, usize, Vec<Call>)> = vec![];
    for k in [255i64, 256, 257, 258, 600] {
        long.push((format!("{} single calls", k), 0, 1, n(k)));
        long.push((format!("one list of {}", k), 0, 1, vec![Call::Many((1..=k).map(El::node).collect())]));
        long.push((format!("one list of {} at close", k), 100_000, 1, vec![Call::Many((1..=k).rev().map(El::node).collect())]));
        long.push((format!("{} lists of one with sentinels", k), 3, 1, (1..=k).flat_map(|i| [Call::Many(vec![El::way(i)]), Call::Sentinel]).collect()));
    }
    for k in [1030i64, 3000] {
        long.push((format!("one list of {}", k), 0, 1, vec![Call::Many((1..=k).map(El::node).collect())]));
    }
    long.push(("24000 nodes in lists of 8000".into(), 8000, 8000, (0..3).map(|b| Call::Many((1..=8000).map(|i| El::node(b * 8000 + i)).collect())).collect()));
    long.push(("16001 nodes reversed".into(), 24_000, 8000, vec![Call::Many((1..=16001).rev().map(El::node).collect())]));
    long.push(("7999 ways and a node".into(), 16_000, 8000, vec![Call::Many((1..=7999).map(El::way).collect()), Call::Many((1..=1).map(El::node).collect())]));
    if ctx.thorough() {
        for k in [1000i64, 1024, 3000] {
            long.push((format!("{} single calls", k), 0, 1, n(k)));
        }
    }
    for (name, buf, block, cs) in long {
        for z in [false, true] {
            complete(ctx, &format!("long zlib {} {}", z, name), buf, block, z, cs.clone(), Mode::One);
        }
    }
}

/// Any input: either an error somewhere or a right file; never a panic or a hang
fn sorted_or_error(ctx: &mut Ctx, key: &str, buf: usize, block: usize, cs: Vec<Call>, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let want = sorted(elements_of(&cs));
    scenario(ctx, key, mode, CAP, move |begin| {
        let p = out(&s);
        let _ = std::fs::remove_file(&p);
        let mut w = open_writer(&p, buf, block, false)?;
        begin();
        let r = caught(|| {
            let mut first = None;
            for c in cs.iter() {
                if let Err(e) = apply(&mut w, c) {
                    first.get_or_insert(e);
                }
            }
            if let Err(e) = w.close() {
                first.get_or_insert(format!("{:#}", e));
            }
            match first {
                Some(e) => Err(e),
                None => Ok(()),
            }
        })?;
        match r {
            Err(_) => Ok("error".into()),
            Ok(()) => check_output(&p, &want, block).map(|_| "sorted".into()).map_err(|e| format!("every call succeeded, but {}", e)),
        }
    });
}

pub fn c09(ctx: &mut Ctx) {
    let cases: &[(usize, usize, &str)] = &[
        (0, 1, "n2 / n1"),
        (0, 1, "w1 / n1"),
        (0, 1, "n1.2 / n1.1"),
        (0, 1, "r1 / w1 / n1"),
        (0, 1, "n1 / n3 / n2"),
        (0, 2, "[n1 n2] / [n4 n3] / [n2]"),
        (1, 1, "n3 / n2 / n1"),
        (1, 1, "[n3 n4] / [n1 n2]"),
        (0, 1, "n2 / n1 / n3"),
        (0, 1, "n2 / ! / n1"),
        (0, 1, "[n2 n3 !] / [n1 !]"),
        (1, 2, "n3 / n4 / n1 / n2"),
        (0, 3, "[n1 n2 n3] / n2"),
        (1, 3, "[n1 n3 n5] / n2 / n4"),
        (2, 1, "n4 / n5 / n6 / n1"),
        (0, 1, "n3 / n1 / n2"),
        (0, 1, "n3 / n2 / n1"),
    ];
    for (buf, block, c) in cases {
        sorted_or_error(ctx, &format!("buffer {} block {} calls {}", buf, block, c), *buf, *block, calls(c), Mode::All);
    }
    let sets: &[&str] = &["n1 n2 n3 n4", "n1 n2 w1 r1", "n1.1 n1.2 w1 w2"];
    for set in sets {
        let v = sorted(letters(set));
        for (buf, block) in [(0usize, 1usize), (1, 1), (2, 1), (0, 2), (1, 2), (2, 2), (3, 2), (0, 3), (1, 3), (2, 3), (0, 8)] {
            for p in permutations(v.len()) {
                let seq: Vec<El> = p.iter().map(|i| v[*i].clone()).collect();
                if displacement(&seq) <= restorable(buf, block) {
                    continue;
                }
                for cs in partitions(&seq) {
                    let key = format!("sequence buffer {} block {} calls {}", buf, block, show(&cs));
                    if !ctx.mine() {
                        ctx.case(&key, || ok(true));
                    } else {
                        sorted_or_error(ctx, &key, buf, block, cs, Mode::One);
                    }
                }
            }
        }
    }
    // order lost and then more commands than the queues hold
    for k in [200i64, 255, 256, 257, 258, 300, 600, 1200] {
        for (name, cs) in [
            ("a late element, then single calls", [vec![Call::One(El::node(5)), Call::One(El::node(6)), Call::One(El::node(1))], (7..7 + k).map(|i| Call::One(El::node(i))).collect()].concat()),
            ("single calls, then a late element", [(7..7 + k).map(|i| Call::One(El::node(i))).collect(), vec![Call::One(El::node(1))]].concat()),
            ("every other element late", (1..=k).map(|i| Call::One(El::node(if i % 2 == 0 { i } else { 10_000 - i }))).collect()),
            ("all in reverse", (1..=k).rev().map(|i| Call::One(El::node(i))).collect()),
            ("lists in reverse", (1..=k).rev().map(|i| Call::Many(vec![El::node(2 * i), El::node(2 * i + 1)])).collect()),
            ("a long list before a late element", vec![Call::Many((7..7 + k).map(El::node).collect()), Call::One(El::node(1))]),
            ("late elements in a long list", vec![Call::One(El::node(100_000)), Call::One(El::node(100_001)), Call::Many((7..7 + k).map(El::node).collect())]),
        ] {
            for (buf, block) in [(0, 1), (1, 1), (1, 2)] {
                sorted_or_error(ctx, &format!("long {} {} buffer {} block {}", k, name, buf, block), buf, block, cs.clone(), Mode::One);
            }
        }
    }
}

/// A failing output: the fault hits call number `at` (and all later ones if it lasts)
fn write_fault(ctx: &mut Ctx, key: &str, buf: usize, block: usize, cs: Vec<Call>, op: Op, at: u64, lasting: bool, errno: i32, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let want = sorted(elements_of(&cs));
    let fired = Arc::new(AtomicUsize::new(0));
    scenario(ctx, key, mode, CAP, move |begin| {
        let p = out(&s);
        let _ = std::fs::remove_file(&p);
        fired.store(0, Ordering::SeqCst);
        let f = fired.clone();
        io::set_plan(Some(Box::new(move |o, n, _| {
            if o == op && (n == at || lasting && n >= at) {
                f.fetch_add(1, Ordering::SeqCst);
                Act::Fail(errno)
            } else {
                Act::Go
            }
        })));
        let mut early = true;
        let r = caught(|| {
            let mut w = ParallelWriter::from_file_info(buf, block, p.clone(), FileInfo::default(), CompressionType::Uncompressed).map_err(|e| format!("creation: {:#}", e))?;
            let mut first = w.write_header().err().map(|e| format!("header: {:#}", e));
            begin();
            early = false;
            for c in cs.iter() {
                if let Err(e) = apply(&mut w, c) {
                    first.get_or_insert(format!("write: {}", e));
                }
            }
            if let Err(e) = w.close() {
                first.get_or_insert(format!("close: {:#}", e));
            }
            match first {
                Some(e) => Err(e),
                None => Ok(()),
            }
        });
        io::set_plan(None);
        if early {
            begin();
        }
        match r? {
            Err(e) => Ok(e.split(':').next().unwrap_or("").to_string()),
            Ok(()) if fired.load(Ordering::SeqCst) > 0 => Err("every call succeeded although writing the file failed".into()),
            Ok(()) => check_output(&p, &want, block).map(|_| "complete".into()).map_err(|e| format!("every call succeeded, but {}", e)),
        }
    });
}

pub fn c10_par(ctx: &mut Ctx) {
    let hs: &[(usize, usize, &str)] = &[(0, 1, "n1"), (0, 1, "n1 / n2"), (1, 1, "[n2 n1] / w1"), (10, 2, "n1 / n2 / w1"), (10, 1, "[n1 n2 n3]"), (5, 2, "!")];
    for (buf, block, c) in hs {
        for lasting in [true, false] {
            for e in [io::EIO, io::ENOSPC] {
                write_fault(ctx, &format!("parallel writer: create fails ({}) lasting {} buffer {} block {} calls {}", e, lasting, buf, block, c), *buf, *block, calls(c), Op::Create, 0, lasting, e, Mode::All);
            }
            // the header and up to three blocks, each up to four writes
            for at in 0..12 {
                write_fault(ctx, &format!("parallel writer: write {} fails lasting {} buffer {} block {} calls {}", at, lasting, buf, block, c), *buf, *block, calls(c), Op::Write, at, lasting, io::ENOSPC, Mode::All);
            }
        }
    }
    // more blocks after the failure than the queues hold
    for k in [255i64, 257, 300, 600, 1300] {
        for at in [0u64, 3, 4, 5, 3 * 128, 3 * 250 + 1] {
            for lasting in [true, false] {
                for list in [false, true] {
                    let cs: Vec<Call> = if list { vec![Call::Many((1..=k).map(El::node).collect())] } else { (1..=k).map(|i| Call::One(El::node(i))).collect() };
                    write_fault(ctx, &format!("parallel writer: write {} fails lasting {} of {} blocks list {}", at, lasting, k, list), 0, 1, cs, Op::Write, at, lasting, io::EIO, Mode::One);
                }
            }
        }
    }
    // ids too far apart for the format: an error, or they are all there
    for (buf, block) in [(0, 2), (1, 2), (9, 9)] {
        for far in [vec![i64::MIN, i64::MAX], vec![i64::MIN, 0, 1, i64::MAX], vec![-7, i64::MAX]] {
            for list in [false, true] {
                let els: Vec<El> = far.iter().map(|i| El::node(*i)).collect();
                let cs: Vec<Call> = if list { vec![Call::Many(els)] } else { els.into_iter().map(Call::One).collect() };
                sorted_or_error(ctx, &format!("parallel writer: distant ids {:?} buffer {} block {} list {}", far, buf, block, list), buf, block, cs, Mode::All);
            }
        }
    }
    for k in [1i64, 4, 5, 20, 600, 1300] {
        for list in [false, true] {
            let els: Vec<El> = (1..=2 * k).map(|i| { let mut e = El::node(i); e.cs = if i % 2 == 0 { i64::MIN } else { i64::MAX }; e }).collect();
            let cs: Vec<Call> = if list { vec![Call::Many(els)] } else { els.into_iter().map(Call::One).collect() };
            sorted_or_error(ctx, &format!("parallel writer: distant changesets in each of {} blocks list {}", k, list), 1, 2, cs, Mode::One);
        }
    }
    // the place does not exist, is a directory
    for what in ["missing directory", "directory", "no header"] {
        for c in ["n1", "[n1 w1] / r1"] {
            let s = Arc::new(Scratch::new());
            let cs = calls(c);
            let key = format!("parallel writer: {} calls {}", what, c);
            scenario(ctx, &key, Mode::All, CAP, move |begin| {
                let p = match what {
                    "missing directory" => s.file("none").join("x.pbf"),
                    "directory" => s.path().to_path_buf(),
                    _ => out(&s),
                };
                let r = caught(|| {
                    let mut w = ParallelWriter::from_file_info(0, 1, p.clone(), FileInfo::default(), CompressionType::Zlib).map_err(|e| format!("creation: {:#}", e))?;
                    let mut first = None;
                    if what != "no header" {
                        first = w.write_header().err().map(|e| format!("header: {:#}", e));
                    }
                    begin();
                    for c in cs.iter() {
                        if let Err(e) = apply(&mut w, c) {
                            first.get_or_insert(format!("write: {}", e));
                        }
                    }
                    if let Err(e) = w.close() {
                        first.get_or_insert(format!("close: {:#}", e));
                    }
                    match first {
                        Some(e) => Err(e),
                        None => Ok(()),
                    }
                });
                match r? {
                    Err(e) => Ok(e.split(':').next().unwrap_or("").to_string()),
                    Ok(()) => Err("every call succeeded although nothing can be written".into()),
                }
            });
        }
    }
}

// -------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pipe {
    /// hand over at every sentinel
    Flush,
    /// two accumulators, even and odd ids, two writers
    Split,
    /// elements one by one without an accumulator
    Direct,
}

fn pipe(ctx: &mut Ctx, key: &str, layout: &str, tasks: usize, buf: usize, block: usize, how: Pipe, mode: Mode) {
    let s = Arc::new(Scratch::new());
    let input = s.write("in.osm.pbf", &files::file(layout));
    let all = sorted(files::elements(&files::blocks(layout)));
    let same = [Same::default(), Same::default()];
    scenario(ctx, key, mode, CAP, move |begin| {
        let n = if how == Pipe::Split { 2 } else { 1 };
        let paths: Vec<_> = (0..n).map(|i| s.file(&format!("out{}.pbf", i))).collect();
        let mut ws = vec![];
        for p in &paths {
            let _ = std::fs::remove_file(p);
            ws.push(Arc::new(vstd::sync::Mutex::new(open_writer(p, buf, block, false)?)));
        }
        let reader = Reader::new(&input).map_err(|e| format!("opening failed: {:#}", e))?;
        let accs: Vec<_> = (0..n).map(|_| ThreadLocalAccumulator::new(8)).collect();
        begin();
        let w2 = ws.clone();
        let r = reader.parallel_for_each(tasks, move |e| {
            let which = |e: &El| if n == 1 { 0 } else { (e.id % 2) as usize };
            match conv::from(&e) {
                Some(x) if how == Pipe::Direct => {
                    let mut g = w2[which(&x)].lock().unwrap_or_else(|e| e.into_inner());
                    g.write_element(e)?;
                }
                Some(x) => accs[which(&x)].add(e),
                None => {
                    for i in 0..n {
                        let v = accs[i].elements();
                        let mut g = w2[i].lock().unwrap_or_else(|e| e.into_inner());
                        g.write_elements(v)?;
                    }
                }
            }
            Ok(())
        });
        r.map_err(|e| format!("parallel_for_each failed: {:#}", e))?;
        for w in &ws {
            w.lock().unwrap_or_else(|e| e.into_inner()).close().map_err(|e| format!("close failed: {:#}", e))?;
        }
        let mut o = String::new();
        for (i, p) in paths.iter().enumerate() {
            let want: Vec<El> = all.iter().filter(|e| n == 1 || (e.id % 2) as usize == i).cloned().collect();
            let b = check_output(p, &want, block).map_err(|e| format!("output {}: {}", i, e))?;
            o.push_str(&same[i].check(b)?);
        }
        Ok(o)
    });
}

/// Two writers with different settings, their calls interleaved in every way by one caller
fn two_writers(ctx: &mut Ctx, key: &str, order: &[usize], mode: Mode) {
    let s = Arc::new(Scratch::new());
    let order = order.to_vec();
    scenario(ctx, key, mode, CAP, move |begin| {
        // operations of writer 0 and 1, in order
        let sets = [(0usize, 1usize, false), (2, 2, true)];
        let cs = [calls("n1 / [n2 w1]"), calls("[n3 n2] / r7")];
        let mut w: [Option<ParallelWriter>; 2] = [None, None];
        let mut at = [0usize; 2];
        let mut begun = false;
        for i in &order {
            let i = *i;
            let p = s.file(&format!("o{}.pbf", i));
            match at[i] {
                0 => {
                    let _ = std::fs::remove_file(&p);
                    let z = if sets[i].2 { CompressionType::Zlib } else { CompressionType::Uncompressed };
                    let mut info = FileInfo::default();
                    info.with_writingprogram_str(&format!("program {}", i));
                    w[i] = Some(ParallelWriter::from_file_info(sets[i].0, sets[i].1, p, info, z).map_err(|e| format!("{:#}", e))?);
                }
                1 => {
                    w[i].as_mut().unwrap().write_header().map_err(|e| format!("{:#}", e))?;
                    if !begun && at.iter().all(|a| *a >= 1) {
                        begun = true;
                        begin();
                    }
                }
                2 | 3 => apply(w[i].as_mut().unwrap(), &cs[i][at[i] - 2])?,
                _ => w[i].as_mut().unwrap().close().map_err(|e| format!("close {}: {:#}", i, e))?,
            }
            at[i] += 1;
        }
        if !begun {
            begin();
        }
        let mut o = vec![];
        for i in 0..2 {
            let p = s.file(&format!("o{}.pbf", i));
            check_output(&p, &sorted(elements_of(&cs[i])), sets[i].1).map_err(|e| format!("output {}: {}", i, e))?;
            let (d, b) = decode(&p)?;
            if d.header.program.as_deref() != Some(format!("program {}", i).as_str()) {
                return Err(format!("output {} has the header of another writer: {:?}", i, d.header.program));
            }
            if d.blocks.iter().any(|x| x.compressed != sets[i].2) {
                return Err(format!("output {} is compressed with the setting of another writer", i));
            }
            o.push(format!("{:08x}", fnv(&b) as u32));
        }
        Ok(o.join(" "))
    });
}

/// The same two writers, each driven by its own thread
fn two_threads(ctx: &mut Ctx, key: &str, cs: [&str; 2], mode: Mode) {
    let s = Arc::new(Scratch::new());
    let cs = cs.map(calls);
    scenario(ctx, key, mode, CAP, move |begin| {
        let sets = [(0usize, 1usize), (1, 2)];
        let mut ws = vec![];
        for i in 0..2 {
            let p = s.file(&format!("o{}.pbf", i));
            let _ = std::fs::remove_file(&p);
            ws.push(open_writer(&p, sets[i].0, sets[i].1, false)?);
        }
        begin();
        let mut hs = vec![];
        for (i, mut w) in ws.into_iter().enumerate() {
            let c = cs[i].clone();
            hs.push(vstd::thread::spawn(move || -> Result<(), String> {
                for x in &c {
                    apply(&mut w, x)?;
                }
                w.close().map_err(|e| format!("close {}: {:#}", i, e))
            }));
        }
        for h in hs {
            h.join().map_err(|p| format!("panic: {}", payload(&p)))??;
        }
        for i in 0..2 {
            check_output(&s.file(&format!("o{}.pbf", i)), &sorted(elements_of(&cs[i])), sets[i].1).map_err(|e| format!("output {}: {}", i, e))?;
        }
        Ok("ok".into())
    });
}

/// Operation sequences on accumulators by one or two threads against their specification
fn accumulators(ctx: &mut Ctx) {
    use osm_io::osm::model::element::Element;
    // operations: 0 add to A, 1 add to B, 2 take A, 3 take B, 4 drop A and make a new one
    let n = if ctx.thorough() { 7 } else { 6 };
    for len in 1..=n {
        for c in 0..5usize.pow(len as u32) {
            let ops: Vec<usize> = (0..len).map(|i| c / 5usize.pow(i as u32) % 5).collect();
            if !ops.contains(&2) && !ops.contains(&3) {
                continue;
            }
            for (ca, cb) in [(2usize, 0usize), (0, 1), (1, 4), (8, 3)] {
            ctx.case(&format!("accumulators of {} and {} {:?}", ca, cb, ops), || {
                let mut a = ThreadLocalAccumulator::new(ca);
                let b = ThreadLocalAccumulator::new(cb);
                let (mut ma, mut mb): (Vec<El>, Vec<El>) = (vec![], vec![]);
                for (i, o) in ops.iter().enumerate() {
                    let e = El::node(i as i64 + 1);
                    let cmp = |got: Vec<Element>, want: &mut Vec<El>| -> Result<(), String> {
                        let g: Vec<El> = got.iter().filter_map(conv::from).collect();
                        diff(want, &g)?;
                        want.clear();
                        Ok(())
                    };
                    let r = match o {
                        0 => {
                            a.add(conv::to(&e));
                            ma.push(e);
                            Ok(())
                        }
                        1 => {
                            b.add(conv::to(&e));
                            mb.push(e);
                            Ok(())
                        }
                        2 => cmp(a.elements(), &mut ma),
                        3 => cmp(b.elements(), &mut mb),
                        _ => {
                            a = ThreadLocalAccumulator::new(ca + 1);
                            ma.clear();
                            Ok(())
                        }
                    };
                    if let Err(m) = r {
                        return Out::Bad(format!("operation {}: {}", i, m));
                    }
                }
                ok(true)
            });
            }
        }
    }
}

fn interleavings(n: usize, m: usize) -> Vec<Vec<usize>> {
    if n == 0 && m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    if n > 0 {
        for mut v in interleavings(n - 1, m) {
            v.insert(0, 0);
            out.push(v);
        }
    }
    if m > 0 {
        for mut v in interleavings(n, m - 1) {
            v.insert(0, 1);
            out.push(v);
        }
    }
    out
}

pub fn c18(ctx: &mut Ctx) {
    accumulators(ctx);
    for tasks in 1..=2usize {
        for l in ["n", "nn", "n|w", "n|n", "w|n", "n,w|r", "|n|"] {
            for how in [Pipe::Flush, Pipe::Direct] {
                if l == "n,w|r" && how == Pipe::Direct && tasks > 1 && !ctx.thorough() {
                    continue;
                }
                pipe(ctx, &format!("pipe {:?} tasks {} blocks {}", how, tasks, l), l, tasks, 100, 2, how, Mode::All);
            }
        }
        pipe(ctx, &format!("pipe Split tasks {} blocks nn", tasks), "nn", tasks, 100, 2, Pipe::Split, Mode::All);
        pipe(ctx, &format!("pipe Split tasks {} blocks n|w", tasks), "n|w", tasks, 100, 2, Pipe::Split, Mode::All);
    }
    for v in interleavings(5, 5) {
        let key = format!("two writers, operations of {:?}", v);
        two_writers(ctx, &key, &v, Mode::One);
    }
    two_threads(ctx, "two writers in two threads", ["n1", "w1"], Mode::All);
    for (tasks, l) in [(3usize, "nnn|nnn|ww|r".to_string()), (2, vec!["nn"; 300].join("|")), (4, vec!["n"; 1100].join("|")), (8, format!("{}|{}|{}", "n".repeat(8000), "n".repeat(8000), "w".repeat(5)))] {
        for how in [Pipe::Flush, Pipe::Split, Pipe::Direct] {
            for block in [1usize, 7, 8000] {
                if block == 1 && l.len() > 10_000 {
                    continue;
                }
                pipe(ctx, &format!("long pipe {:?} tasks {} blocks of {} input {} bytes", how, tasks, block, l.len()), &l, tasks, 30_000, block, how, Mode::One);
            }
        }
    }
}

// -------------------------------------------------------------------------------------------

fn held(ctx: &mut Ctx, key: &str, buf: usize, block: usize, cs: Vec<Call>, mode: Mode) {
    let s = Arc::new(Scratch::new());
    scenario(ctx, key, mode, CAP, move |begin| {
        let p = out(&s);
        let _ = std::fs::remove_file(&p);
        let mut w = open_writer(&p, buf, block, false)?;
        begin();
        let mut o = vec![];
        for (i, c) in cs.iter().enumerate() {
            apply(&mut w, c).map_err(|e| format!("call {} failed: {}", i, e))?;
            vstd::sched::quiesce();
            let so_far = sorted(elements_of(&cs[..=i]));
            let (d, _) = decode(&p).map_err(|e| format!("after call {}: {}", i, e))?;
            let written = d.elements();
            if so_far.len() - written.len().min(so_far.len()) > buf {
                return Err(format!("after call {} of {} elements, {} are written: {} are held back, more than {}", i, so_far.len(), written.len(), so_far.len() - written.len(), buf));
            }
            diff(&so_far[..written.len().min(so_far.len())], &written).map_err(|e| format!("after call {} the file does not hold the smallest elements: {}", i, e))?;
            o.push(written.len().to_string());
        }
        w.close().map_err(|e| format!("close failed: {:#}", e))?;
        check_output(&p, &sorted(elements_of(&cs)), block)?;
        Ok(o.join(","))
    });
}

pub fn c19(ctx: &mut Ctx) {
    for (buf, block, c) in [
        (0usize, 1usize, "n1 / n2"),
        (0, 2, "[n1 n2 n3] / n4"),
        (1, 1, "[n3 n2 n1] / n4"),
        (2, 1, "[n4 n3 n2 n1]"),
        (1, 2, "n1 / n2 / w1"),
        (2, 2, "[w1 n2 n1 !] / [r1 w2]"),
        (0, 8, "[n1 w1 r1]"),
        (1, 8, "[n1 w1 r1] / r2"),
    ] {
        held(ctx, &format!("all schedules buffer {} block {} calls {}", buf, block, c), buf, block, calls(c), Mode::All);
    }
    // list lengths
    let kinds: [fn(i64) -> El; 3] = [El::node, El::way, El::rel];
    for buf in [0usize, 1, 2, 3, 5, 8] {
        for block in [1usize, 2, 3, 8, 8000] {
            for a in [0usize, 1, 2, 3, 5, 9, 17] {
                for b in [0usize, 1, 2, 3, 7] {
                    for mix in [1usize, 2, 3] {
                        let mut v = vec![];
                        for i in 0..a + b {
                            v.push(kinds[if mix == 1 { 0 } else { (i * mix / (a + b)).min(2) }](i as i64 + 1));
                        }
                        let (x, y) = v.split_at(a);
                        let cs = vec![Call::Many(x.to_vec()), Call::Many(y.iter().rev().cloned().collect())];
                        if displacement(&elements_of(&cs)) > restorable(buf, block) && displacement(y) > 0 && b > 1 {
                            // keep the list in order where the buffer may be too small
                            let cs = vec![Call::Many(x.to_vec()), Call::Many(y.to_vec())];
                            held(ctx, &format!("lists buffer {} block {} lengths {} {} kinds {}", buf, block, a, b, mix), buf, block, cs, Mode::One);
                        } else {
                            held(ctx, &format!("lists buffer {} block {} lengths {} {} kinds {} reversed", buf, block, a, b, mix), buf, block, cs, Mode::One);
                        }
                    }
                }
            }
            for n in [1i64, 2, 5, 12] {
                held(ctx, &format!("single calls buffer {} block {} count {}", buf, block, n), buf, block, (1..=n).map(|i| Call::One(kinds[(3 * i / (n + 1)).min(2) as usize](i))).collect(), Mode::One);
                held(ctx, &format!("single calls and lists buffer {} block {} count {}", buf, block, n), buf, block, (1..=n).flat_map(|i| [Call::One(El::node(100 * i)), Call::Many((1..n).map(|j| El::node(100 * i + j)).collect())]).collect(), Mode::One);
            }
        }
    }
    for (buf, block, n) in [(8000usize, 8000usize, 30_000i64), (100, 8000, 20_000), (16_000, 100, 30_000), (7, 100, 2_000), (0, 1, 300), (50, 1, 600)] {
        let all: Vec<El> = (1..=n).map(El::node).collect();
        for chunk in [1usize, 7, 8000, 100_000] {
            if n as usize / chunk > 40 {
                continue;
            }
            held(ctx, &format!("long buffer {} block {} elements {} lists of {}", buf, block, n, chunk), buf, block, all.chunks(chunk).map(|c| Call::Many(c.to_vec())).collect(), Mode::One);
        }
    }
}
