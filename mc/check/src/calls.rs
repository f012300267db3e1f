//! C29: every order of calls on the writers, with and without failures of the operating system:
//! whenever close reports success, the output is valid and holds what the successful calls handed over.
use crate::conv;
use crate::dump;
use crate::effects::{caught, plan, Fault};
use crate::io::{self, Op};
use crate::par::{self, scenario, Mode};
use crate::seq;
use oracle::copy;
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// all words of 1 to `max` letters
fn words(letters: &[char], max: usize) -> Vec<String> {
    let mut all = vec![];
    let mut last = vec![String::new()];
    for _ in 0..max {
        last = last.iter().flat_map(|w| letters.iter().map(move |l| format!("{}{}", w, l))).collect();
        all.extend(last.clone());
    }
    all
}

trait Target {
    /// the calls other than close; elements are new ones
    fn call(&mut self, c: char, v: Vec<El>) -> Result<(), String>;
    fn close(&mut self) -> Result<(), String>;
}

fn err<T>(r: Result<T, anyhow::Error>) -> Result<T, String> {
    r.map_err(|e| format!("{:#}", e))
}

impl Target for Writer {
    fn call(&mut self, c: char, mut v: Vec<El>) -> Result<(), String> {
        match c {
            'h' => err(self.write_header()),
            'o' | 'w' | 'r' => err(self.write_element(conv::to(&v.pop().unwrap()))),
            's' => err(self.write_element(Element::Sentinel)),
            _ => err(self.write_elements(conv::all(&v))),
        }
    }
    fn close(&mut self) -> Result<(), String> {
        err(Writer::close(self))
    }
}

impl Target for ParallelWriter {
    fn call(&mut self, c: char, mut v: Vec<El>) -> Result<(), String> {
        match c {
            'h' => err(self.write_header()),
            'o' | 'w' | 'r' => err(self.write_element(conv::to(&v.pop().unwrap()))),
            's' => err(self.write_element(Element::Sentinel)),
            _ => err(self.write_elements(conv::all(&v))),
        }
    }
    fn close(&mut self) -> Result<(), String> {
        err(ParallelWriter::close(self))
    }
}

impl Target for DumpWriter {
    fn call(&mut self, _: char, v: Vec<El>) -> Result<(), String> {
        let e = v.first().map(conv::to).unwrap_or(Element::Sentinel);
        err(self.write_element(e))
    }
    fn close(&mut self) -> Result<(), String> {
        err(DumpWriter::close(self))
    }
}

/// What call number `i` hands over: o one node, w one way, r one relation, b one that does not fit a buffer, l three, e none, m more than a block
fn handed(c: char, i: usize, many: usize) -> Vec<El> {
    let at = 10_000 * (i as i64 + 1);
    let n = match c {
        'o' | 'b' | 'w' | 'r' => 1,
        'l' => 3,
        'm' => many,
        _ => 0,
    };
    (0..n as i64)
        .map(|k| {
            let mut e = match c {
                'w' => El::way(at + k),
                'r' => El::rel(at + k),
                _ => El::node(at + k),
            };
            e.user = "u".into();
            if c == 'b' {
                e = e.tag("k", &"x".repeat(10_000));
            }
            quantised(&e)
        })
        .collect()
}

/// Makes the calls of a word; after each successful close the output is judged.
/// A panic is a refusal, too. Returns what the calls said.
fn follow(t: &mut dyn Target, word: &str, many: usize, judge: &dyn Fn(&[El], bool) -> Result<(), String>) -> Result<String, String> {
    let mut done: Vec<El> = vec![];
    let mut header = false;
    let mut said = String::new();
    for (i, c) in word.chars().enumerate() {
        let r = if c == 'c' {
            caught(|| t.close())
        } else {
            let v = handed(c, i, many);
            let r = caught(|| t.call(c, v.clone()));
            if let Ok(Ok(())) = r {
                done.extend(v);
                header |= c == 'h';
            }
            r
        };
        match r {
            Ok(Ok(())) => {
                said.push('+');
                if c == 'c' {
                    io::undisturbed(|| judge(&done, header)).map_err(|e| format!("call {} ({}) succeeded, but {} (calls so far {})", i + 1, c, e, said))?;
                }
            }
            Ok(Err(_)) => said.push('-'),
            Err(_) => said.push('!'),
        }
    }
    Ok(said)
}

fn judge_file(p: &Path, want: &[El], header: bool, block: usize) -> Result<(), String> {
    if !header && want.is_empty() {
        // nothing was asked for: no file or one that nobody takes for a complete one
        return Ok(());
    }
    par::check_output(p, want, block)?;
    let r = Reader::new(p).map_err(|e| format!("the output cannot be opened: {:#}", e))?;
    let got: Vec<El> = r.elements().map_err(|e| format!("elements failed: {:#}", e))?.filter_map(|x| conv::from(&x)).collect();
    diff(want, &got)
}

fn judge_dump(d: &Path, t: &Path, want: &[El]) -> Result<(), String> {
    dump::same(want, &dump::read(d, t)?)?;
    let mut x = copy::parse_dump(d)?;
    dump::normalise(&mut x);
    dump::conforms(&x, want)?;
    dump::current(&x, want)
}

/// Every word that ends with a close; one case is a word, undisturbed and with each failing call of its run.
fn disturbed(ctx: &mut Ctx, key: &str, ops: &[Op], faults: &[Fault], limit: u64, run: &dyn Fn() -> Result<String, String>) {
    let (mut runs, mut hits) = (0, 0);
    ctx.case(key, || {
        io::set_plan(Some(Box::new(|_, _, _| io::Act::Go)));
        let r = caught(run);
        let n = io::counts();
        io::set_plan(None);
        runs += 1;
        let what = match r {
            Err(p) => return Out::Bad(p),
            Ok(Err(e)) => return Out::Bad(e),
            Ok(Ok(what)) => what,
        };
        for op in ops {
            let total = n[*op as usize];
            // the first and the last calls, where there are many
            for at in (0..total).filter(|at| *at < limit || *at + limit >= total) {
                for f in faults {
                    let fired = Arc::new(AtomicUsize::new(0));
                    io::set_plan(Some(plan(*op, at, *f, fired.clone())));
                    let r = caught(run);
                    io::set_plan(None);
                    runs += 1;
                    hits += (fired.load(Ordering::SeqCst) > 0) as u64;
                    let e = match r {
                        Err(p) => p,
                        Ok(Err(e)) => e,
                        Ok(Ok(_)) => continue,
                    };
                    return Out::Bad(format!("{:?} number {} {:?}: {}", op, at, f, e));
                }
            }
        }
        Out::Ok { nontrivial: true, what }
    });
    ctx.add("runs", runs);
    ctx.add("runs_hit_by_a_failure", hits);
}

const FAULTS: &[Fault] = &[Fault::Once(io::ENOSPC), Fault::Lasting(io::EIO), Fault::Torn(io::ENOSPC), Fault::Nothing];

fn sequential(ctx: &mut Ctx, s: &Scratch) {
    let p: PathBuf = s.file("o.osm.pbf");
    let deep = ctx.thorough();
    let mut all: Vec<(String, usize)> = vec![];
    for w in words(&['h', 'o', 'l', 'c'], if deep { 7 } else { 6 }) {
        all.push((w, 0));
    }
    for w in words(&['o', 'm', 'e', 's', 'c'], if deep { 5 } else { 4 }) {
        all.push((format!("h{}", w), 8001));
    }
    for w in words(&['o', 'w', 'r', 'c'], if deep { 6 } else { 5 }) {
        all.push((format!("h{}", w), 0));
    }
    for (w, many) in all {
        if !w.ends_with('c') {
            continue;
        }
        for z in [false, true] {
            if z && many == 0 && w.len() > 4 {
                continue;
            }
            let run = || {
                let _ = std::fs::remove_file(&p);
                let mut t = Writer::from_file_info(p.clone(), FileInfo::default(), seq::compression(z)).map_err(|e| format!("creation: {:#}", e))?;
                follow(&mut t, &w, many, &|want, header| judge_file(&p, want, header, 8000))
            };
            disturbed(ctx, &format!("sequential writer: {} {}", w, if z { "zlib" } else { "raw" }), &[Op::Write], FAULTS, 100, &run);
        }
    }
}

fn dumps(ctx: &mut Ctx, s: &Scratch) {
    let (d, t) = (s.file("dump"), s.file("tmp"));
    let mut all = words(&['o', 'b', 's', 'c'], if ctx.thorough() { 6 } else { 5 });
    all.extend(words(&['o', 'w', 'r', 'c'], if ctx.thorough() { 6 } else { 5 }).into_iter().filter(|w| w.contains('w') || w.contains('r')));
    for w in all {
        if !w.ends_with('c') || w.matches('s').count() > 1 {
            continue;
        }
        let run = || {
            for x in [&d, &t] {
                let _ = std::fs::remove_dir_all(x);
            }
            std::fs::create_dir_all(&t).unwrap();
            let mut x = DumpWriter::new(d.clone(), 0).map_err(|e| format!("creation: {:#}", e));
            match x.as_mut() {
                Ok(x) => follow(x, &w, 0, &|want, _| judge_dump(&d, &t, want)),
                Err(_) => Ok("not created".into()),
            }
        };
        disturbed(ctx, &format!("dump writer: {}", w), &[Op::Write], FAULTS, 100, &run);
    }
}

/// The parallel writer under every schedule
fn parallel(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    let mut all: Vec<(String, Option<(Op, u64, Fault)>)> = vec![];
    for w in words(&['h', 'o', 'c'], if ctx.thorough() { 5 } else { 4 }) {
        if w.ends_with('c') {
            all.push((w, None));
        }
    }
    for w in ["hlcc", "hocoe", "hlcsc", "hshc", "howrc", "hwcr", "hrcoc"] {
        all.push((w.to_string(), None));
    }
    for w in ["hocc", "hohocc", "hoococ", "hhocc"] {
        for at in 0..7 {
            for f in FAULTS {
                all.push((w.to_string(), Some((Op::Write, at, *f))));
            }
        }
    }
    for w in ["hocc", "hhocc", "hohocc", "hohc", "hhc"] {
        for f in [Fault::Once(io::EMFILE), Fault::Lasting(io::EIO)] {
            all.push((w.to_string(), Some((Op::Create, 0, f))));
        }
    }
    for (w, fault) in all {
        for (buf, block) in [(0, 1), (10, 2)] {
            let (s, w2) = (s.clone(), w.clone());
            let key = match &fault {
                None => format!("parallel writer: {} buffer {} block {}", w, buf, block),
                Some((op, at, f)) => format!("parallel writer: {} buffer {} block {}, {:?} {} {:?}", w, buf, block, op, at, f),
            };
            scenario(ctx, &key, Mode::All, 400_000, move |begin| {
                let p = par::out(&s);
                let _ = std::fs::remove_file(&p);
                let mut t = ParallelWriter::from_file_info(buf, block, p.clone(), FileInfo::default(), seq::compression(false)).map_err(|e| format!("creation: {:#}", e))?;
                if let Some((op, at, f)) = fault {
                    io::set_plan(Some(plan(op, at, f, Arc::new(AtomicUsize::new(0)))));
                }
                begin();
                let r = follow(&mut t, &w2, 0, &|want, header| judge_file(&p, want, header, block));
                io::set_plan(None);
                r
            });
        }
    }
}

pub fn c29(ctx: &mut Ctx) {
    let s = Scratch::new();
    sequential(ctx, &s);
    dumps(ctx, &s);
    parallel(ctx);
}
