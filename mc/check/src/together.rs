//! C34: operations at the same time, and operations within the callback of another.
use crate::conv;
use crate::dump;
use crate::effects::caught;
use crate::files;
use crate::io::RELATIVE;
use crate::par::{self, ordered, scenario, Mode, Order};
use crate::places::Back;
use crate::reuse::{data, judge_file, read_dump, read_file, write_file};
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use osm_io::osm::pbf::reader::Reader;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

/// r p c: a file read by iteration, in parallel, counted with its bounding box
/// w q: a file written by the sequential and the parallel writer
/// d e: a dump written, read
const OPS: [char; 7] = ['r', 'p', 'c', 'w', 'q', 'd', 'e'];

fn reads(op: char) -> bool {
    "rpce".contains(op)
}

/// One side's places and data
#[derive(Clone)]
struct Side {
    /// a file and a dump with the data, to be read
    file: PathBuf,
    dump: PathBuf,
    /// what is written: in a directory of its own, or with its own names beside the others
    out: PathBuf,
    own: String,
    which: char,
}

impl Side {
    fn new(s: &Scratch, who: usize, which: char) -> Side {
        Side::at(&s.file("."), who, which)
    }

    fn at(base: &Path, who: usize, which: char) -> Side {
        let file = base.join(format!("in-{}.osm.pbf", which));
        let dump = base.join(format!("in-{}", which));
        write_file(&file, which, false, true).unwrap();
        copy::write_dump(&dump, &copy::rows_of(&data(which)), &Layout::plain());
        Side { file, dump, out: base.join(format!("out-{}", who)), own: String::new(), which }
    }

    fn beside(s: &Scratch, who: usize, which: char) -> Side {
        Side { out: s.file("out"), own: who.to_string(), ..Side::new(s, who, which) }
    }

    fn clean(&self) {
        let _ = std::fs::remove_dir_all(&self.out);
        std::fs::create_dir_all(&self.out).unwrap();
    }

    fn place(&self, name: &str) -> PathBuf {
        self.out.join(format!("{}{}", self.own, name))
    }

    fn run(&self, op: char) -> Result<(), String> {
        let p = self.place("o.osm.pbf");
        match op {
            'w' => write_file(&p, self.which, false, true),
            'q' => write_file(&p, self.which, true, true),
            'd' => dump::write(&self.place("dump"), &data(self.which)),
            'e' => read_dump(&self.dump, &self.place("tmp"), self.which, false),
            _ => read_file(&self.file, self.which, op),
        }
    }

    /// of what was written, once all is done
    fn judge(&self, op: char) -> Result<(), String> {
        match op {
            'w' | 'q' => judge_file(&self.place("o.osm.pbf"), self.which),
            'd' => {
                let d = self.place("dump");
                let mut x = copy::parse_dump(&d)?;
                dump::normalise(&mut x);
                dump::current(&x, &data(self.which))?;
                dump::conforms(&x, &data(self.which))?;
                read_dump(&d, &self.place("tmp"), self.which, false)
            }
            _ => Ok(()),
        }
    }
}

/// The current directory until dropped; accesses by relative paths are scheduling points as others are
struct Here(#[allow(dead_code)] Back);

impl Here {
    fn at(p: &Path) -> Here {
        RELATIVE.store(true, SeqCst);
        Here(Back::to(p))
    }
}

impl Drop for Here {
    fn drop(&mut self) {
        RELATIVE.store(false, SeqCst);
    }
}

fn run(sides: &[(Side, char)]) -> Result<String, String> {
    let mut hs = vec![];
    for (s, op) in sides.iter().cloned() {
        hs.push(vstd::thread::spawn(move || caught(|| s.run(op)).and_then(|r| r)));
    }
    let mut all = Ok(());
    for (h, (_, op)) in hs.into_iter().zip(sides) {
        let r = h.join().map_err(|p| format!("panic: {}", payload(&p))).and_then(|r| r);
        all = all.and(r.map_err(|x| format!("operation {}: {}", op, x)));
    }
    all?;
    for (s, op) in sides {
        s.judge(*op).map_err(|x| format!("operation {}: {}", op, x))?;
    }
    Ok("as alone".into())
}

/// Every k: one thread gives way after k steps to the other, which goes on to its end
fn turns(most: usize) -> Vec<Order> {
    let mut v = vec![Order::default()];
    for t in [vec![1, 1, 1], vec![1, 2, 3], vec![1, 5, 2], vec![1, 40, 40]] {
        v.push(Order { priority: vec![], turns: t });
    }
    for k in 1..=most {
        v.push(Order { priority: vec![], turns: vec![1, k, 100_000] });
        v.push(Order { priority: vec![], turns: vec![1, 100_000, k] });
    }
    v
}

pub fn c34(ctx: &mut Ctx) {
    num_cpus::set(2);
    let s = Arc::new(Scratch::new());
    let most = if ctx.thorough() { 400 } else { 120 };
    for x in OPS {
        for y in OPS {
            if y < x {
                continue;
            }
            for how in ["of different inputs", "beside each other", "of the same input"] {
                let same = how == "of the same input";
                if same && !(reads(x) && reads(y)) || how == "beside each other" && (x < 'd' || "pr".contains(x) || "pr".contains(y)) {
                    continue;
                }
                for o in turns(most) {
                    let key = format!("{} and {} at the same time, {}, {:?}", x, y, how, o.turns);
                    let s = s.clone();
                    ordered(ctx, &key, Mode::One, 1, o, move |_| {
                        let sides = match how {
                            "beside each other" => [(Side::beside(&s, 0, 'a'), x), (Side::beside(&s, 1, 'b'), y)],
                            _ => [(Side::new(&s, 0, 'a'), x), (Side::new(&s, 1, if same { 'a' } else { 'b' }), y)],
                        };
                        sides.iter().for_each(|x| x.0.clean());
                        run(&sides)
                    });
                }
            }
        }
    }
    // by relative paths
    for x in OPS {
        for y in OPS {
            if y < x {
                continue;
            }
            for o in turns(most / 4) {
                let s = s.clone();
                ordered(ctx, &format!("{} and {} at the same time, by relative paths, {:?}", x, y, o.turns), Mode::One, 1, o, move |_| {
                    let _b = Here::at(&s.file("."));
                    let sides = [(Side::at(Path::new(""), 0, 'a'), x), (Side::at(Path::new("."), 1, 'b'), y)];
                    sides.iter().for_each(|x| x.0.clean());
                    run(&sides)
                });
            }
        }
    }
    // three at a time
    for x in OPS {
        for y in OPS {
            for z in OPS {
                if !(x <= y && y <= z) {
                    continue;
                }
                for t in [vec![1, 1, 1, 1], vec![1, 3, 5, 2], vec![1, 20, 7, 13]] {
                    let s = s.clone();
                    num_cpus::set(1);
                    ordered(ctx, &format!("{}, {} and {} at the same time, {:?}", x, y, z, t), Mode::One, 1, Order { priority: vec![], turns: t }, move |_| {
                        let sides = [(Side::new(&s, 0, 'a'), x), (Side::new(&s, 1, 'b'), y), (Side::new(&s, 2, 'c'), z)];
                        sides.iter().for_each(|x| x.0.clean());
                        run(&sides)
                    });
                }
            }
        }
    }
    within(ctx, &s);
    num_cpus::set(2);
    small(ctx);
}

/// An operation within the callback of parallel iteration, for each element or each sentinel
fn within(ctx: &mut Ctx, s: &Arc<Scratch>) {
    for op in OPS {
        for tasks in [1usize, 2, 3] {
            for sentinels in [false, true] {
                for own in [false, true] {
                    for o in turns(2) {
                        let s = s.clone();
                        let key = format!("{} within the callback of {} tasks, at {}, {} input, {:?}", op, tasks, if sentinels { "sentinels" } else { "elements" }, if own { "the same" } else { "another" }, o.turns);
                        ordered(ctx, &key, Mode::One, 1, o, move |_| {
                            let outer = Side::new(&s, 0, 'a');
                            let r = Reader::new(&outer.file).map_err(|e| format!("opening failed: {:#}", e))?;
                            let inner: Arc<Vec<Side>> = Arc::new((0..20).map(|i| Side::new(&s, i + 1, if own { 'a' } else { 'b' })).collect());
                            let next = Arc::new(Mutex::new(0usize));
                            let seen = Arc::new(Mutex::new(vec![]));
                            let (s2, i2, n2) = (seen.clone(), inner.clone(), next.clone());
                            r.parallel_for_each(tasks, move |e| {
                                let x = conv::from(&e);
                                if x.is_none() == sentinels {
                                    let i = {
                                        let mut n = n2.lock().unwrap();
                                        *n += 1;
                                        *n - 1
                                    };
                                    // the scheduler has room for so many threads
                                    if i < if op == 'q' { 7 } else { 4 } {
                                        i2[i].clean();
                                        i2[i].run(op).and_then(|_| i2[i].judge(op)).map_err(|e| anyhow::anyhow!("inner operation {}: {}", i, e))?;
                                    }
                                }
                                s2.lock().unwrap().extend(x);
                                Ok(())
                            })
                            .map_err(|e| format!("failed: {:#}", e))?;
                            let got = par::sorted(seen.lock().unwrap().clone());
                            diff(&par::sorted(data('a')), &got)?;
                            let n = *next.lock().unwrap();
                            Ok(format!("{} inner operations", n))
                        });
                    }
                }
            }
        }
    }
}

/// All schedules of two small parallel iterations or counts, by one shared reader, two of one file, or of two files
fn small(ctx: &mut Ctx) {
    for layouts in [["n", "w"], ["n|n", "w"], ["n|w", "r"], ["nn|w|r", "n|n"]] {
            if layouts[0].len() > 3 && !ctx.thorough() {
                continue;
            }
        for how in ["one reader", "one file", "two files"] {
            for ops in ["pp", "pc", "pr", "cc"] {
                let s = Scratch::new();
                let files: Vec<PathBuf> = (0..2).map(|i| s.write(&format!("in{}.osm.pbf", i), &files::file(layouts[i]))).collect();
                let want: Vec<Vec<El>> = layouts.iter().map(|l| files::elements(&files::blocks(l))).collect();
                let index = move |i: usize| if how == "two files" { i } else { 0 };
                scenario(ctx, &format!("{} by two threads, {}, blocks {:?}", ops, how, layouts), Mode::All, 2_000_000, move |begin| {
                    let _ = &s;
                    num_cpus::set(1);
                    let open = |p: &Path| Reader::new(p).map(Arc::new).map_err(|e| format!("opening failed: {:#}", e));
                    let first = open(&files[0])?;
                    let rs = [first.clone(), if how == "one reader" { first } else { open(&files[index(1)])? }];
                    begin();
                    let mut hs = vec![];
                    for (i, op) in ops.chars().enumerate() {
                        let r = rs[i].clone();
                        let want = want[index(i)].clone();
                        hs.push(vstd::thread::spawn(move || caught(|| one(&r, op, &want)).and_then(|r| r)));
                    }
                    for h in hs {
                        h.join().map_err(|p| format!("panic: {}", payload(&p)))??;
                    }
                    Ok("as alone".into())
                });
            }
        }
    }
    num_cpus::set(2);
}

fn one(r: &Reader, op: char, want: &[El]) -> Result<(), String> {
    match op {
        'p' => {
            let seen = Arc::new(Mutex::new(vec![]));
            let s2 = seen.clone();
            r.parallel_for_each(1, move |x| {
                s2.lock().unwrap().extend(conv::from(&x));
                Ok(())
            })
            .map_err(|e| format!("failed: {:#}", e))?;
            let got = par::sorted(seen.lock().unwrap().clone());
            diff(&par::sorted(want.to_vec()), &got)
        }
        'c' => {
            let n = |k| want.iter().filter(|x| x.kind == k).count() as i64;
            let got = r.count_objects().map_err(|e| format!("failed: {:#}", e))?;
            if got != (n(Kind::Node), n(Kind::Way), n(Kind::Relation)) {
                return Err(format!("counted {:?}", got));
            }
            Ok(())
        }
        _ => {
            let got: Vec<El> = r.elements().map_err(|e| format!("failed: {:#}", e))?.filter_map(|x| conv::from(&x)).collect();
            diff(want, &got)
        }
    }
}
