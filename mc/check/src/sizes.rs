//! C33: elements, texts, lists and blocks of every size class, by every path.
use crate::conv;
use crate::dump;
use crate::effects::caught;
use crate::inputs::KINDS;
use crate::par::{self, scenario, Mode};
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Body, Group, Header};
use oracle::scratch::Scratch;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use std::path::Path;
use std::sync::{Arc, Mutex};

const MIB: usize = 1 << 20;

/// A text of exactly `n` bytes whose characters are of all lengths, some of them special to the
/// formats. Its parts differ, whatever their distance, and so do texts of different `seed`.
fn text(n: usize, seed: usize) -> String {
    let palette = ["a", "é", "\\", "€", "\n", "b", "😀", "\t", "N", " ", "\"", ","];
    let mut s = String::with_capacity(n);
    let mut x = seed as u64 * 77 + 1;
    while s.len() < n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let c = palette[(x >> 33) as usize % palette.len()];
        s.push_str(if s.len() + c.len() <= n { c } else { "x" });
    }
    s
}

/// Texts that differ at their start and are hard to compress
fn noise(n: usize, seed: usize) -> String {
    let mut s = format!("{}:", seed);
    let mut x = seed as u64 * 977 + 5;
    while s.len() < n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s.push((33 + (x >> 40) % 90) as u8 as char);
    }
    s.truncate(n);
    s
}

const WHAT: [&str; 8] = ["tags", "key", "value", "run", "user", "refs", "members", "role"];

fn fits(kind: Kind, what: &str) -> bool {
    match what {
        "refs" => kind == Kind::Way,
        "members" | "role" => kind == Kind::Relation,
        _ => true,
    }
}

fn sized(kind: Kind, id: i64, what: &str, n: usize) -> El {
    let mut e = El::of(kind, id).tag("k", "v");
    match what {
        "tags" => e.tags = (0..n).map(|i| (format!("k{}", i), format!("v{}", i * 7 % (n + 1)))).collect(),
        "key" => e.tags = vec![("a".into(), "b".into()), (text(n, 1), "c".into())],
        "value" => e.tags = vec![("a".into(), text(n, 2)), ("b".into(), "c".into())],
        "run" => e.tags = vec![("a".into(), "x".repeat(n)), ("b".into(), "c".into())],
        "user" => {
            e.user = text(n, 3);
            e.uid = 77;
            e.cs = 770;
        }
        "refs" => e.refs = (0..n as i64).map(|i| if i % 2 == 0 { i * 3 } else { (1 << 40) - i }).collect(),
        "members" => e.members = (0..n as i64).map(|i| (KINDS[i as usize % 3], i * i % 1_000_003 - 5, format!("role {}", i % 300))).collect(),
        _ => e.members = vec![(Kind::Node, 1, "x".into()), (Kind::Way, 2, text(n, 4)), (Kind::Node, 3, "y".into())],
    }
    e
}

/// The sized element between small ones of all kinds
fn among(e: &El) -> Vec<El> {
    let mut v: Vec<El> = KINDS.iter().flat_map(|k| [1i64, 1000].map(|i| El::of(*k, i).tag("name", "small"))).collect();
    v.push(e.clone());
    par::sorted(v)
}

fn err(e: anyhow::Error) -> String {
    format!("{:#}", e)
}

fn sequential(p: &Path, els: &[El], z: bool) -> Result<(), String> {
    seq::write(p, &[(true, els.to_vec())], z)?;
    par::check_output(p, els, 8000)?;
    diff(els, &seq::read(p)?)
}

/// With the parallel writer, read again by several threads
fn parallel(p: &Path, els: &[El], block: usize, z: bool) -> Result<(), String> {
    let _ = std::fs::remove_file(p);
    let mut w = ParallelWriter::from_file_info(2, block, p.to_path_buf(), FileInfo::default(), seq::compression(z)).map_err(err)?;
    w.write_header().map_err(err)?;
    for e in els {
        w.write_element(conv::to(e)).map_err(err)?;
    }
    w.close().map_err(err)?;
    par::check_output(p, els, block)?;
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    Reader::new(p)
        .map_err(err)?
        .parallel_for_each(2, move |e| {
            s2.lock().unwrap().extend(conv::from(&e));
            Ok(())
        })
        .map_err(err)?;
    let got = par::sorted(std::mem::take(&mut *seen.lock().unwrap()));
    diff(els, &got)
}

/// Files of others
fn foreign(p: &Path, els: &[El]) -> Result<(), String> {
    for how in 0..3 {
        let blocks: Vec<Block> = els
            .chunk_by(|a, b| a.kind == b.kind)
            .map(|v| {
                let mut b = match v[0].kind {
                    Kind::Node if how == 1 => Block::new(vec![Group::Nodes(v.to_vec(), Some(pbf::ALL))]),
                    _ => Block::of(v.to_vec()),
                };
                if how == 2 {
                    b.body = Body::Zlib;
                }
                b
            })
            .collect();
        std::fs::write(p, pbf::file(&Header::usual(), &blocks)).unwrap();
        diff(els, &seq::read(p)?)?;
    }
    Ok(())
}

fn dumped(s: &Scratch, els: &[El]) -> Result<(), String> {
    let (d, t) = (s.file("dump"), s.file("tmp"));
    let _ = std::fs::remove_dir_all(&d);
    let _ = std::fs::remove_dir_all(&t);
    dump::write(&d, els)?;
    let mut x = copy::parse_dump(&d)?;
    dump::normalise(&mut x);
    dump::current(&x, els)?;
    dump::same(els, &dump::read(&d, &t)?)?;
    let _ = std::fs::remove_dir_all(&d);
    copy::write_dump(&d, &copy::rows_of(els), &Layout::plain());
    dump::same(els, &dump::read(&d, &t)?)
}

fn judged(f: impl FnOnce() -> Result<(), String>) -> Out {
    match caught(f) {
        Err(e) => Out::Bad(e),
        Ok(Err(e)) => Out::Bad(e.chars().take(2000).collect()),
        Ok(Ok(())) => ok(true),
    }
}

fn sizes(ctx: &Ctx) -> Vec<usize> {
    let all = if ctx.thorough() { 1100 } else { 34 };
    let top = if ctx.thorough() { 20 } else { 17 };
    let mut v: Vec<usize> = (0..=all).collect();
    for k in 0..=top {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([100, 199, 200, 201, 254, 258, 300, 1000, 7999, 8000, 8001, 10_000]);
    v.sort();
    v.dedup();
    v
}

pub fn c33(ctx: &mut Ctx) {
    num_cpus::set(2);
    let s = Arc::new(Scratch::new());
    let p = s.file("o.osm.pbf");
    for n in sizes(ctx) {
        for kind in KINDS {
            for what in WHAT {
                if !fits(kind, what) {
                    continue;
                }
                let key = format!("{:?} with {} of {}", kind, what, n);
                let make = || among(&sized(kind, 500, what, n));
                for z in [false, true] {
                    ctx.case(&format!("{} written sequentially compressed {}", key, z), || judged(|| sequential(&p, &make(), z)));
                    let (s2, q) = (s.clone(), s.file("par.osm.pbf"));
                    scenario(ctx, &format!("{} written in parallel compressed {}", key, z), Mode::One, 1, move |_| {
                        let _ = &s2;
                        parallel(&q, &among(&sized(kind, 500, what, n)), if z { 8000 } else { 1 }, z).map(|_| "same".to_string()).map_err(|e| e.chars().take(2000).collect())
                    });
                }
                ctx.case(&format!("{} in the file of another program", key), || judged(|| foreign(&p, &make())));
                ctx.case(&format!("{} in a dump", key), || judged(|| dumped(&s, &make())));
            }
        }
    }
    many(ctx, &s);
    users(ctx, &s);
    lengths(ctx, &s);
    blocks(ctx, &s);
}

/// Small elements of one kind, with one of another kind on each side
fn row_of(kind: Kind, n: usize) -> Vec<El> {
    let mut v: Vec<El> = (1..=n as i64).map(|i| El::of(kind, i * 3)).collect();
    v.extend(KINDS.iter().filter(|k| **k != kind).map(|k| El::of(*k, 7)));
    par::sorted(v)
}

/// What every way of reading says about a file of these blocks
fn read_all(p: &Path, els: &[El], tasks: usize) -> Result<(), String> {
    let open = || Reader::new(p).map_err(err);
    let want = KINDS.map(|k| els.iter().filter(|e| e.kind == k).count() as i64);
    let (a, b, c) = open()?.count_objects().map_err(err)?;
    if [a, b, c] != want {
        return Err(format!("counted {:?} instead of {:?}", [a, b, c], want));
    }
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    open()?
        .parallel_for_each(tasks, move |e| {
            s2.lock().unwrap().extend(conv::from(&e));
            Ok(())
        })
        .map_err(err)?;
    let got = par::sorted(std::mem::take(&mut *seen.lock().unwrap()));
    diff(els, &got)
}

/// Files of so many elements, in blocks of one element, of 8000 and in a single one
fn lengths(ctx: &mut Ctx, s: &Arc<Scratch>) {
    let p = s.file("o.osm.pbf");
    let top = if ctx.thorough() { 20 } else { 17 };
    let mut counts: Vec<usize> = (3..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    counts.extend([7999, 8000, 8001, 15_999, 16_000, 16_001, 100_000]);
    counts.sort();
    for n in counts {
        for kind in KINDS {
            if kind != Kind::Node && n > 16_001 && !(65_535..=65_537).contains(&n) && !ctx.thorough() {
                continue;
            }
            for per in [1usize, 8000, n] {
                let key = format!("{} {:?}s in blocks of {}", n, kind, per);
                if n > 1 << 18 && per != 8000 {
                    continue;
                }
                let file = move |p: &Path| {
                    let els = row_of(kind, n);
                    let blocks: Vec<Block> = els.chunk_by(|a, b| a.kind == b.kind).flat_map(|v| v.chunks(per)).map(|v| Block::of(v.to_vec())).collect();
                    std::fs::write(p, pbf::file(&Header::usual(), &blocks)).unwrap();
                    els
                };
                ctx.case(&format!("{} read sequentially", key), || {
                    judged(|| {
                        let els = file(&p);
                        diff(&els, &seq::read(&p)?)
                    })
                });
                let (q, s2) = (s.file("par.osm.pbf"), s.clone());
                scenario(ctx, &format!("{} counted and read in parallel", key), Mode::One, 1, move |_| {
                    let _ = &s2;
                    let els = file(&q);
                    read_all(&q, &els, 2).map(|_| "same".to_string())
                });
            }
            for per in [1usize, 8000] {
                if n > 1 << 18 && per != 8000 {
                    continue;
                }
                let (q, s2) = (s.file("par.osm.pbf"), s.clone());
                scenario(ctx, &format!("{} {:?}s written in parallel in blocks of {}", n, kind, per), Mode::One, 1, move |_| {
                    let _ = &s2;
                    parallel(&q, &row_of(kind, n), per, false).map(|_| "same".to_string()).map_err(|e| e.chars().take(2000).collect())
                });
            }
            ctx.case(&format!("{} {:?}s written sequentially", n, kind), || judged(|| sequential(&p, &row_of(kind, n), false)));
            ctx.case(&format!("{} {:?}s in a dump", n, kind), || judged(|| dumped(s, &row_of(kind, n))));
        }
    }
}

/// Blocks in which this many different texts occur
fn many(ctx: &mut Ctx, s: &Arc<Scratch>) {
    let p = s.file("o.osm.pbf");
    for texts in [2usize, 127, 128, 129, 8000, 16_383, 16_384, 16_385, 65_535, 65_536, 65_537, 100_000] {
        for kind in KINDS {
            let make = || -> Vec<El> {
                let per = texts.div_ceil(4000).max(1);
                let count = texts.div_ceil(per);
                let mut els: Vec<El> = (0..count)
                    .map(|i| {
                        let mut e = El::of(kind, i as i64 + 1);
                        e.user = format!("user {}", i % 50);
                        e.uid = i as i32 % 50;
                        e.cs = i as i64 % 50;
                        for j in 0..per {
                            e = e.tag(&format!("k{}", j), &format!("{} of {}", j, i));
                        }
                        e
                    })
                    .collect();
                // some of the texts occur again behind all the others: near every power of two and at the end
                let mut again = El::of(kind, count as i64 + 1);
                (again.user, again.uid, again.cs) = ("user 0".to_string(), 0, 0);
                let mut at: Vec<usize> = (0..18).flat_map(|k| [1usize << k, (1 << k) + 1, (1usize << k) - 1]).chain([texts - 1, texts - 2]).filter(|i| *i < texts).collect();
                at.sort();
                at.dedup();
                for i in at {
                    let t = format!("{} of {}", i % per, i / per);
                    again = again.tag(&t, &t);
                }
                els.push(again);
                els
            };
            for z in [false, true] {
                ctx.case(&format!("{:?}s of {} texts written compressed {}", kind, texts, z), || judged(|| sequential(&p, &make(), z)));
            }
            ctx.case(&format!("{:?}s of {} texts in the file of another program", kind, texts), || judged(|| foreign(&p, &make())));
            ctx.case(&format!("{:?}s of {} texts in a dump", kind, texts), || judged(|| dumped(s, &make())));
        }
    }
}

/// So many users and changesets, which the dump writer and reader look up by their numbers
fn users(ctx: &mut Ctx, s: &Arc<Scratch>) {
    let top = if ctx.thorough() { 17 } else { 14 };
    let mut counts: Vec<usize> = (0..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > 0).collect();
    counts.extend([100, 1000, 10_000]);
    counts.sort();
    counts.dedup();
    for n in counts {
        for order in ["rising", "falling", "mixed", "spread"] {
            ctx.case(&format!("{} users and changesets, their numbers {}, in a dump", n, order), || {
                judged(|| {
                    let number = |i: usize| match order {
                        "rising" => i + 1,
                        "falling" => n - i,
                        // coprime to all sizes, or nearly
                        "mixed" => i * 7919 % n + 1,
                        _ => i * 104_729 + 1,
                    };
                    let els: Vec<El> = (0..n)
                        .map(|i| {
                            let mut e = El::of(KINDS[3 * i / n], i as i64 + 1);
                            // most users have one changeset, some have two
                            e.cs = number(i) as i64 * 3;
                            e.uid = if i % 10 == 9 { number(i - 1) } else { number(i) } as i32;
                            e.user = format!("user {}", e.uid);
                            e
                        })
                        .collect();
                    let els = dump::consistent(els);
                    dumped(s, &els)
                })
            });
        }
    }
}

/// The format does not allow for blocks of 32 MiB. Elements that together are larger go to several
/// blocks; a single one that is larger is refused.
fn blocks(ctx: &mut Ctx, s: &Arc<Scratch>) {
    let k = MIB / 1024;
    let mut shapes: Vec<(String, Kind, Vec<usize>)> = vec![];
    let kib = |n: usize| n * 1024;
    for kind in KINDS {
        for (n, each) in [(255usize, kib(64)), (256, kib(64)), (257, kib(64)), (511, kib(64)), (512, kib(64)), (513, kib(64)), (1030, kib(64)), (2, 17 * MIB), (2, 31 * MIB), (3, 15 * MIB), (4, 8 * MIB)] {
            if kind != Kind::Node && (n == 256 || n == 512) {
                continue;
            }
            shapes.push((format!("{} {:?}s of {} KiB", n, kind, each / k), kind, vec![each; n]));
        }
        shapes.push((format!("{:?}s small, of 31 MiB, small", kind), kind, vec![10, 31 * MIB, 10]));
        shapes.push((format!("{:?}s of 31 MiB, small, small", kind), kind, vec![31 * MIB, 10, 10, 10]));
        shapes.push((format!("{:?}s small, small, of 31 MiB", kind), kind, vec![10, 10, 10, 31 * MIB]));
        shapes.push((format!("{:?} of 16 MiB", kind), kind, vec![16 * MIB]));
        shapes.push((format!("{:?} of 31 MiB", kind), kind, vec![31 * MIB]));
        shapes.push((format!("7999 {:?}s of 5 KiB", kind), kind, vec![kib(5); 7999]));
    }
    for (name, kind, lens) in shapes {
        let make = move || -> Vec<El> {
            let mut v: Vec<El> = lens.iter().enumerate().map(|(i, n)| El::of(kind, i as i64 + 1).tag("t", &noise(*n, i))).collect();
            v.push(El::of(Kind::Relation, 1_000_000));
            v
        };
        for z in [false, true] {
            let (m, p) = (make.clone(), s.file("o.osm.pbf"));
            ctx.case(&format!("{} written sequentially compressed {}", name, z), || judged(|| sequential(&p, &m(), z)));
            let (m, q, s2) = (make.clone(), s.file("par.osm.pbf"), s.clone());
            scenario(ctx, &format!("{} written in parallel compressed {}", name, z), Mode::One, 1, move |_| {
                let _ = &s2;
                parallel(&q, &m(), 8000, z).map(|_| "same".to_string()).map_err(|e| e.chars().take(2000).collect())
            });
        }
    }
    // many references
    for z in [false, true] {
        let make = || -> Vec<El> {
            (1..=1500)
                .map(|i| {
                    let mut e = El::way(i);
                    e.refs = (0..6000i64).map(|j| if j % 2 == 0 { i + j } else { (1 << 36) + j * 77 }).collect();
                    e
                })
                .collect()
        };
        let p = s.file("o.osm.pbf");
        ctx.case(&format!("1500 ways of 6000 references compressed {}", z), || judged(|| sequential(&p, &make(), z)));
    }
    // too large for any block
    for (i, n) in [32 * MIB, 32 * MIB + 1, 33 * MIB, 70 * MIB].into_iter().enumerate() {
        for z in [false, true] {
            for front in [0usize, 2] {
                for behind in [0usize, 2] {
                    if n == 70 * MIB && (front != 0 || z) {
                        continue;
                    }
                    let make = move || -> Vec<El> {
                        let lens: Vec<usize> = [vec![10; front], vec![n], vec![10; behind]].concat();
                        lens.iter().enumerate().map(|(j, n)| El::node(j as i64 + 1).tag("t", &noise(*n, i))).collect()
                    };
                    let key = format!("{} bytes in one element after {} and before {} compressed {}", n, front, behind, z);
                    let p = s.file("o.osm.pbf");
                    ctx.case(&format!("{} written sequentially", key), || {
                        judged(|| match seq::write(&p, &[(true, make())], z) {
                            Ok(()) => Err("an element too large for any block was accepted".into()),
                            Err(_) => Ok(()),
                        })
                    });
                    let (q, s2) = (s.file("par.osm.pbf"), s.clone());
                    scenario(ctx, &format!("{} written in parallel", key), Mode::One, 1, move |_| {
                        let _ = &s2;
                        match parallel(&q, &make(), 8000, z) {
                            Ok(()) => Err("an element too large for any block was accepted".into()),
                            Err(e) if e.starts_with("output") => Err(e),
                            Err(_) => Ok("refused".into()),
                        }
                    });
                }
            }
        }
    }
}
