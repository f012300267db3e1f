//! C27: histories of operations over the same places, and readers used in turn.
use crate::conv;
use crate::dump::{self, version};
use crate::inputs::KINDS;
use crate::par;
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::Header;
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// three versions of some objects, two users; the second set shares identifiers with the first
pub fn data(which: char) -> Vec<El> {
    let v = match which {
        'a' => {
            let mut v = vec![];
            for k in KINDS {
                v.push(version(k, 3, 1, 'f'));
                v.push(version(k, 3, 2, 'd'));
                v.push(version(k, 3, 3, 'f'));
                v.push(version(k, 12, 1, 'b'));
            }
            v
        }
        'b' => vec![version(Kind::Node, 3, 2, 'f'), version(Kind::Way, 12, 1, 'f'), version(Kind::Relation, 4, 1, 'd')],
        'c' => vec![version(Kind::Node, 1, 1, 'f'), version(Kind::Way, 1, 2, 'f'), version(Kind::Relation, 1, 1, 'f')],
        _ => vec![],
    };
    v.iter().map(quantised).collect()
}

fn header(which: char) -> Header {
    match which {
        'a' => Header { bbox: Some([-1_000_000_000, 2_000_000_000, 3_000_000_000, -4_000_000_000]), program: Some("the first".into()), rep_seq: Some(7), ..Header::usual() },
        'b' => Header { source: Some("x".into()), rep_url: Some("y".into()), ..Header::usual() },
        _ => Header { required: vec![], ..Header::usual() },
    }
}

fn info(which: char) -> FileInfo {
    seq::info(&header(which))
}

fn e<T>(what: &str, r: Result<T, anyhow::Error>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {:#}", what, e))
}

pub fn judge_file(p: &Path, which: char) -> Result<(), String> {
    par::check_output(p, &data(which), 8000)?;
    let (d, _) = par::decode(p)?;
    same_header(which, &d.header)
}

fn same_header(which: char, got: &Header) -> Result<(), String> {
    let want = header(which);
    if want != *got {
        return Err(format!("header {:?} instead of {:?}", got, want));
    }
    Ok(())
}

pub fn write_file(p: &Path, which: char, parallel: bool, close: bool) -> Result<(), String> {
    let z = seq::compression(which != 'b');
    if parallel {
        let mut w = e("creating the writer", ParallelWriter::from_file_info(20, 5, p.to_path_buf(), info(which), z))?;
        e("write_header", w.write_header())?;
        e("write_elements", w.write_elements(conv::all(&data(which))))?;
        e("close", w.close())
    } else {
        let mut w = e("creating the writer", Writer::from_file_info(p.to_path_buf(), info(which), z))?;
        e("write_header", w.write_header())?;
        e("write_elements", w.write_elements(conv::all(&data(which))))?;
        if close {
            e("close", w.close())?;
        }
        Ok(())
    }
}

pub fn read_file(p: &Path, which: char, how: char) -> Result<(), String> {
    let want = data(which);
    let r = e("opening", Reader::new(p))?;
    same_header(which, &seq::uninfo(r.info()))?;
    match how {
        'r' => {
            let got: Vec<El> = e("elements", r.elements())?.filter_map(|x| conv::from(&x)).collect();
            diff(&want, &got)
        }
        'p' => {
            let seen = Arc::new(Mutex::new(vec![]));
            let s2 = seen.clone();
            e(
                "parallel iteration",
                r.parallel_for_each(2, move |x| {
                    s2.lock().unwrap().extend(conv::from(&x));
                    Ok(())
                }),
            )?;
            let got = par::sorted(seen.lock().unwrap().clone());
            diff(&par::sorted(want), &got)
        }
        's' => {
            e("elements", r.elements())?.take(2).count();
            Ok(())
        }
        _ => {
            let n = |k| want.iter().filter(|x| x.kind == k).count() as i64;
            let got = e("counting", r.count_objects())?;
            if got != (n(Kind::Node), n(Kind::Way), n(Kind::Relation)) {
                return Err(format!("counted {:?}", got));
            }
            let b = e("bounding box", BoundingBoxCalculator::new(p).calc());
            let nodes: Vec<&El> = want.iter().filter(|x| x.kind == Kind::Node).collect();
            if !nodes.is_empty() {
                let b = b?;
                let (mut lo, mut hi) = ((i64::MAX, i64::MAX), (i64::MIN, i64::MIN));
                for x in nodes {
                    lo = (lo.0.min(x.lon), lo.1.min(x.lat));
                    hi = (hi.0.max(x.lon), hi.1.max(x.lat));
                }
                let r = |x: f64| (x * 1e9).round() as i64;
                if (r(b.left()), r(b.bottom()), r(b.right()), r(b.top())) != (lo.0, lo.1, hi.0, hi.1) {
                    return Err(format!("bounding box {:?}", b));
                }
            }
            Ok(())
        }
    }
}

/// operations on one file:
/// a b e: written, A B: written in parallel, x: written but never closed, g: overwritten by something
/// else, r p c: read, s: read in part
fn on_file(p: &Path, ops: &[char]) -> Result<(), String> {
    let _ = std::fs::remove_file(p);
    let mut now = None;
    for (i, o) in ops.iter().enumerate() {
        let r = match o {
            'a' | 'b' | 'e' | 'A' | 'B' => {
                let w = o.to_ascii_lowercase();
                now = Some(w);
                write_file(p, w, o.is_uppercase(), true).and_then(|_| judge_file(p, w))
            }
            'x' => {
                now = None;
                write_file(p, 'a', false, false)
            }
            'g' => {
                now = None;
                std::fs::write(p, vec![0xffu8; 100_000]).unwrap();
                Ok(())
            }
            how => match now {
                Some(w) => read_file(p, w, *how),
                None => {
                    // nothing is asked of it
                    let _ = std::panic::catch_unwind(|| Reader::new(p).map(|r| r.elements().map(|i| i.count())).is_ok());
                    Ok(())
                }
            },
        };
        r.map_err(|x| format!("operation {} ({}): {}", i + 1, o, x))?;
    }
    Ok(())
}

struct Dumps {
    /// written by osm-io
    d: PathBuf,
    /// by another program
    foreign: [PathBuf; 2],
    t: PathBuf,
}

pub fn read_dump(dir: &Path, t: &Path, which: char, part: bool) -> Result<(), String> {
    let it = e("elements", dump::open(dir, t)?.elements())?;
    if part {
        it.take(5).count();
        Ok(())
    } else {
        dump::same(&data(which), &dump::drain(it)?)
    }
}

fn each_file(d: &Path, f: &mut dyn FnMut(&Path)) {
    if let Ok(r) = std::fs::read_dir(d) {
        for x in r {
            let x = x.unwrap().path();
            if x.is_dir() {
                each_file(&x, f)
            } else {
                f(&x)
            }
        }
    }
}

/// operations on dumps:
/// a b e: written into the one directory, x: written but never closed, g: all its files overwritten
/// by something else, r: read, s: read in part, F G: the dumps by another program read, f: in part,
/// h: all files in the temporary directory lose their second half
fn on_dumps(d: &Dumps, ops: &[char]) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(&d.d);
    let _ = std::fs::remove_dir_all(&d.t);
    let mut now = None;
    for (i, o) in ops.iter().enumerate() {
        let r = match o {
            'a' | 'b' | 'e' => {
                now = Some(*o);
                dump::write(&d.d, &data(*o)).and_then(|_| {
                    let mut x = copy::parse_dump(&d.d)?;
                    dump::normalise(&mut x);
                    dump::current(&x, &data(*o))?;
                    dump::conforms(&x, &data(*o))
                })
            }
            'x' => {
                now = None;
                DumpWriter::new(d.d.clone(), 0).map_err(|e| format!("{:#}", e)).and_then(|mut w| data('a').iter().try_for_each(|x| e("write_element", w.write_element(conv::to(x)))))
            }
            'g' => {
                now = None;
                each_file(&d.d, &mut |p| std::fs::write(p, vec![b'7'; 20_000]).unwrap());
                Ok(())
            }
            'h' => {
                each_file(&d.t, &mut |p| {
                    let b = std::fs::read(p).unwrap();
                    std::fs::write(p, &b[..b.len() / 2]).unwrap();
                });
                Ok(())
            }
            'F' => read_dump(&d.foreign[0], &d.t, 'a', false),
            'G' => read_dump(&d.foreign[1], &d.t, 'b', false),
            'f' => read_dump(&d.foreign[0], &d.t, 'a', true),
            how => match now {
                Some(w) => read_dump(&d.d, &d.t, w, *how == 's'),
                None => Ok(()),
            },
        };
        r.map_err(|x| format!("operation {} ({}): {}", i + 1, o, x))?;
    }
    Ok(())
}

/// all words of a length over `al` that end in one of `last`
fn words_of(al: &str, len: usize, last: &str) -> Vec<Vec<char>> {
    let mut v: Vec<Vec<char>> = vec![vec![]];
    for i in 0..len {
        let al = if i + 1 == len { last } else { al };
        v = v.iter().flat_map(|w| al.chars().map(move |c| w.iter().cloned().chain([c]).collect())).collect();
    }
    v
}

/// all orders in which iterators make the given numbers of steps
pub fn orders(left: &[usize]) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, left: &mut [usize], out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(cur, left, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut left.to_vec(), &mut out);
    out
}

/// What the iterator of a dump yields, sentinels as None
fn stream(els: &[El]) -> Vec<Option<El>> {
    let els = dump::as_read(els);
    let mut v = vec![];
    for k in KINDS {
        v.extend(els.iter().filter(|x| x.kind == k).cloned().map(Some));
        v.push(None);
    }
    v
}

struct Walk {
    it: Box<dyn Iterator<Item = Element>>,
    pos: usize,
}

impl Walk {
    fn step(&mut self, want: &[Option<El>]) -> Result<(), String> {
        let got = self.it.next().map(|x| {
            conv::from(&x).map(|mut x| {
                x.tags.sort();
                x
            })
        });
        let w = want.get(self.pos).cloned();
        self.pos += 1;
        if got != w {
            return Err(format!("step {}: {:?} instead of {:?}", self.pos, got, w));
        }
        Ok(())
    }
}

pub fn c27(ctx: &mut Ctx) {
    let s = Scratch::new();
    num_cpus::set(2);
    let deep = ctx.thorough() as usize;
    for n in 1..=4 + deep {
        for w in words_of("abeABxgrpcs", n, if n > 3 { "arBc" } else { "abeABrpc" }) {
            ctx.case(&format!("file {}", w.iter().collect::<String>()), || Out::from(on_file(&s.file("x.osm.pbf"), &w)));
        }
    }
    let d = Dumps { d: s.file("dump"), foreign: [s.file("f"), s.file("g")], t: s.file("tmp") };
    for (p, w) in d.foreign.iter().zip(['a', 'b']) {
        let mut l = Layout::plain();
        if w == 'b' {
            l.tables.reverse();
        }
        copy::write_dump(p, &copy::rows_of(&data(w)), &l);
    }
    for n in 1..=4 + deep {
        for w in words_of("abexgrsFGfh", n, if n > 3 { "rGe" } else { "abesrFG" }) {
            ctx.case(&format!("dumps {}", w.iter().collect::<String>()), || Out::from(on_dumps(&d, &w)));
        }
    }
    // readers and iterators used in turn; the first step opens
    let (c, b) = (s.file("c"), s.file("b"));
    copy::write_dump(&c, &copy::rows_of(&data('c')), &Layout::plain());
    copy::write_dump(&b, &copy::rows_of(&data('b')), &Layout::plain());
    let (sc, sb) = (stream(&data('c')), stream(&data('b')));
    let one = dump::open(&c, &s.file("one"));
    let all = sc.len() + 2;
    let mut set: Vec<(u8, Vec<usize>)> = vec![];
    for how in 0..3u8 {
        // of one reader, of two readers of one dump, of two dumps
        let n = if how == 0 || deep > 0 { all } else { all - 3 };
        set.extend(orders(&[n, n]).into_iter().map(|o| (how, o)));
    }
    let n = if deep > 0 { [4, 4, 4] } else { [2, 4, 3] };
    set.extend(orders(&n).into_iter().map(|o| (0, o)));
    for (how, o) in &set {
        ctx.case(&format!("{} in turn {:?}", ["iterators of one reader", "readers of one dump", "readers of two dumps"][*how as usize], o), || {
            let mut w: Vec<Option<Walk>> = (0..3).map(|_| None).collect();
            for i in o {
                let second = *how == 2 && *i == 1;
                match &mut w[*i] {
                    None => {
                        let it = if *how == 0 {
                            one.as_ref().map_err(|x| x.clone()).and_then(|r| e("elements", r.elements()))
                        } else {
                            let t = s.file(&format!("t{}", i));
                            dump::open(if second { &b } else { &c }, &t).and_then(|r| e("elements", r.elements()))
                        };
                        match it {
                            Ok(it) => w[*i] = Some(Walk { it: Box::new(it), pos: 0 }),
                            Err(x) => return Out::Bad(format!("iterator {}: {}", i, x)),
                        }
                    }
                    Some(x) => {
                        if let Err(m) = x.step(if second { &sb } else { &sc }) {
                            return Out::Bad(format!("iterator {}, {}", i, m));
                        }
                    }
                }
            }
            ok(true)
        });
    }
}
