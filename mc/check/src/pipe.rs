//! C24, C26: conversions between the two formats, and of timestamps to text.
use crate::conv;
use crate::dump::{self, history, version, words};
use crate::inputs::*;
use crate::par::{self, Mode};
use crate::seq;
use oracle::copy::{self, Layout};
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Header};
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::converters::timestamp_to_iso8601_seconds;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sink {
    /// sequential writer, element by element
    Each,
    /// sequential writer, everything in one list
    List,
    /// parallel writer: buffer, block, lists of this length (0: element by element)
    Par(usize, usize, usize),
}

/// A file by another writer: blocks of at most `n` elements of one kind.
fn file_of(els: &[El], n: usize) -> Vec<u8> {
    let mut blocks = vec![];
    for k in KINDS {
        let v: Vec<El> = els.iter().filter(|e| e.kind == k).cloned().collect();
        blocks.extend(v.chunks(n.max(1)).map(|c| Block::of(c.to_vec())));
    }
    pbf::file(&Header::usual(), &blocks)
}

fn pbf_to_dump(from: &Path, to: &Path) -> Result<(), String> {
    let r = Reader::new(from).map_err(|e| format!("opening the file failed: {:#}", e))?;
    let mut w = DumpWriter::new(to.to_path_buf(), 0).map_err(|e| format!("creating the dump failed: {:#}", e))?;
    for e in r.elements().map_err(|e| format!("elements failed: {:#}", e))? {
        w.write_element(e).map_err(|e| format!("writing to the dump failed: {:#}", e))?;
    }
    w.close().map_err(|e| format!("closing the dump failed: {:#}", e))
}

fn dump_to_pbf(from: &Path, tmp: &Path, to: &Path, sink: Sink, begin: &mut dyn FnMut()) -> Result<(), String> {
    let r = dump::open(from, tmp)?;
    let it = r.elements().map_err(|e| format!("elements of the dump failed: {:#}", e))?;
    match sink {
        Sink::Each | Sink::List => {
            let mut w = Writer::from_file_info(to.to_path_buf(), FileInfo::default(), seq::compression(true)).map_err(|e| format!("creating the writer failed: {:#}", e))?;
            w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
            if sink == Sink::List {
                w.write_elements(it.collect()).map_err(|e| format!("write_elements failed: {:#}", e))?;
            } else {
                for e in it {
                    w.write_element(e).map_err(|e| format!("write_element failed: {:#}", e))?;
                }
            }
            w.close().map_err(|e| format!("close failed: {:#}", e))
        }
        Sink::Par(buf, block, n) => {
            begin();
            let mut w = par::open_writer(to, buf, block, true)?;
            let mut v: Vec<Element> = vec![];
            for e in it {
                if n == 0 {
                    w.write_element(e).map_err(|e| format!("write_element failed: {:#}", e))?;
                } else {
                    v.push(e);
                    if v.len() == n {
                        w.write_elements(std::mem::take(&mut v)).map_err(|e| format!("write_elements failed: {:#}", e))?;
                    }
                }
            }
            if !v.is_empty() {
                w.write_elements(v).map_err(|e| format!("write_elements failed: {:#}", e))?;
            }
            w.close().map_err(|e| format!("close failed: {:#}", e))
        }
    }
}

fn check_file(path: &Path, els: &[El], block: usize) -> Result<(), String> {
    let (d, _) = par::decode(path)?;
    let got = d.elements();
    dump::same(els, &got)?;
    // the order of tags is no part of a dump; everything else is judged as written
    par::check_output(path, &got, block).map(|_| ())
}

fn check_dump(dir: &Path, els: &[El]) -> Result<(), String> {
    let mut d = copy::parse_dump(dir)?;
    dump::normalise(&mut d);
    dump::current(&d, els)?;
    dump::conforms(&d, els)
}

struct Dirs {
    pbf: PathBuf,
    dump: PathBuf,
    tmp: PathBuf,
    out: PathBuf,
    dump2: PathBuf,
}

impl Dirs {
    fn new(s: &Scratch) -> Dirs {
        let d = Dirs { pbf: s.file("in.osm.pbf"), dump: s.file("dump"), tmp: s.file("tmp"), out: s.file("out.osm.pbf"), dump2: s.file("dump2") };
        for x in [&d.dump, &d.tmp, &d.dump2] {
            let _ = std::fs::remove_dir_all(x);
        }
        for x in [&d.pbf, &d.out] {
            let _ = std::fs::remove_file(x);
        }
        d
    }
}

/// PBF -> dump -> PBF -> dump, or, if `foreign`, from a dump by another program on.
fn circle(s: &Scratch, els: &[El], block_in: usize, foreign: bool, sink: Sink, begin: &mut dyn FnMut()) -> Result<String, String> {
    let d = Dirs::new(s);
    let els: Vec<El> = els.iter().map(quantised).collect();
    if foreign {
        copy::write_dump(&d.dump, &copy::rows_of(&els), &Layout::plain());
    } else {
        std::fs::write(&d.pbf, file_of(&els, block_in)).unwrap();
        pbf_to_dump(&d.pbf, &d.dump)?;
        check_dump(&d.dump, &els).map_err(|e| format!("the dump: {}", e))?;
    }
    dump_to_pbf(&d.dump, &d.tmp, &d.out, sink, begin)?;
    check_file(&d.out, &els, if let Sink::Par(_, b, _) = sink { b } else { 8000 }).map_err(|e| format!("the file: {}", e))?;
    pbf_to_dump(&d.out, &d.dump2)?;
    check_dump(&d.dump2, &els).map_err(|e| format!("the dump of the file: {}", e))?;
    Ok(format!("{} versions", els.len()))
}

fn one(ctx: &mut Ctx, s: &Arc<Scratch>, key: &str, make: impl Fn() -> Vec<El> + Send + Sync + 'static, sink: Sink) {
    for foreign in [false, true] {
        let key = format!("{} {}, {:?}", key, if foreign { "dump" } else { "file" }, sink);
        if let Sink::Par(..) = sink {
            let s = s.clone();
            let els = make();
            par::scenario(ctx, &key, Mode::One, 1, move |begin| circle(&s, &els, 3, foreign, sink, begin));
        } else {
            ctx.case(&key, || {
                let els = make();
                match circle(s, &els, 3, foreign, sink, &mut || {}) {
                    Ok(what) => Out::Ok { nontrivial: !els.is_empty(), what },
                    Err(e) => Out::Bad(e),
                }
            });
        }
    }
}

/// Sentinels handed to a writer between the elements, as many at each place as two bits tell.
fn sentinels(s: &Scratch, els: &[El], at: u32, how: u8) -> Result<(), String> {
    let d = Dirs::new(s);
    let mut v = vec![];
    for i in 0..=els.len() {
        for _ in 0..at >> (2 * i) & 3 {
            v.push(Element::Sentinel);
        }
        if i < els.len() {
            v.push(conv::to(&els[i]));
        }
    }
    if how < 2 {
        let mut w = Writer::from_file_info(d.out.clone(), FileInfo::default(), seq::compression(false)).map_err(|e| format!("creating the writer failed: {:#}", e))?;
        w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
        if how == 1 {
            w.write_elements(v).map_err(|e| format!("write_elements failed: {:#}", e))?;
        } else {
            for e in v {
                w.write_element(e).map_err(|e| format!("write_element failed: {:#}", e))?;
            }
        }
        w.close().map_err(|e| format!("close failed: {:#}", e))?;
        par::check_output(&d.out, els, 8000).map(|_| ())
    } else {
        let mut w = DumpWriter::new(d.dump.clone(), 0).map_err(|e| format!("creating the dump failed: {:#}", e))?;
        for e in v {
            w.write_element(e).map_err(|e| format!("writing to the dump failed: {:#}", e))?;
        }
        w.close().map_err(|e| format!("closing the dump failed: {:#}", e))?;
        check_dump(&d.dump, els)
    }
}

pub fn c24(ctx: &mut Ctx) {
    let s = Arc::new(Scratch::new());
    let usual = [Sink::Each, Sink::List, Sink::Par(4, 2, 0), Sink::Par(5, 3, 2)];
    // histories of two objects of a kind, and of the same identifier in all kinds
    let ws = words(2);
    for kind in KINDS {
        for a in &ws {
            for b in &ws {
                for sink in usual {
                    let (a2, b2) = (a.clone(), b.clone());
                    one(ctx, &s, &format!("{:?} 9:{} 10:{}", kind, a, b), move || [history(kind, 9, &a2, 1, 1), history(kind, 10, &b2, 9, 1)].concat(), sink);
                }
            }
        }
    }
    let ws = words(1);
    for a in &ws {
        for b in &ws {
            for c in &ws {
                for sink in usual {
                    let w = [a.clone(), b.clone(), c.clone()];
                    one(ctx, &s, &format!("kinds [{}] [{}] [{}]", a, b, c), move || KINDS.iter().zip(&w).flat_map(|(k, w)| [history(*k, 5, w, 1, 1), history(*k, 7, w, 2, 3)].concat()).collect(), sink);
                }
            }
        }
    }
    // every class of values, and pairs of them
    for kind in KINDS {
        let v: Vec<(String, El)> = variants(kind).into_iter().filter(|x| x.1.version >= 0).collect();
        let w = few(kind);
        for (n, e) in &v {
            for sink in [Sink::Each, Sink::Par(2, 2, 0)] {
                let e = e.clone();
                one(ctx, &s, &format!("{:?} {}", kind, n), move || dump::consistent(vec![e.clone()]), sink);
            }
            for (m, f) in if ctx.thorough() { &v } else { &w } {
                let (e, f) = (e.clone(), f.clone());
                one(ctx, &s, &format!("{:?} pair [{}] [{}]", kind, n, m), move || par::sorted(dump::consistent(sequence(vec![e.clone(), f.clone()]))), Sink::Each);
            }
        }
    }
    // text that one format or the other treats specially, in all places
    let al = ["\\", "\t", "\n", "\r", "N", ".", "x", "é", " ", "\u{8}", "\u{7f}", "\u{2028}", "\"", ","];
    for a in al {
        for b in al {
            one(
                ctx,
                &s,
                &format!("texts {:?} {:?}", a, b),
                move || {
                    let mut v = vec![];
                    for (i, c) in al.iter().enumerate() {
                        let t = format!("{}{}{}", a, b, c);
                        let mut e = El::of(KINDS[i % 3], i as i64);
                        e.uid = i as i32;
                        e.cs = i as i64;
                        e.user = t.clone();
                        e.tags = vec![(t.clone(), t.clone()), (format!("{}k", t), String::new())];
                        for m in &mut e.members {
                            m.2 = t.clone();
                        }
                        v.push(e);
                    }
                    par::sorted(v)
                },
                Sink::Each,
            );
        }
    }
    // sizes around those of a block and of the writer's buffers
    for kind in KINDS {
        for n in [7999usize, 8000, 8001, 16_001] {
            for sink in [Sink::Each, Sink::Par(4000, 1000, 700), Sink::Par(9000, 8000, 0)] {
                let how = move || (0..n as i64).map(|i| version(kind, i / 2 + 1, (i % 2) as i32 + 1, if i % 5 == 0 { 'd' } else { 'b' })).map(one_user).collect::<Vec<_>>();
                one(ctx, &s, &format!("{} of {:?}", n, kind), how, sink);
            }
        }
    }
    // sentinels anywhere
    let to = ["element by element", "in a list", "to a dump"];
    for how in 0..3u8 {
        for l in ["", "n", "w", "nn", "nw", "nr", "wr", "nwr", "nnw", "wrr"] {
            let els: Vec<El> = l.chars().enumerate().map(|(i, c)| version(KINDS["nwr".find(c).unwrap()], i as i64 + 1, 1, 'f')).collect();
            for at in (0..1u32 << (2 * (els.len() + 1))).filter(|at| (0..16).all(|i| at >> (2 * i) & 3 < 3)) {
                ctx.case(&format!("sentinels {} {} {:b}", to[how as usize], l, at), || Out::from(sentinels(&s, &els, at, how)));
            }
        }
    }
    // one or none at each place of the histories of an object and of two of a kind or of two kinds
    let mut histories: Vec<(String, Vec<El>)> = vec![];
    let (w2, w3) = (words(2), words(3));
    for (i, kind) in KINDS.into_iter().enumerate() {
        for a in &w3 {
            histories.push((format!("{:?} {}", kind, a), history(kind, 9, a, 1, 1)));
        }
        for a in w2.iter().filter(|a| !a.is_empty()) {
            for b in w2.iter().filter(|b| !b.is_empty()) {
                let a = a.as_str();
                histories.push((format!("{:?} {} {}", kind, a, b), [history(kind, 9, a, 1, 1), history(kind, 10, b, 1, 1)].concat()));
                if i < 2 {
                    histories.push((format!("{:?} {} {:?} {}", kind, a, KINDS[i + 1], b), [history(kind, 9, a, 1, 1), history(KINDS[i + 1], 9, b, 1, 1)].concat()));
                }
            }
        }
    }
    for (n, els) in &histories {
        for at in 0..1u32 << (els.len() + 1) {
            let places = (0..=els.len()).map(|i| (at >> i & 1) << (2 * i)).sum();
            for how in 0..3u8 {
                if how == 2 || els.len() <= 3 || ctx.thorough() {
                    ctx.case(&format!("sentinels {} {} {:b}", to[how as usize], n, places), || Out::from(sentinels(&s, els, places, how)));
                }
            }
        }
    }
}

/// one user and changeset for all, for the sake of size
fn one_user(mut e: El) -> El {
    e.cs = 5;
    e.uid = 6;
    e.user = "u".into();
    e
}

// --------------------------------------------------------------------------------------------
// C26

const FIRST_YEAR: i64 = -262_143;
const LAST_YEAR: i64 = 262_142;

/// days of the proleptic Gregorian calendar, in order
struct Day {
    y: i64,
    m: u32,
    d: u32,
}

impl Day {
    fn leap(y: i64) -> bool {
        y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
    }
    fn next(&mut self) {
        let n = match self.m {
            2 => 28 + Day::leap(self.y) as u32,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        self.d += 1;
        if self.d > n {
            self.d = 1;
            self.m += 1;
        }
        if self.m > 12 {
            self.m = 1;
            self.y += 1;
        }
    }
    fn text(&self, s: i64) -> String {
        let y = if (0..=9999).contains(&self.y) { format!("{:04}", self.y) } else { format!("{:+05}", self.y) };
        format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, self.m, self.d, s / 3600, s / 60 % 60, s % 60)
    }
}

fn days_to_year(y: i64) -> i64 {
    // days from 1970-01-01 to the first day of year y
    let p = y - 1;
    365 * (y - 1970) + (p.div_euclid(4) - 1969i64.div_euclid(4)) - (p.div_euclid(100) - 1969i64.div_euclid(100)) + (p.div_euclid(400) - 1969i64.div_euclid(400))
}

fn is(usec: i64, want: &str) -> Result<(), String> {
    match timestamp_to_iso8601_seconds(usec) {
        Ok(t) if t == want => Ok(()),
        Ok(t) => Err(format!("{} microseconds: {:?} instead of {:?}", usec, t, want)),
        Err(e) => Err(format!("{} microseconds: {:#} instead of {:?}", usec, e, want)),
    }
}

const SEC: i64 = 1_000_000;
const DAY: i64 = 86_400 * SEC;

pub fn c26(ctx: &mut Ctx) {
    // every day of four digit years: its first and last microsecond and some between
    for century in 0..100i64 {
        ctx.case(&format!("days of the years from {}", 100 * century), || {
            let mut d = Day { y: 100 * century, m: 1, d: 1 };
            let mut t = days_to_year(d.y) * DAY;
            while d.y < 100 * (century + 1) {
                for (us, s) in [(0, 0), (1, 0), (SEC - 1, 0), (SEC, 1), (43_199 * SEC + 999_999, 43_199), (43_200 * SEC, 43_200), (DAY - SEC, 86_399), (DAY - 1, 86_399)] {
                    if let Err(e) = is(t + us, &d.text(s)) {
                        return Out::Bad(e);
                    }
                }
                t += DAY;
                d.next();
            }
            ok(true)
        });
    }
    // every second of some days, with fractions at both ends of it
    for y in [1600i64, 1900, 1969, 1970, 1972, 2000, 2005, 2023, 9999] {
        for last in [false, true] {
            ctx.case(&format!("seconds of a day of {} {}", y, if last { "last" } else { "first" }), || {
                let (d, t) = if last { (Day { y, m: 12, d: 31 }, days_to_year(y + 1) * DAY - DAY) } else { (Day { y, m: 1, d: 1 }, days_to_year(y) * DAY) };
                for s in 0..86_400 {
                    for us in [0, 1, 499_999, 500_000, 999_999] {
                        if let Err(e) = is(t + s * SEC + us, &d.text(s)) {
                            return Out::Bad(e);
                        }
                    }
                }
                ok(true)
            });
        }
    }
    // both ends of every year of the calendar's range
    let mut y = FIRST_YEAR;
    while y <= LAST_YEAR {
        let n = (y + 4096).min(LAST_YEAR + 1);
        ctx.case(&format!("years from {}", y), || {
            for y in y..n {
                let t = days_to_year(y) * DAY;
                let u = days_to_year(y + 1) * DAY;
                for r in [is(t, &Day { y, m: 1, d: 1 }.text(0)), is(u - 1, &Day { y, m: 12, d: 31 }.text(86_399)), is(t + 59 * DAY, &if Day::leap(y) { Day { y, m: 2, d: 29 } } else { Day { y, m: 3, d: 1 } }.text(0))] {
                    if let Err(e) = r {
                        return Out::Bad(e);
                    }
                }
            }
            ok(true)
        });
        y = n;
    }
    // beyond the range of the calendar there is nothing to say
    let (low, high) = (days_to_year(FIRST_YEAR) * DAY, days_to_year(LAST_YEAR + 1) * DAY);
    let mut out = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1];
    for i in 0..2000 {
        for k in [1, 999, 86_399, SEC, 7 * DAY] {
            out.push(low - 1 - i * k);
            out.push(high + i * k);
        }
    }
    for b in 0..63 {
        for x in [(low - 1).saturating_sub(1i64 << b), high.saturating_add(1i64 << b)] {
            out.push(x);
        }
    }
    for c in out.chunks(1000).enumerate() {
        ctx.case(&format!("out of range {}", c.0), || {
            for x in c.1 {
                if *x >= low && *x < high {
                    continue;
                }
                if let Ok(t) = timestamp_to_iso8601_seconds(*x) {
                    return Out::Bad(format!("{} microseconds: {:?} instead of an error", x, t));
                }
            }
            ok(true)
        });
    }
}
