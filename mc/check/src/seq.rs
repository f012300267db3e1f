//! C01, C02, C04, C05: the sequential writer and reader on bounded spaces of inputs.
use crate::conv;
use crate::inputs::*;
use crate::par;
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Header};
use oracle::scratch::Scratch;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::Path;

pub fn compression(z: bool) -> CompressionType {
    if z {
        CompressionType::Zlib
    } else {
        CompressionType::Uncompressed
    }
}

/// Hands elements over in the given calls; a single element is passed on its own if `single`.
pub fn write(path: &Path, calls: &[(bool, Vec<El>)], z: bool) -> Result<(), String> {
    let mut w = Writer::from_file_info(path.to_path_buf(), FileInfo::default(), compression(z)).map_err(|e| format!("creating the writer failed: {:#}", e))?;
    w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
    for (single, v) in calls {
        if *single {
            for e in v {
                w.write_element(conv::to(e)).map_err(|e| format!("write_element failed: {:#}", e))?;
            }
        } else {
            w.write_elements(conv::all(v)).map_err(|e| format!("write_elements failed: {:#}", e))?;
        }
    }
    w.close().map_err(|e| format!("close failed: {:#}", e))?;
    Ok(())
}

/// All elements by sequential iteration
pub fn read(path: &Path) -> Result<Vec<El>, String> {
    let r = Reader::new(path).map_err(|e| format!("opening failed: {:#}", e))?;
    let it = r.elements().map_err(|e| format!("elements failed: {:#}", e))?;
    it.map(|e| conv::from(&e).ok_or_else(|| "a sentinel from the sequential iterator".to_string())).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Reader,
    Decoder,
}

fn judge(j: Judge, path: &Path, calls: &[(bool, Vec<El>)], z: bool) -> Result<(), String> {
    let want: Vec<El> = calls.iter().flat_map(|c| c.1.iter().map(quantised)).collect();
    match j {
        Judge::Reader => diff(&want, &read(path)?),
        Judge::Decoder => {
            par::check_output(path, &want, 8000)?;
            let (d, _) = par::decode(path)?;
            if let Some(b) = d.blocks.iter().position(|b| b.compressed != z) {
                return Err(format!("block {} is {}compressed", b + 1, if z { "not " } else { "" }));
            }
            Ok(())
        }
    }
}

fn round(s: &Scratch, j: Judge, calls: &[(bool, Vec<El>)], z: bool) -> Out {
    let p = s.file("o.osm.pbf");
    let r = write(&p, calls, z).and_then(|_| judge(j, &p, calls, z));
    let n: usize = calls.iter().map(|c| c.1.len()).sum();
    match r {
        Ok(()) => Out::Ok { nontrivial: n > 0, what: format!("{} elements, {} bytes", n, std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0)) },
        Err(e) => Out::Bad(e),
    }
}

fn zs(z: bool) -> &'static str {
    if z {
        "zlib"
    } else {
        "raw"
    }
}

/// Ways to cut n elements into calls: compositions of n, parts of one as element or list, optionally
/// with empty lists in between.
fn partitions(n: usize) -> Vec<Vec<(bool, usize)>> {
    if n == 0 {
        return vec![vec![], vec![(false, 0)]];
    }
    let mut out: Vec<Vec<(bool, usize)>> = vec![];
    for first in 1..=n {
        let rest: Vec<Vec<(bool, usize)>> = if first == n { vec![vec![]] } else { partitions(n - first) };
        for r in rest {
            for single in if first == 1 { vec![true, false] } else { vec![false] } {
                let mut p = vec![(single, first)];
                p.extend(r.clone());
                out.push(p);
            }
        }
    }
    out
}

fn cut(v: &[El], parts: &[(bool, usize)]) -> Vec<(bool, Vec<El>)> {
    let mut i = 0;
    parts
        .iter()
        .map(|(s, n)| {
            let x = v[i..i + n].to_vec();
            i += n;
            (*s, x)
        })
        .collect()
}

fn both(ctx: &mut Ctx, j: Judge) {
    let s = Scratch::new();
    let s = &s;
    // every value class alone and every ordered pair of them in one block
    for kind in KINDS {
        let v = variants(kind);
        for (n, e) in &v {
            for z in [true, false] {
                ctx.case(&format!("{:?} {} {}", kind, n, zs(z)), || round(s, j, &[(true, vec![e.clone()])], z));
            }
        }
        for (a, x) in &v {
            for (b, y) in &v {
                for z in [true, false] {
                    if z && (a.contains("many") && b.contains("long")) {
                        continue;
                    }
                    ctx.case(&format!("{:?} pair [{}] [{}] {}", kind, a, b, zs(z)), || round(s, j, &[(false, sequence(vec![x.clone(), y.clone()]))], z));
                }
            }
        }
        let f = few(kind);
        for (a, x) in &f {
            for (b, y) in &f {
                for (c, w) in &f {
                    ctx.case(&format!("{:?} triple [{}] [{}] [{}]", kind, a, b, c), || round(s, j, &[(true, sequence(vec![x.clone(), y.clone(), w.clone()]))], true));
                }
            }
        }
    }
    // every character there is, in every kind of text
    for c in (0..0x11_0000u32).step_by(0x400) {
        for kind in KINDS {
            ctx.case(&format!("{:?} characters from {:x}", kind, c), || {
                let v: Vec<El> = characters(c, c + 0x400)
                    .into_iter()
                    .enumerate()
                    .map(|(i, t)| {
                        let mut e = El::of(kind, 1 + i as i64);
                        e.user = t.clone();
                        e.tags = vec![(t.clone(), format!("v{}", t)), (format!("{}k", t), t.clone())];
                        for m in &mut e.members {
                            m.2 = t.clone();
                        }
                        e
                    })
                    .collect();
                round(s, j, &[(true, v)], c % 0x800 == 0)
            });
        }
    }
    // coordinates: three around each of a grid, and each of a row of them
    let d = 1_000_000_000i64;
    for k in 0..if ctx.thorough() { 400i64 } else { 60 } {
        let thorough = ctx.thorough();
        ctx.case(&format!("coordinates, row {}", k), || {
            let n = if thorough { 400 } else { 60 };
            let lat = (-90 * d + k * 180 * d / (n - 1)) / 100;
            let v: Vec<El> = (0..2400i64)
                .flat_map(|i| {
                    let lon = (-180 * d + i * 360 * d / 2399) / 100;
                    (-1..=1i64).map(move |q| {
                        let mut e = El::node(1 + 3 * i + q + 1);
                        e.lat = (lat + q * (i % 3)).clamp(-900_000_000, 900_000_000) * 100;
                        e.lon = (lon + q).clamp(-1_800_000_000, 1_800_000_000) * 100;
                        e
                    })
                })
                .collect();
            round(s, j, &[(true, v)], k % 2 == 0)
        });
    }
    // one of each kind
    let (n, w, r) = (few(Kind::Node), few(Kind::Way), few(Kind::Relation));
    for (a, x) in &n {
        for (b, y) in &w {
            for (c, z) in &r {
                ctx.case(&format!("kinds [{}] [{}] [{}]", a, b, c), || round(s, j, &[(true, sequence(vec![x.clone(), y.clone(), z.clone()]))], false));
            }
        }
    }
    // tags: every list of up to three over a small alphabet
    let al: Vec<(String, String)> = ["", "a", "b"].iter().flat_map(|k| ["", "a", "c"].iter().map(move |v| (k.to_string(), v.to_string()))).collect();
    for len in 0..=3u32 {
        for c in 0..al.len().pow(len) {
            let t: Vec<(String, String)> = (0..len).map(|i| al[c / al.len().pow(i) % al.len()].clone()).collect();
            let mut v = vec![];
            for k in KINDS {
                let mut a = El::of(k, 1);
                a.tags = t.clone();
                let mut b = El::of(k, 2);
                b.tags = vec![("a".into(), "z".into())];
                v.push(a);
                v.push(b);
            }
            ctx.case(&format!("tags {:?}", t), || round(s, j, &[(true, v)], true));
        }
    }
    // every composition of kinds and of calls
    let top = if ctx.thorough() { 7 } else { 6 };
    for a in 0..=top {
        for b in 0..=top - a {
            for c in 0..=top - a - b {
                let v: Vec<El> = [(Kind::Node, a), (Kind::Way, b), (Kind::Relation, c)].iter().flat_map(|(k, n)| (0..*n).map(move |i| El::of(*k, 1 + i as i64 * 2).tag("a", &format!("{:?}{}", k, i)))).collect();
                for (i, p) in partitions(v.len()).into_iter().enumerate() {
                    ctx.case(&format!("calls {} {} {} partition {} {:?}", a, b, c, i, p), || round(s, j, &cut(&v, &p), true));
                    if i % 7 == 0 {
                        let mut q = vec![(false, 0)];
                        for x in &p {
                            q.push(*x);
                            q.push((false, 0));
                        }
                        ctx.case(&format!("calls {} {} {} partition {} with empty lists", a, b, c, i), || round(s, j, &cut(&v, &q), false));
                    }
                }
            }
        }
    }
    // around the block size
    let ns: &[usize] = if ctx.thorough() { &[0, 1, 2, 7998, 7999, 8000, 8001, 8002, 15999, 16000, 16001, 23999, 24000, 24001] } else { &[0, 1, 7999, 8000, 8001, 16000, 16001] };
    let ws: &[usize] = if ctx.thorough() { &[0, 1, 2, 7998, 7999, 8000, 8001, 8002, 15999, 16000, 16001] } else { &[0, 1, 7999, 8000, 8001] };
    let rs: &[usize] = if ctx.thorough() { &[0, 1, 7999, 8000, 8001, 16000, 16001] } else { &[0, 1, 8000, 8001] };
    for a in ns {
        for b in ws {
            for c in rs {
                for how in ["one by one", "one list", "lists of 3000", "lists of 8000"] {
                    ctx.case(&format!("sizes {} {} {} {}", a, b, c, how), || {
                        let mut v: Vec<El> = vec![];
                        for (k, n) in [(Kind::Node, *a), (Kind::Way, *b), (Kind::Relation, *c)] {
                            for i in 0..n {
                                let mut e = El::of(k, i as i64 + 1);
                                if i % 1000 == 7 {
                                    e.tags = vec![("i".into(), i.to_string())];
                                }
                                e.refs.truncate(1);
                                e.members.truncate(1);
                                v.push(e);
                            }
                        }
                        let calls: Vec<(bool, Vec<El>)> = match how {
                            "one by one" => vec![(true, v)],
                            "one list" => vec![(false, v)],
                            "lists of 3000" => v.chunks(3000).map(|c| (false, c.to_vec())).collect(),
                            _ => v.chunks(8000).map(|c| (false, c.to_vec())).collect(),
                        };
                        round(s, j, &calls, false)
                    });
                }
            }
        }
    }
}

pub fn c01(ctx: &mut Ctx) {
    both(ctx, Judge::Reader);
}

/// The parallel writer, one schedule each: blocks of the configured size that any decoder understands
fn parallel(ctx: &mut Ctx) {
    for kind in KINDS {
        let v = variants(kind);
        let walk = pairs_walk(v.len());
        for block in [1usize, 2, 3, 7, 8000] {
            for z in [true, false] {
                let key = format!("parallel {:?} all pairs of values, blocks of {} {}", kind, block, zs(z));
                if !ctx.mine() {
                    ctx.case(&key, || ok(true));
                    continue;
                }
                let els: Vec<El> = walk
                    .iter()
                    .map(|i| v[*i].1.clone())
                    .filter(|e| e.tags.len() < 100 && e.refs.len() < 100 && e.members.len() < 100 && e.tags.iter().all(|t| t.1.len() < 1000))
                    .enumerate()
                    .map(|(i, mut e)| {
                        e.id = i as i64 * 3 - 2;
                        e
                    })
                    .collect();
                let els: Vec<El> = if block < 8000 { els.into_iter().take(600).collect() } else { els };
                simple(ctx, &key, 1, block, z, els);
            }
        }
    }
    for (a, b, c) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (5, 5, 5), (8, 0, 9), (4, 4, 4), (3, 1, 2), (0, 7, 1), (1, 1, 12)] {
        for block in 1..=6usize {
            for buf in [0usize, 1, 4, 30] {
                let els: Vec<El> = [(Kind::Node, a), (Kind::Way, b), (Kind::Relation, c)].iter().flat_map(|(k, n)| (0..*n).map(move |i| El::of(*k, 1 + i as i64).tag("x", "y"))).collect();
                simple(ctx, &format!("parallel {} {} {} buffer {} block {}", a, b, c, buf, block), buf, block, true, els);
            }
        }
    }
    for (a, b, c) in [(8000, 1, 1), (8001, 8000, 1), (16001, 0, 8001)] {
        for block in [8000usize, 4000] {
            let key = format!("parallel {} {} {} buffer 100 block {}", a, b, c, block);
            if !ctx.mine() {
                ctx.case(&key, || ok(true));
                continue;
            }
            let els: Vec<El> = [(Kind::Node, a), (Kind::Way, b), (Kind::Relation, c)].iter().flat_map(|(k, n)| (0..*n).map(move |i| El::of(*k, 1 + i as i64))).collect();
            simple(ctx, &key, 100, block, true, els);
        }
    }
}

fn simple(ctx: &mut Ctx, key: &str, buf: usize, block: usize, z: bool, els: Vec<El>) {
    let s = std::sync::Arc::new(Scratch::new());
    let p = par::out(&s);
    par::scenario(ctx, key, par::Mode::One, 1, move |begin| {
        let _ = &s;
        let _ = std::fs::remove_file(&p);
        begin();
        let mut w = par::open_writer(&p, buf, block, z)?;
        for c in els.chunks(50) {
            w.write_elements(conv::all(c)).map_err(|e| format!("write_elements failed: {:#}", e))?;
        }
        w.close().map_err(|e| format!("close failed: {:#}", e))?;
        let want: Vec<El> = els.iter().map(quantised).collect();
        par::check_output(&p, &want, block)?;
        let (d, _) = par::decode(&p)?;
        if d.blocks.iter().any(|b| b.compressed != z) {
            return Err("a block with the wrong compression".into());
        }
        Ok(format!("{} blocks", d.blocks.len()))
    });
}

pub fn c02(ctx: &mut Ctx) {
    both(ctx, Judge::Decoder);
    parallel(ctx);
}

// --------------------------------------------------------------------------------------------
// C04

pub fn info(h: &Header) -> FileInfo {
    let d = |x: i64| x as f64 / 1e9;
    FileInfo::new(
        h.bbox.map(|b| BoundingBox::new(d(b[0]), d(b[3]), d(b[1]), d(b[2]))),
        h.required.clone(),
        h.optional.clone(),
        h.program.clone(),
        h.source.clone(),
        h.rep_ts,
        h.rep_seq,
        h.rep_url.clone(),
    )
}

pub fn uninfo(i: &FileInfo) -> Header {
    let n = |x: f64| (x * 1e9).round() as i64;
    Header {
        bbox: i.bounding_box().as_ref().map(|b| [n(b.left()), n(b.right()), n(b.top()), n(b.bottom())]),
        required: i.required_features().clone(),
        optional: i.optional_features().clone(),
        program: i.writingprogram().clone(),
        source: i.source().clone(),
        rep_ts: *i.osmosis_replication_timestamp(),
        rep_seq: *i.osmosis_replication_sequence_number(),
        rep_url: i.osmosis_replication_base_url().clone(),
    }
}

fn same_header(p: &Path, h: &Header) -> Result<(), String> {
    let r = Reader::new(p).map_err(|e| format!("opening the written file failed: {:#}", e))?;
    let got = uninfo(r.info());
    if got != *h {
        return Err(format!("written {:?}, the reader reports {:?}", h, got));
    }
    let (d, _) = par::decode(p)?;
    if d.header != *h {
        return Err(format!("written {:?}, the bytes say {:?}", h, d.header));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Seq(bool),
    Par(bool),
    /// setters of FileInfo instead of its constructor
    Setters,
}

fn header_case(ctx: &mut Ctx, s: &Scratch, name: &str, h: &Header, how: How, body: bool) {
    let key = format!("{} {:?}{}", name, how, if body { " with elements" } else { "" });
    let p = s.file("h.osm.pbf");
    let h = h.clone();
    let els = if body { vec![El::node(1), El::way(2), El::rel(3)] } else { vec![] };
    match how {
        How::Par(z) => par::scenario(ctx, &key, par::Mode::One, 1, move |begin| {
            begin();
            let mut w = osm_io::osm::pbf::parallel_writer::ParallelWriter::from_file_info(4, 2, p.clone(), info(&h), compression(z)).map_err(|e| format!("creating the writer failed: {:#}", e))?;
            w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
            w.write_elements(conv::all(&els)).map_err(|e| format!("{:#}", e))?;
            w.close().map_err(|e| format!("close failed: {:#}", e))?;
            same_header(&p, &h)?;
            Ok("same".into())
        }),
        _ => ctx.case(&key, || {
            let i = match how {
                How::Setters => {
                    let c = info(&h);
                    let mut i = FileInfo::default();
                    i.with_bounding_box(c.bounding_box());
                    i.with_required_features(c.required_features());
                    i.with_optional_features(c.optional_features());
                    i.with_writingprogram(c.writingprogram());
                    i.with_source(c.source());
                    i.with_osmosis_replication_timestamp(c.osmosis_replication_timestamp());
                    i.with_osmosis_replication_sequence_number(c.osmosis_replication_sequence_number());
                    i.with_osmosis_replication_base_url(c.osmosis_replication_base_url());
                    i
                }
                _ => info(&h),
            };
            let r = (|| {
                let mut w = Writer::from_file_info(p.clone(), i, compression(how != How::Seq(false))).map_err(|e| format!("creating the writer failed: {:#}", e))?;
                w.write_header().map_err(|e| format!("write_header failed: {:#}", e))?;
                w.write_elements(conv::all(&els)).map_err(|e| format!("{:#}", e))?;
                w.close().map_err(|e| format!("close failed: {:#}", e))?;
                same_header(&p, &h)
            })();
            Out::from(r)
        }),
    }
}

fn st(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn subsets() -> Vec<(String, Header)> {
    let mut out = vec![];
    for m in 0..256u32 {
        let on = |i: u32| m >> i & 1 == 1;
        let h = Header {
            bbox: on(0).then_some([-1_234_567_891, 2_345_678_912, 3_456_789_123, -4_567_891_234]),
            required: if on(1) { st(&["OsmSchema-V0.6", "DenseNodes"]) } else { vec![] },
            optional: if on(2) { st(&["Sort.Type_then_ID", "Has_Metadata"]) } else { vec![] },
            program: on(3).then(|| "a program".into()),
            source: on(4).then(|| "a source".into()),
            rep_ts: on(5).then_some(1_600_000_001),
            rep_seq: on(6).then_some(4711),
            rep_url: on(7).then(|| "https://example.com/u".into()),
        };
        out.push((format!("fields {:08b}", m), h));
    }
    out
}

fn values(base: &Header) -> Vec<(String, Header)> {
    let texts = ["", "x", "ü 😀", "a\nb\tc\0", " "];
    let mut hs: Vec<(String, Header)> = vec![];
    let long = "long ".repeat(5000);
    for t in texts.iter().map(|t| t.to_string()).chain([long]) {
        let n: String = t.chars().take(12).collect();
        hs.push((format!("program {:?}", n), Header { program: Some(t.clone()), ..base.clone() }));
        hs.push((format!("source {:?}", n), Header { source: Some(t.clone()), ..base.clone() }));
        hs.push((format!("url {:?}", n), Header { rep_url: Some(t.clone()), ..base.clone() }));
        hs.push((format!("optional {:?}", n), Header { optional: vec![t.clone(), "y".into(), t.clone()], ..base.clone() }));
        hs.push((format!("texts {:?}", n), Header { program: Some(t.clone()), source: Some(t.clone()), rep_url: Some(t.clone()), ..base.clone() }));
    }
    for x in [0, 1, -1, 127, 128, 1_600_000_000, i64::from(i32::MAX) + 1, i64::MAX, i64::MIN] {
        hs.push((format!("timestamp {}", x), Header { rep_ts: Some(x), ..base.clone() }));
        hs.push((format!("sequence {}", x), Header { rep_seq: Some(x), ..base.clone() }));
        hs.push((format!("both {}", x), Header { rep_seq: Some(x), rep_ts: Some(x.wrapping_add(1)), ..base.clone() }));
    }
    for n in 0..16u32 {
        let all = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"];
        let f: Vec<String> = (0..4).filter(|i| n >> i & 1 == 1).map(|i| all[i as usize].to_string()).collect();
        let mut g = f.clone();
        g.reverse();
        hs.push((format!("required {:?}", f), Header { required: f.clone(), ..base.clone() }));
        hs.push((format!("required {:?}", g), Header { required: g.clone(), optional: f.clone(), ..base.clone() }));
    }
    // all lists of up to four features of three names
    for len in 0..=4u32 {
        for c in 0..3usize.pow(len) {
            let l: Vec<String> = (0..len).map(|i| ["a", "b", ""][c / 3usize.pow(i) % 3].to_string()).collect();
            let r: Vec<String> = l.iter().map(|x| ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"][x.len() + usize::from(x == "b")].to_string()).collect();
            hs.push((format!("optional {:?}", l), Header { optional: l.clone(), required: r, ..base.clone() }));
        }
    }
    hs.push(("repeated features".into(), Header { required: st(&["DenseNodes", "DenseNodes"]), optional: st(&["a", "b", "a"]), ..base.clone() }));
    hs
}

/// headers by other writers
pub fn headers() -> Vec<(String, Header)> {
    let mut v = subsets();
    v.extend(values(&Header { required: st(&["OsmSchema-V0.6"]), ..Default::default() }));
    v
}

pub fn c04(ctx: &mut Ctx) {
    let s = Scratch::new();
    let hows = [How::Seq(true), How::Seq(false), How::Par(true), How::Par(false), How::Setters];
    // every subset of the fields
    for (n, h) in subsets() {
        for how in hows {
            for body in [false, true] {
                header_case(ctx, &s, &n, &h, how, body);
            }
        }
    }
    // values of each field, the others as usual
    let base = Header { required: st(&["OsmSchema-V0.6"]), ..Default::default() };
    let d = 1_000_000_000i64;
    let hs = values(&base);
    for (n, h) in &hs {
        for how in hows {
            header_case(ctx, &s, n, h, how, false);
        }
    }
    // bounding boxes: a grid of nanodegrees, every quadruple of side values
    let xs = [-180 * d, -179_999_999_999, -123_456_789_123, -1, 0, 1, 29, 7_000_000_007, 33_333_333_333, 123_456_789, 179_999_999_999, 180 * d];
    let ys = [-90 * d, -89_999_999_999, -1, 0, 3, 51_123_456_789, 90 * d];
    for l in xs {
        for r in xs {
            for b in ys {
                for t in ys {
                    let h = Header { bbox: Some([l, r, t, b]), ..base.clone() };
                    header_case(ctx, &s, &format!("box {} {} {} {}", l, r, t, b), &h, How::Seq(true), false);
                }
            }
        }
    }
    for l in xs {
        for b in ys {
            let h = Header { bbox: Some([l, 180 * d, 90 * d, b]), ..base.clone() };
            header_case(ctx, &s, &format!("box {} {}", l, b), &h, How::Par(true), false);
        }
    }
    // every nanodegree in stretches of the range: all residues of the conversion
    let chunks = if ctx.thorough() { 4096 } else { 256 };
    for start in [-180 * d, -100 * d - 77, -1000, 9 * d + 1, 16_777_216_000, 67_108_863_900, 134_217_728_000, 180 * d - 25_600] {
        for chunk in 0..chunks {
            ctx.case(&format!("stretch {} {}", start, chunk), || {
                for i in 0..100 {
                    let x = start + chunk as i64 * 100 + i;
                    if x > 180 * d {
                        break;
                    }
                    let h = Header { bbox: Some([x, -x, x / 2, -x / 2]), ..Default::default() };
                    let p = s.file("b.osm.pbf");
                    let r = (|| {
                        let mut w = Writer::from_file_info(p.clone(), info(&h), CompressionType::Uncompressed)?;
                        w.write_header()?;
                        w.close()?;
                        Reader::new(&p)
                    })();
                    match r {
                        Err(e) => return Out::Bad(format!("{:#}", e)),
                        Ok(r) if uninfo(r.info()) != h => return Out::Bad(format!("{:?} becomes {:?}", h.bbox, uninfo(r.info()).bbox)),
                        Ok(_) => {}
                    }
                }
                ok(true)
            });
        }
    }
    // the constructor with the values spelled out
    for m in 0..64u32 {
        let on = |i: u32| m >> i & 1 == 1;
        for z in [true, false] {
            ctx.case(&format!("constructor {:06b} {}", m, zs(z)), || {
                let p = s.file("c.osm.pbf");
                let mut want = Header {
                    bbox: on(0).then_some([-d, 2 * d, 3 * d, -4 * d]),
                    required: st(&["OsmSchema-V0.6", "DenseNodes"]),
                    optional: st(&["Sort.Type_then_ID"]),
                    program: Some(if on(5) { "".into() } else { "prog".into() }),
                    source: Some("src".into()),
                    rep_ts: on(1).then_some(11),
                    rep_seq: on(2).then_some(12),
                    rep_url: on(3).then(|| "url".into()),
                };
                if on(4) {
                    want.required.push("HistoricalInformation".into());
                }
                let i = info(&want);
                let r = (|| {
                    let mut w = Writer::new(p.clone(), want.program.as_ref().unwrap(), "src", want.rep_ts, want.rep_seq, want.rep_url.clone(), compression(z), i.bounding_box().clone(), on(4)).map_err(|e| format!("{:#}", e))?;
                    w.write_header().map_err(|e| format!("{:#}", e))?;
                    w.close().map_err(|e| format!("{:#}", e))?;
                    same_header(&p, &want)
                })();
                Out::from(r)
            });
        }
    }
    // headers other writers made
    for m in 0..256u32 {
        let on = |i: u32| m >> i & 1 == 1;
        let h = Header {
            bbox: on(0).then_some([-1, 2, 3, -4]),
            required: if on(1) { st(&["DenseNodes"]) } else { vec![] },
            optional: if on(2) { st(&["Has_Metadata", ""]) } else { vec![] },
            program: on(3).then(|| "".into()),
            source: on(4).then(|| "ü".into()),
            rep_ts: on(5).then_some(0),
            rep_seq: on(6).then_some(0),
            rep_url: on(7).then(|| "".into()),
        };
        for body in [pbf::Body::Raw, pbf::Body::RawWithSize, pbf::Body::Zlib] {
            ctx.case(&format!("foreign header {:08b} {:?}", m, body), || {
                let p = s.write("f.osm.pbf", &pbf::blob("OSMHeader", &pbf::blob_body(&pbf::header_block(&h), body, 6), None, false));
                match Reader::new(&p) {
                    Err(e) => Out::Bad(format!("opening failed: {:#}", e)),
                    Ok(r) if uninfo(r.info()) != h => Out::Bad(format!("{:?} reported as {:?}", h, uninfo(r.info()))),
                    Ok(_) => ok(true),
                }
            });
        }
    }
}

// --------------------------------------------------------------------------------------------
// C05

pub fn c05(ctx: &mut Ctx) {
    let s = Scratch::new();
    let supported: Vec<String> = {
        let p = s.write("plain.osm.pbf", &pbf::header_blob(&Header::default()));
        match Reader::new(&p) {
            Ok(r) => r.supported_features().clone(),
            Err(e) => {
                let m = format!("a file that requires no feature cannot be opened: {:#}", e);
                ctx.case("no feature required", || Out::Bad(m));
                return;
            }
        }
    };
    let sup = supported.clone();
    ctx.case("supported features", || {
        for f in ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"] {
            if !sup.iter().any(|x| x == f) {
                return Out::Bad(format!("{} is not supported", f));
            }
        }
        ok(true)
    });
    let alphabet = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID", "LocationsOnWays", "Unknown-Feature", "", "densenodes", "OsmSchema-V0.7", " DenseNodes", "DenseNodes ", "ü"];
    let n = alphabet.len();
    let mut lists: Vec<Vec<&str>> = vec![];
    for len in 0..=if ctx.thorough() { 4u32 } else { 3 } {
        for c in 0..n.pow(len) {
            lists.push((0..len).map(|i| alphabet[c / n.pow(i) % n]).collect());
        }
    }
    let optional: [&[&str]; 3] = [&[], &["Unknown-Feature"], &["LocationsOnWays", "", "Has_Metadata"]];
    for l in &lists {
        for (oi, o) in optional.iter().enumerate() {
            if oi > 0 && l.len() > 2 {
                continue;
            }
            for with_data in [false, true] {
                if with_data && l.len() > 2 {
                    continue;
                }
                ctx.case(&format!("required {:?} optional {:?}{}", l, o, if with_data { " with data" } else { "" }), || {
                    let h = Header { required: l.iter().map(|x| x.to_string()).collect(), optional: o.iter().map(|x| x.to_string()).collect(), ..Default::default() };
                    let mut b = pbf::header_blob(&h);
                    if with_data {
                        b.extend(pbf::data_blob(&pbf::Block::dense(vec![El::node(1)])));
                    }
                    let p = s.write("f.osm.pbf", &b);
                    let missing: Vec<&&str> = l.iter().filter(|x| !supported.iter().any(|y| y == **x)).collect();
                    let r = Reader::new(&p);
                    match (missing.is_empty(), r) {
                        (true, Ok(r)) => {
                            if r.info().required_features() != &h.required || r.info().optional_features() != &h.optional {
                                return Out::Bad(format!("features reported as {:?}, {:?}", r.info().required_features(), r.info().optional_features()));
                            }
                            ok(!l.is_empty())
                        }
                        (true, Err(e)) => Out::Bad(format!("refused although every feature is supported: {:#}", e)),
                        (false, Ok(_)) => Out::Bad(format!("opened although {:?} is not supported", missing)),
                        (false, Err(e)) => {
                            let m = format!("{:#} {:?}", e, e);
                            match missing.iter().find(|f| !m.contains(&***f)) {
                                Some(f) => Out::Bad(format!("the error does not name {:?}: {}", f, m)),
                                None => ok(true),
                            }
                        }
                    }
                });
            }
        }
    }
    // however the header is encoded, and wherever in a long list a feature stands
    let other = |t: &str, b: &[u8], i: Option<&[u8]>, u: bool| pbf::blob(t, b, i, u);
    for body in [pbf::Body::Raw, pbf::Body::RawWithSize, pbf::Body::Zlib, pbf::Body::ZlibNoSize] {
        for index in [None, Some(0usize), Some(127), Some(16_384), Some(65_000)] {
            for unknown in 0..4 {
                for missing in [false, true] {
                    for count in [1usize, 2, 100, 5000] {
                        for at in [0, count / 2, count - 1] {
                            if count > 100 && (at == count / 2 || unknown == 1 || unknown == 2) {
                                continue;
                            }
                            ctx.case(&format!("header {:?} index {:?} unknown fields {} features {} the {} {}", body, index, unknown, count, at, if missing { "unsupported" } else { "optional" }), || {
                                let mut h = Header { required: (0..count).map(|i| ["OsmSchema-V0.6", "DenseNodes"][i % 2].to_string()).collect(), optional: vec![], ..Default::default() };
                                if missing {
                                    h.required[at] = "Unheard-Of".into();
                                } else {
                                    h.optional = (0..count).map(|i| if i == at { "Unheard-Of".into() } else { "Sort.Type_then_ID".to_string() }).collect();
                                }
                                let mut hb = pbf::header_block(&h);
                                if unknown & 1 > 0 {
                                    let more = [0xa2u8, 0x06, 3, b'a', b'b', b'c', 0xa8, 0x06, 0x96, 0x01];
                                    hb = [&more[..], &hb, &more[..]].concat();
                                }
                                let i = index.map(|n| vec![7u8; n]);
                                let mut f = other("OSMHeader", &pbf::blob_body(&hb, body, 6), i.as_deref(), unknown & 2 > 0);
                                f.extend(pbf::data_blob(&pbf::Block::dense(vec![El::node(1)])));
                                let p = s.write("f.osm.pbf", &f);
                                match (missing, Reader::new(&p)) {
                                    (false, Ok(r)) if r.info().required_features() == &h.required && r.info().optional_features() == &h.optional => ok(true),
                                    (false, Ok(_)) => Out::Bad("the features are reported otherwise".into()),
                                    (false, Err(e)) => Out::Bad(format!("refused: {:#}", e)),
                                    (true, Ok(_)) => Out::Bad("opened".into()),
                                    (true, Err(e)) if format!("{:#}", e).contains("Unheard-Of") => ok(true),
                                    (true, Err(e)) => Out::Bad(format!("the error does not name the feature: {:.200}", format!("{:#}", e))),
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    // the first block is not a header
    let head = pbf::header_blob(&Header::usual());
    let data = pbf::data_blob(&pbf::Block::dense(vec![El::node(1)]));
    let other = |t: &str, b: &[u8]| pbf::blob(t, b, None, false);
    let hb = pbf::blob_body(&pbf::header_block(&Header::usual()), pbf::Body::Zlib, 6);
    let cases: Vec<(&str, Vec<u8>)> = vec![
        ("empty file", vec![]),
        ("data first", [data.clone(), head.clone()].concat()),
        ("only data", data.clone()),
        ("unknown type first", [other("OSMOther", &hb), head.clone(), data.clone()].concat()),
        ("header with a type in lower case", [other("osmheader", &hb), data.clone()].concat()),
        ("header with a type cut short", [other("OSMHeade", &hb), data.clone()].concat()),
        ("header with an empty type", [other("", &hb), data.clone()].concat()),
        ("header declared as data", [other("OSMData", &hb), data.clone()].concat()),
        ("text", b"<?xml version='1.0' encoding='UTF-8'?><osm></osm>".to_vec()),
        ("zeros", vec![0; 64]),
        ("ones", vec![255; 64]),
        ("one byte", vec![0]),
        ("length only", vec![0, 0, 0, 13]),
        ("unsupported compression", [other("OSMHeader", &[0x22, 2, 1, 2]), data.clone()].concat()),
    ];
    for (n, b) in cases {
        ctx.case(&format!("not a header: {}", n), || {
            let p = s.write("f.osm.pbf", &b);
            match Reader::new(&p) {
                Ok(_) => Out::Bad("opened".into()),
                Err(_) => ok(true),
            }
        });
    }
    ctx.case("no such file", || match Reader::new(&s.file("missing.osm.pbf")) {
        Ok(_) => Out::Bad("opened".into()),
        Err(_) => ok(true),
    });
    ctx.case("a directory", || match Reader::new(s.path()) {
        Ok(_) => Out::Bad("opened".into()),
        Err(_) => ok(true),
    });
}
