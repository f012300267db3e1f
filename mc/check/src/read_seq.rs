//! C03, C12: sequential (and parallel) reading of every encoding, and of damaged files.
use crate::conv;
use crate::effects::{self, Fault};
use crate::files;
use crate::inputs::*;
use crate::io::{self, Op};
use crate::par::{self, Mode};
use crate::read_par::{self, What};
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Body, Group, Header, W};
use oracle::scratch::Scratch;
use osm_io::osm::model::element::Element;
use crate::seq;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::Path;

/// as conv::from, coordinates to the nanodegree
fn exact(e: &Element) -> Result<El, String> {
    let mut x = conv::from(e).ok_or("a sentinel from the sequential iterator")?;
    if let Element::Node { node } = e {
        x.lat = (node.coordinate().lat() * 1e9).round() as i64;
        x.lon = (node.coordinate().lon() * 1e9).round() as i64;
    }
    Ok(x)
}

/// the values the file states; what it leaves out may be given as any value that means "absent"
fn same(want: &(El, u8), got: &El) -> Result<(), String> {
    let (w, m) = want;
    let mut w = w.clone();
    let mut bad = vec![];
    let mut absent = |bit: u8, ok: bool, name: &str| {
        if m & bit == 0 && !ok {
            bad.push(name.to_string());
        }
        m & bit == 0
    };
    if absent(pbf::VERSION, got.version == 0 || got.version == -1, "version") {
        w.version = got.version;
    }
    if absent(pbf::TS, got.ts == 0 || got.ts == -1, "timestamp") {
        w.ts = got.ts;
    }
    if absent(pbf::CS, got.cs == 0 || got.cs == -1, "changeset") {
        w.cs = got.cs;
    }
    if absent(pbf::UID, got.uid == 0 || got.uid == -1, "uid") {
        w.uid = got.uid;
    }
    if absent(pbf::USER, got.user.is_empty(), "user") {
        w.user = got.user.clone();
    }
    if absent(pbf::VISIBLE, got.visible, "visible") {
        w.visible = got.visible;
    }
    if !bad.is_empty() {
        return Err(format!("{}: {} not given in the file but read as something: {:?}", w.brief(), bad.join(", "), got));
    }
    if w != *got {
        return Err(format!("in the file {:?}, read {:?}", w, got).chars().take(1500).collect());
    }
    Ok(())
}

fn compare(want: &[(El, u8)], got: &[El]) -> Result<(), String> {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        same(a, b).map_err(|e| format!("element {}: {}", i, e))?;
    }
    if want.len() != got.len() {
        return Err(format!("{} elements in the file, {} read", want.len(), got.len()));
    }
    Ok(())
}

fn iterate(p: &Path) -> Result<Vec<El>, String> {
    let r = Reader::new(p).map_err(|e| format!("opening failed: {:#}", e))?;
    r.elements().map_err(|e| format!("elements failed: {:#}", e))?.map(|e| exact(&e)).collect()
}

/// C25 goes over the same encodings, block by block.
static BLOCKWISE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn blockwise() -> bool {
    BLOCKWISE.load(std::sync::atomic::Ordering::Relaxed)
}

/// The blocks of a file, and what becomes of them when a sequential writer is given them.
fn by_blocks(p: &Path, header: &Header, blocks: &[Block], z: bool) -> Result<(), String> {
    let r = Reader::new(p).map_err(|e| format!("opening failed: {:#}", e))?;
    let copy = p.with_file_name("copy.osm.pbf");
    let mut w = Writer::from_file_info(copy.clone(), FileInfo::default(), seq::compression(z)).map_err(|e| format!("creating the writer failed: {:#}", e))?;
    let mut copied: Vec<Vec<El>> = vec![];
    let mut frac = vec![];
    for (i, b) in r.blocks().map_err(|e| format!("blocks failed: {:#}", e))?.enumerate() {
        match &b {
            FileBlock::Header { header: h, .. } => {
                if i != 0 {
                    return Err(format!("block {} is given as a header", i));
                }
                let got = seq::uninfo(h.info());
                if got != *header {
                    return Err(format!("header {:?} read as {:?}", header, got));
                }
            }
            FileBlock::Data { data, .. } => {
                let Some(want) = i.checked_sub(1).and_then(|i| blocks.get(i)) else {
                    return Err(format!("block {} is given as data, the file has {} data blocks", i, blocks.len()));
                };
                let got: Vec<El> = data.elements().iter().map(exact).collect::<Result<_, _>>()?;
                compare(&want.elements(), &got).map_err(|e| format!("block {}: {}", i, e))?;
                let nodes: Vec<(f64, f64)> = data.elements().iter().filter_map(|e| if let Element::Node { node } = e { Some((node.coordinate().lat(), node.coordinate().lon())) } else { None }).collect();
                let bb = nodes.iter().fold(None, |a: Option<[f64; 4]>, (y, x)| match a {
                    None => Some([*x, *y, *x, *y]),
                    Some([l, b, r, t]) => Some([l.min(*x), b.min(*y), r.max(*x), t.max(*y)]),
                });
                let is = data.compute_bounding_box().map(|b| [b.left(), b.bottom(), b.right(), b.top()]);
                if bb != is {
                    return Err(format!("block {} has the bounding box {:?}, its nodes {:?}", i, is, bb));
                }
                let mut q: Vec<El> = got.iter().map(quantised).collect();
                q.sort_by_key(|e| e.kind);
                frac.push(got.iter().any(|e| e.ts < 0 && e.ts % 1000 != 0));
                copied.push(q);
            }
        }
        w.write_file_block(b).map_err(|e| format!("writing block {} failed: {:#}", i, e))?;
    }
    if copied.len() != blocks.len() {
        return Err(format!("{} data blocks given, {} in the file", copied.len(), blocks.len()));
    }
    w.close().map_err(|e| format!("close failed: {:#}", e))?;
    let (d, _) = par::decode(&copy).map_err(|e| format!("the copy: {}", e))?;
    if d.header != *header {
        return Err(format!("header {:?} copied as {:?}", header, d.header));
    }
    if d.blocks.len() != copied.len() {
        return Err(format!("{} data blocks copied as {}", copied.len(), d.blocks.len()));
    }
    let mut want = vec![];
    for (i, (a, b)) in copied.iter().zip(&d.blocks).enumerate() {
        // a time before 1970 may have been cut to a second either way
        let mut a = a.clone();
        for (x, y) in a.iter_mut().zip(&b.elements) {
            if x.ts < 0 && y.ts == x.ts + 1000 && frac[i] {
                x.ts = y.ts;
            }
        }
        diff(&a, &b.elements).map_err(|e| format!("block {} of the copy: {}", i + 1, e))?;
        want.extend(a);
        if b.compressed != z {
            return Err(format!("block {} of the copy has the wrong compression", i + 1));
        }
    }
    let back: Vec<El> = seq::read(&copy).map_err(|e| format!("the copy: {}", e))?;
    diff(&want, &back).map_err(|e| format!("the copy read again: {}", e))
}

fn case(ctx: &mut Ctx, s: &Scratch, key: &str, make: impl FnOnce() -> Vec<Block>) {
    ctx.case(key, || {
        let b = make();
        let p = s.write("in.osm.pbf", &pbf::file(&Header::usual(), &b));
        let want: Vec<(El, u8)> = b.iter().flat_map(|x| x.elements()).collect();
        if blockwise() {
            let z = b.len() % 2 == 0;
            return match by_blocks(&p, &Header::usual(), &b, z).and_then(|_| if b.len() < 10 { by_blocks(&p, &Header::usual(), &b, !z) } else { Ok(()) }) {
                Ok(()) => Out::Ok { nontrivial: true, what: format!("{} blocks, {} elements", b.len(), want.len()) },
                Err(e) => Out::Bad(e),
            };
        }
        match iterate(&p).and_then(|got| compare(&want, &got)) {
            Ok(()) => Out::Ok { nontrivial: !want.is_empty(), what: format!("{} elements", want.len()) },
            Err(e) => Out::Bad(e),
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Dense,
    Nodes,
    Ways,
    Rels,
}
const FORMS: [Form; 4] = [Form::Dense, Form::Nodes, Form::Ways, Form::Rels];

impl Form {
    fn kind(self) -> Kind {
        match self {
            Form::Dense | Form::Nodes => Kind::Node,
            Form::Ways => Kind::Way,
            Form::Rels => Kind::Relation,
        }
    }
    fn group(self, v: Vec<El>, m: Option<u8>) -> Group {
        match self {
            Form::Dense => Group::Dense(v, m),
            Form::Nodes => Group::Nodes(v, m),
            Form::Ways => Group::Ways(v, m),
            Form::Rels => Group::Rels(v, m),
        }
    }
    /// elements with all their fields different from one another
    fn sample(self, n: usize, base: i64) -> Vec<El> {
        (0..n as i64)
            .map(|i| {
                let mut e = El::of(self.kind(), base + i * 2);
                e.version = 3 + i as i32;
                e.ts = 1_500_000_000_000 + i * 3_600_000_000 - (i % 2) * 7_200_000_000;
                e.cs = 900 - i * 7;
                e.uid = 50 + (i as i32 % 2) * 100 - i as i32;
                e.user = format!("user {}", i % 2);
                e.visible = i % 2 == 1;
                if i % 3 != 1 {
                    e.tags = vec![("k".into(), format!("v{}", i)), ("shared".into(), "k".into())];
                }
                if self.kind() == Kind::Node {
                    e.lat = 1_234_000_000 + i * 60_000_000 - (i % 2) * 5_000_000_000;
                    e.lon = -77_001_000_000 + i * 120_000_000;
                }
                e
            })
            .collect()
    }
}

pub fn c03(ctx: &mut Ctx) {
    let s = Scratch::new();
    encodings(ctx, &s);
    iterators(ctx, &s);
}

pub fn c25(ctx: &mut Ctx) {
    BLOCKWISE.store(true, std::sync::atomic::Ordering::Relaxed);
    let s = Scratch::new();
    encodings(ctx, &s);
    // headers
    for (n, h) in seq::headers() {
        for l in ["n|w", ""] {
            ctx.case(&format!("header {} blocks {:?}", n, l), || {
                let b = if l.is_empty() { vec![] } else { files::blocks(l) };
                let p = s.write("in.osm.pbf", &pbf::file(&h, &b));
                Out::from(by_blocks(&p, &h, &b, true).and_then(|_| by_blocks(&p, &h, &b, false)))
            });
        }
    }
    // bytes handed over as they are
    for a in [0usize, 1, 13, 255, 256, 32_768, 65_535] {
        for b in [0usize, 1, 255, 256, 65_536, 16_777_216, 33_000_000] {
            ctx.case(&format!("blob of {} and {} bytes", a, b), || {
                let p = s.file("raw.osm.pbf");
                let r = (|| {
                    let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), seq::compression(true))?;
                    for i in 0..2u8 {
                        w.write_blob(vec![1 + i; a], vec![8 + i; b])?;
                    }
                    w.close()
                })();
                if let Err(e) = r {
                    return Out::Bad(format!("{:#}", e));
                }
                let mut want = vec![];
                for i in 0..2u8 {
                    want.extend((a as u32).to_be_bytes());
                    want.extend(std::iter::repeat(1 + i).take(a));
                    want.extend(std::iter::repeat(8 + i).take(b));
                }
                if std::fs::read(&p).unwrap() != want {
                    return Out::Bad("the file is not what was handed over with the length before it".into());
                }
                ok(true)
            });
        }
    }
}

fn encodings(ctx: &mut Ctx, s: &Scratch) {
    // presence of metadata
    for f in FORMS {
        for n in [1usize, 3] {
            case(ctx, &s, &format!("{:?} {} no metadata", f, n), || vec![Block::new(vec![f.group(f.sample(n, 5), None)])]);
            for m in 0..64u8 {
                for unpacked in [false, true] {
                    case(ctx, &s, &format!("{:?} {} metadata {:06b} unpacked {}", f, n, m, unpacked), || {
                        let mut b = Block::new(vec![f.group(f.sample(n, 5), Some(m))]);
                        b.unpacked = unpacked;
                        vec![b]
                    });
                }
            }
        }
        // groups that differ in their metadata, in one block and in two
        for g in FORMS {
            for m in [None, Some(0), Some(pbf::ALL), Some(pbf::ALL & !pbf::VISIBLE), Some(pbf::USER), Some(pbf::VERSION | pbf::TS)] {
                for k in [None, Some(pbf::ALL), Some(pbf::VISIBLE)] {
                    for two in [false, true] {
                        case(ctx, &s, &format!("{:?} {:?} then {:?} {:?} blocks {}", f, m, g, k, 1 + two as u8), || {
                            let (a, b) = (f.group(f.sample(2, 1), m), g.group(g.sample(3, 40), k));
                            if two {
                                vec![Block::new(vec![a]), Block::new(vec![b])]
                            } else {
                                vec![Block::new(vec![a, b])]
                            }
                        });
                    }
                }
            }
        }
    }
    // units and offsets
    for f in FORMS {
        for g in [None, Some(1), Some(100), Some(1000), Some(1_000_000)] {
            for lat in [None, Some(0), Some(34_000_000), Some(-51_000_000_000)] {
                for lon in [None, Some(7_000_000), Some(-1_001_000_000)] {
                    for d in [None, Some(1), Some(1000), Some(200_000)] {
                        for o in 0..8u32 {
                            case(ctx, &s, &format!("{:?} granularity {:?} offsets {:?} {:?} dates {:?} form {:03b}", f, g, lat, lon, d, o), || {
                                let mut b = Block::new(vec![f.group(f.sample(3, 9), Some(pbf::ALL))]);
                                b.granularity = g;
                                b.lat_offset = lat;
                                b.lon_offset = lon;
                                b.date_granularity = d;
                                b.unpacked = o & 1 > 0;
                                b.reversed = o & 2 > 0;
                                b.spare_strings = if o & 4 > 0 { 3 } else { 0 };
                                // a second block, with the usual units
                                vec![b, Block::new(vec![f.group(f.sample(2, 90), Some(pbf::ALL))])]
                            });
                        }
                    }
                }
            }
        }
    }
    // units in every combination with every value class of coordinates and times
    for g in [1i64, 10, 100, 1000] {
        for d in [1i64, 500, 1000] {
            for (n, e) in variants(Kind::Node) {
                if (e.lat % g, e.lon % g, e.ts % d) != (0, 0, 0) {
                    continue;
                }
                for f in [Form::Dense, Form::Nodes] {
                    case(ctx, &s, &format!("{:?} {} granularity {} dates {}", f, n, g, d), || {
                        let mut b = Block::new(vec![f.group(vec![e.clone()], Some(pbf::ALL))]);
                        b.granularity = Some(g as i32);
                        b.date_granularity = Some(d as i32);
                        vec![b]
                    });
                }
            }
        }
    }
    // pairs of values in one group
    for f in FORMS {
        let v: Vec<(String, El)> = variants(f.kind()).into_iter().filter(|(_, e)| e.lat % 100 == 0 && e.lon % 100 == 0 && e.ts % 1000 == 0).collect();
        for (a, x) in &v {
            for (b, y) in &v {
                case(ctx, &s, &format!("{:?} pair [{}] [{}]", f, a, b), || {
                    let mut k = Block::new(vec![f.group(vec![x.clone(), y.clone()], Some(pbf::ALL))]);
                    k.body = Body::Raw;
                    vec![k]
                });
            }
        }
    }
    // containers
    for body in [Body::Raw, Body::RawWithSize, Body::Zlib, Body::ZlibNoSize] {
        for level in [0, 1, 6, 9] {
            if level != 6 && matches!(body, Body::Raw | Body::RawWithSize) {
                continue;
            }
            for index in [None, Some(vec![]), Some(vec![0u8; 40]), Some(vec![8u8; 128]), Some(vec![8u8; 16_400]), Some(vec![255u8; 65_400])] {
                for unknown in [false, true] {
                    for f in FORMS {
                        for n in [0usize, 1, 40] {
                            case(ctx, &s, &format!("{:?} {:?} level {} index {:?} unknown fields {} elements {}", f, body, level, index.as_ref().map(|i| i.len()), unknown, n), || {
                                let mut b = Block::new(vec![f.group(f.sample(n, 1), Some(pbf::ALL))]);
                                b.body = body;
                                b.level = level;
                                b.indexdata = index.clone();
                                b.unknown_fields = unknown;
                                vec![b.clone(), b]
                            });
                        }
                    }
                }
            }
        }
    }
    // blobs of unknown types of any size and name
    for name in [1usize, 7, 8, 9, 127, 128, 255, 256, 4096, 65_000] {
        for size in [0usize, 1, 127, 128, 65_535, 65_536, 1 << 20, 31 << 20] {
            for after in [false, true] {
                ctx.case(&format!("unknown blob with a name of {} and {} bytes, after {}", name, size, after), || {
                    let b = files::blocks("n|w|r");
                    let mut f = pbf::header_blob(&Header::usual());
                    for (i, x) in b.iter().enumerate() {
                        if !after || i == 1 {
                            f.extend(pbf::blob(&"OSMIndex".repeat(name / 8 + 1)[..name], &vec![0x55; size], None, false));
                        }
                        f.extend(pbf::data_blob(x));
                    }
                    if after {
                        f.extend(pbf::blob(&"OSMIndex".repeat(name / 8 + 1)[..name], &vec![0x55; size], Some(&[1]), false));
                    }
                    let p = s.write("in.osm.pbf", &f);
                    let want: Vec<(El, u8)> = b.iter().flat_map(|x| x.elements()).collect();
                    if blockwise() {
                        return Out::from(by_blocks(&p, &Header::usual(), &b, after));
                    }
                    Out::from(iterate(&p).and_then(|got| compare(&want, &got)))
                });
            }
        }
    }
    // long runs of blocks and groups without elements
    for n in [100usize, 10_000, if ctx.thorough() { 1_000_000 } else { 150_000 }] {
        for l in ["", ","] {
            case(ctx, &s, &format!("{} empty blocks {:?} between nodes", n, l), || {
                let mut b = files::blocks("n");
                let e = files::blocks(&format!("{}|n", l)).remove(0);
                b.extend(std::iter::repeat(e).take(n));
                b.extend(files::blocks("n|nn").pop());
                b
            });
        }
    }
    // every sequence of blocks over a small set, with blobs of unknown types anywhere
    let kinds = ["", ",", "n", "nn", "N", "w", "r", "n,w", "r,n", "N,n,N", "w,,r", ",n"];
    for len in 0..=if ctx.thorough() { 4u32 } else { 3 } {
        for c in 0..kinds.len().pow(len) {
            let l: Vec<&str> = (0..len).map(|i| kinds[c / kinds.len().pow(i) % kinds.len()]).collect();
            let blocks = || if l.is_empty() { vec![] } else { files::blocks(&l.join("|")) };
            case(ctx, &s, &format!("blocks {:?}", l), blocks);
            for odd in 0..1u32 << (len + 1) {
                if odd == 0 || len == 4 {
                    continue;
                }
                ctx.case(&format!("blocks {:?} unknown blobs {:b}", l, odd), || {
                    let b = blocks();
                    let mut f = pbf::header_blob(&Header::usual());
                    for i in 0..=b.len() {
                        if odd >> i & 1 == 1 {
                            f.extend(pbf::blob(["OSMOther", "osmdata", "", "OSMDat"][i % 4].replace("", if i % 4 == 2 { "z" } else { "" }).as_str(), &pbf::blob_body(b"not a block", Body::Zlib, 6), None, i % 2 == 1));
                        }
                        if i < b.len() {
                            f.extend(pbf::data_blob(&b[i]));
                        }
                    }
                    let p = s.write("in.osm.pbf", &f);
                    let want: Vec<(El, u8)> = b.iter().flat_map(|x| x.elements()).collect();
                    if blockwise() {
                        return Out::from(by_blocks(&p, &Header::usual(), &b, odd % 2 == 0));
                    }
                    Out::from(iterate(&p).and_then(|got| compare(&want, &got)))
                });
            }
        }
    }
    // large blocks
    for f in FORMS {
        for n in [7999usize, 8000, 8001, 20_000] {
            case(ctx, s, &format!("{:?} block of {}", f, n), || vec![Block::new(vec![f.group((0..n as i64).map(|i| El::of(f.kind(), i)).collect(), Some(pbf::ALL))])]);
        }
    }
}

/// Several iterators of one reader, stepped in every order.
fn iterators(ctx: &mut Ctx, s: &Scratch) {
    let p = s.write("harness-it.osm.pbf", &files::file("n,w||r|n"));
    let want = files::elements(&files::blocks("n,w||r|n"));
    let steps = want.len() + 1;
    // a schedule: which iterator makes the next step (a step past the end included)
    let mut scheds: Vec<Vec<usize>> = vec![];
    fn go(cur: &mut Vec<usize>, left: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(cur, left, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    go(&mut vec![], &mut vec![steps, steps], &mut scheds);
    go(&mut vec![], &mut vec![2, 3, 2], &mut scheds);
    for (n, sch) in scheds.iter().enumerate() {
        ctx.case(&format!("iterators stepped {} {:?}", n, sch), || {
            let r = (|| {
                let reader = Reader::new(&p).map_err(|e| format!("{:#}", e))?;
                let k = 1 + *sch.iter().max().unwrap();
                let mut its: Vec<Option<(Box<dyn Iterator<Item = Element>>, usize)>> = (0..k).map(|_| None).collect();
                for i in sch {
                    if its[*i].is_none() {
                        // created at its first step
                        its[*i] = Some((Box::new(reader.elements().map_err(|e| format!("{:#}", e))?), 0));
                    }
                    let (it, pos) = its[*i].as_mut().unwrap();
                    let got = it.next();
                    match (want.get(*pos), got) {
                        (None, None) => {}
                        (Some(w), Some(g)) => {
                            let g = exact(&g)?;
                            if g != *w {
                                return Err(format!("iterator {} step {}: expected {:?} got {:?}", i, pos, w, g));
                            }
                        }
                        (w, g) => return Err(format!("iterator {} step {}: expected {:?} got {:?}", i, pos, w.map(|e| e.brief()), g.and_then(|e| conv::from(&e)).map(|e| e.brief()))),
                    }
                    *pos += 1;
                }
                Ok(())
            })();
            Out::from(r)
        });
    }
    // iteration after counting, after a parallel pass, and again
    for ops in ["ee", "epe", "pe", "cec", "cpe", "ppe", "ebe", "bpec"] {
        let p = s.write("in2.osm.pbf", &files::file("nn|w|r,n"));
        let want = files::elements(&files::blocks("nn|w|r,n"));
        par::scenario(ctx, &format!("repeated use {}", ops), Mode::One, 1, move |begin| {
            let reader = Reader::new(&p).map_err(|e| format!("{:#}", e))?;
            begin();
            for o in ops.chars() {
                match o {
                    'e' => {
                        let got: Vec<El> = reader.elements().map_err(|e| format!("{:#}", e))?.map(|e| exact(&e)).collect::<Result<_, _>>()?;
                        diff(&want, &got)?;
                    }
                    'c' => {
                        let c = reader.count_objects().map_err(|e| format!("{:#}", e))?;
                        if c != (3, 1, 1) {
                            return Err(format!("{:?}", c));
                        }
                    }
                    'b' => {
                        osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator::new(&p).calc().map_err(|e| format!("{:#}", e))?;
                    }
                    _ => {
                        let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                        let m = n.clone();
                        reader
                            .parallel_for_each(2, move |e| {
                                if conv::from(&e).is_some() {
                                    m.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                }
                                Ok(())
                            })
                            .map_err(|e| format!("{:#}", e))?;
                        let n = n.load(std::sync::atomic::Ordering::SeqCst);
                        if n != want.len() {
                            return Err(format!("{} elements in parallel", n));
                        }
                    }
                }
            }
            Ok("same".into())
        });
    }
}

// --------------------------------------------------------------------------------------------
// C12

/// The data of a blob, by a decoder that only insists on what no decoder can do without. Nothing
/// protects uncompressed data, so there anything goes that is a message at all.
fn contents(body: &[u8]) -> Option<()> {
    use std::io::Read;
    let (mut raw, mut size, mut z) = (None, None, None);
    for (f, v) in pbf::fields(body).ok()? {
        match (f, v) {
            (1, pbf::V::B(x)) => raw = Some(x),
            (2, pbf::V::I(x)) => size = Some(x as i64 as i32),
            (3, pbf::V::B(x)) => z = Some(x),
            (1..=3, _) => return None,
            _ => {}
        }
    }
    match (raw, z) {
        (Some(r), _) => {
            pbf::fields(r).ok()?;
        }
        (None, Some(z)) => {
            let mut out = vec![];
            flate2::read::ZlibDecoder::new(z).take(64 << 20).read_to_end(&mut out).ok()?;
            if size.is_some_and(|s| s as i64 != out.len() as i64) {
                return None;
            }
            pbf::fields(&out).ok()?;
        }
        (None, None) => return None,
    }
    Some(())
}

/// Is every block of the file complete and its contents readable?
fn sound(b: &[u8]) -> Option<()> {
    let mut p = 0;
    let mut first = true;
    if b.is_empty() {
        return None;
    }
    while p < b.len() {
        let n = i32::from_be_bytes(b.get(p..p + 4)?.try_into().ok()?);
        p += 4;
        let h = b.get(p..p.checked_add(usize::try_from(n).ok()?)?)?;
        p += n as usize;
        let (mut t, mut size) = (None, None);
        for (f, v) in pbf::fields(h).ok()? {
            match (f, v) {
                (1, pbf::V::B(x)) => t = Some(String::from_utf8(x.to_vec()).ok()?),
                (3, pbf::V::I(x)) => size = Some(x as i64 as i32),
                _ => {}
            }
        }
        let size = usize::try_from(size?).ok()?;
        let body = b.get(p..p.checked_add(size)?)?;
        p += size;
        let t = t?;
        if first && t != "OSMHeader" {
            return None;
        }
        if t == "OSMHeader" || t == "OSMData" {
            contents(body)?;
        }
        first = false;
    }
    Some(())
}

/// Read a file every way; a damaged one must not pass for a complete one.
fn damaged(ctx: &mut Ctx, s: &Scratch, key: &str, bytes: Vec<u8>, parallel: bool) {
    if sound(&bytes).is_some() {
        // what is left is a sound file: nothing to notice
        return;
    }
    let b = bytes.clone();
    ctx.case(&format!("{} sequential", key), || {
        let p = s.write("d.osm.pbf", &b);
        let reader = match Reader::new(&p) {
            Err(_) => return ok(true),
            Ok(r) => r,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reader.elements().map(|it| it.take(1_000_000).count())));
        match r {
            Err(_) | Ok(Err(_)) => ok(true),
            Ok(Ok(n)) => Out::Bad(format!("sequential iteration ends normally after {} elements", n)),
        }
    });
    if parallel {
        for tasks in [1, 2] {
            read_par::damaged(ctx, &format!("{} parallel tasks {}", key, tasks), bytes.clone(), What::Iterate, tasks, Mode::One);
        }
        read_par::damaged(ctx, &format!("{} counting", key), bytes.clone(), What::Count, 2, Mode::One);
        read_par::damaged(ctx, &format!("{} bounding box", key), bytes, What::Bbox, 2, Mode::One);
    }
}

fn varint_len(b: &[u8], p: usize) -> usize {
    (p..).position(|i| b[i] & 0x80 == 0).unwrap() + 1
}

pub fn c12(ctx: &mut Ctx) {
    let s = Scratch::new();
    let z = |layout: &str, body: Body| {
        let mut out = pbf::blob("OSMHeader", &pbf::blob_body(&pbf::header_block(&Header::usual()), if body == Body::Zlib { Body::Zlib } else { Body::Raw }, 6), None, false);
        for mut b in files::blocks(layout) {
            b.body = body;
            out.extend(pbf::data_blob(&b));
        }
        out
    };
    let mut inputs: Vec<(String, Vec<u8>)> = vec![];
    for layout in ["nn|w|r", "n", "nnn,w|rr|N,n|w"] {
        for body in [Body::Zlib, Body::Raw, Body::RawWithSize] {
            inputs.push((format!("{} {:?}", layout, body), z(layout, body)));
        }
    }
    // what the library itself writes
    {
        let v: Vec<El> = (1..40).map(El::node).chain((1..5).map(El::way)).chain((1..5).map(El::rel)).collect();
        for zl in [true, false] {
            let p = s.file("harness-w.osm.pbf");
            if crate::seq::write(&p, &[(true, v.clone())], zl).is_ok() {
                inputs.push((format!("own file {}", if zl { "zlib" } else { "raw" }), std::fs::read(&p).unwrap()));
            }
        }
    }
    for (n, f) in &inputs {
        let d = match pbf::decode(f) {
            Ok(d) => d,
            Err(e) => {
                ctx.engine_error(&format!("{}: {}", n, e));
                continue;
            }
        };
        let mut edges = vec![d.header_end];
        edges.extend(d.blocks.iter().map(|b| b.end));
        // cut at every byte
        for i in 0..f.len() {
            if edges.contains(&i) {
                continue;
            }
            let parallel = ctx.thorough() || i % 3 == 0 || edges.iter().any(|e| i.abs_diff(*e) < 24);
            damaged(ctx, &s, &format!("{} cut at {}", n, i), f[..i].to_vec(), parallel);
        }
        // zeros instead of the rest, as after a crash
        for i in 1..f.len() {
            if f[i..].iter().all(|x| *x == 0) {
                continue;
            }
            let mut g = f.clone();
            g[i..].fill(0);
            damaged(ctx, &s, &format!("{} zeros from {}", n, i), g, i % 7 == 0);
        }
        // a hole: one block's bytes missing in the middle
        for w in edges.windows(2) {
            for cut in [1usize, 2, 4, 7] {
                let mut g = f[..w[0]].to_vec();
                g.extend(&f[(w[0] + cut).min(f.len())..]);
                damaged(ctx, &s, &format!("{} {} bytes missing at {}", n, cut, w[0]), g, true);
                let mut g = f[..w[1] - cut].to_vec();
                g.extend(&f[w[1]..]);
                damaged(ctx, &s, &format!("{} {} bytes missing before {}", n, cut, w[1]), g, true);
            }
        }
        // rubbish after the last block
        for tail in [&[0u8][..], &[0, 0, 0], &[0, 0, 0, 0], &[0, 0, 0, 0, 0], &[0, 0, 0, 9], &[255; 4], &[255; 30], &[0x7f, 255, 255, 255, 1], &[0, 0, 0, 2, 0x18, 0], &[0; 4096]] {
            let mut g = f.clone();
            g.extend(tail);
            damaged(ctx, &s, &format!("{} followed by {} bytes {:?}", n, tail.len(), &tail[..tail.len().min(6)]), g, true);
        }
        // length fields
        let mut starts = vec![0usize];
        starts.extend(d.blocks.iter().map(|b| b.start));
        for st in starts.iter() {
            let len = i32::from_be_bytes(f[*st..*st + 4].try_into().unwrap());
            let mut vals: Vec<i32> = (0..4).flat_map(|k| [1u8, 2, 4, 8, 16, 32, 64, 128].map(|bit| (k, bit))).map(|(k, bit)| (len as u32 ^ (bit as u32) << (8 * k)) as i32).collect();
            vals.extend([0, 1, 2, len - 1, len + 1, -1, i32::MAX, i32::MIN, 64 * 1024, 64 * 1024 + 1]);
            for v in vals {
                if v == len {
                    continue;
                }
                let mut g = f.clone();
                g[*st..*st + 4].copy_from_slice(&v.to_be_bytes());
                damaged(ctx, &s, &format!("{} header length at {} is {}", n, st, v), g, true);
            }
            // the blob header: every byte, every bit; every other value of the size
            for i in *st + 4..*st + 4 + len as usize {
                for bit in 0..8 {
                    let mut g = f.clone();
                    g[i] ^= 1 << bit;
                    damaged(ctx, &s, &format!("{} bit {} of byte {}", n, bit, i), g, true);
                }
            }
            let h = *st + 4;
            let tlen = f[h + 1] as usize;
            let sp = h + 2 + tlen + 1;
            if f[sp - 1] == 0x18 {
                let k = varint_len(f, sp);
                let size: i64 = (0..k).map(|i| ((f[sp + i] & 0x7f) as i64) << (7 * i)).sum();
                for v in [0, 1, size - 1, size + 1, size * 2, -1, i64::from(i32::MAX), i64::from(i32::MIN), 32 << 20, (32 << 20) + 1, 1 << 32, (1 << 32) + size] {
                    let mut w = W::new();
                    w.int(3, v);
                    let mut nh = f[h..h + 2 + tlen].to_vec();
                    nh.extend(&w.0);
                    let mut g = f[..*st].to_vec();
                    g.extend((nh.len() as i32).to_be_bytes());
                    g.extend(nh);
                    g.extend(&f[h + len as usize..]);
                    damaged(ctx, &s, &format!("{} block size at {} is {}", n, st, v), g, true);
                }
            }
            // the body: every bit of it (which for a zlib stream the checksum must notice)
            let bs = *st + 4 + len as usize;
            let be = edges.iter().copied().find(|e| *e > bs).unwrap();
            let compressed = n.contains("lib");
            let bits: &[u8] = if ctx.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 3, 7] };
            for i in bs..be {
                // for raw data only the frame of the blob is protected
                if !compressed && i > bs + 4 && i + 4 < be {
                    continue;
                }
                for bit in bits {
                    let mut g = f.clone();
                    g[i] ^= 1 << bit;
                    damaged(ctx, &s, &format!("{} bit {} of byte {}", n, bit, i), g, i % 11 == 0);
                }
            }
        }
    }
    // declared sizes of compressed data
    for layout in ["nn|w", "r"] {
        let blocks = files::blocks(layout);
        for (bi, b) in blocks.iter().enumerate() {
            let data = pbf::primitive_block(b);
            let n = data.len() as i64;
            for v in [0, 1, n - 1, n + 1, n * 2, -1, i64::from(i32::MAX), i64::from(i32::MIN), 32 << 20, 1 << 40] {
                let mut w = W::new();
                w.int(2, v);
                w.bytes(3, &pbf::zlib(&data, 6));
                let blob = pbf::blob("OSMData", &w.0, None, false);
                let mut f = pbf::header_blob(&Header::usual());
                for (i, x) in blocks.iter().enumerate() {
                    f.extend(if i == bi { blob.clone() } else { pbf::data_blob(x) });
                }
                damaged(ctx, &s, &format!("{} declared size of block {} is {} instead of {}", layout, bi, v, n), f, true);
            }
        }
    }
    // calls to the operating system that fail
    for layout in ["n", "nn|w|r", "n,w|r"] {
        let want = files::elements(&files::blocks(layout));
        let f = s.write("f.osm.pbf", &files::file(layout));
        let iterate = |p: &Path| -> Result<Vec<El>, String> {
            let r = Reader::new(p).map_err(|e| format!("opening failed: {:#}", e))?;
            Ok(r.elements().map_err(|e| format!("elements failed: {:#}", e))?.filter_map(|e| conv::from(&e)).collect())
        };
        io::set_plan(Some(Box::new(|_, _, _| io::Act::Go)));
        let n = effects::caught(|| iterate(&f)).and_then(|r| r);
        let counts = io::counts();
        io::set_plan(None);
        if n.is_err() {
            // another check's business
            continue;
        }
        for op in [Op::Open, Op::Read, Op::Seek] {
            // parallel reading may make a few more
            for at in 0..counts[op as usize] + 2 {
                for fault in [Fault::Once(io::EIO), Fault::Lasting(io::EIO), Fault::Torn(io::EIO)] {
                    if op != Op::Read && matches!(fault, Fault::Torn(_)) {
                        continue;
                    }
                    let key = format!("{} {:?} {} {:?}", layout, op, at, fault);
                    ctx.case(&format!("{} sequential", key), || {
                        let f = s.write("f.osm.pbf", &files::file(layout));
                        let fired = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                        io::set_plan(Some(effects::plan(op, at, fault, fired)));
                        let r = effects::caught(|| iterate(&f)).and_then(|r| r);
                        io::set_plan(None);
                        match r {
                            Err(_) => ok(true),
                            Ok(got) => match diff(&want, &got) {
                                Ok(()) => ok(false),
                                Err(e) => Out::Bad(format!("iteration ends normally although a call failed: {}", e)),
                            },
                        }
                    });
                    let mode = if layout == "n" || layout == "n,w|r" || ctx.thorough() { Mode::All } else { Mode::One };
                    for (what, tasks) in [(What::Iterate, 1), (What::Iterate, 2), (What::Count, 2), (What::Bbox, 2)] {
                        read_par::failing_call(ctx, &format!("{} {:?} tasks {}", key, what, tasks), layout, what, tasks, mode, op, at, fault);
                    }
                }
            }
        }
    }
    // blocks with damaged contents, anywhere in the file
    for kind in 0..files::DAMAGE.len() {
        for at in 0..=2 {
            let f = files::with_blob("nn|w", at, &files::damaged(kind));
            let key = format!("{} at {}", files::DAMAGE[kind], at);
            ctx.case(&format!("{} sequential", key), || {
                let p = s.write("d.osm.pbf", &f);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Reader::new(&p).and_then(|r| r.elements().map(|it| it.take(1000).count()))));
                match r {
                    Ok(Ok(n)) => Out::Bad(format!("sequential iteration ends normally after {} elements", n)),
                    _ => ok(true),
                }
            });
        }
    }
}
