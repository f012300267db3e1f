//! C13 to C16: writer and reader of database dumps, judged by an independent parser and generator of
//! the directory format (oracle::copy).
use crate::conv;
use crate::inputs::*;
use oracle::copy::{self, Dump, Layout, Row};
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use osm_io::osm::apidb_dump::read::reader::Reader;
use osm_io::osm::apidb_dump::write::writer::Writer;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn write(dir: &Path, els: &[El]) -> Result<(), String> {
    let mut w = Writer::new(dir.to_path_buf(), 0).map_err(|e| format!("creating the writer failed: {:#}", e))?;
    for e in els {
        w.write_element(conv::to(e)).map_err(|x| format!("writing {} failed: {:#}", e.brief(), x))?;
    }
    w.close().map_err(|e| format!("close failed: {:#}", e))
}

pub fn open(dir: &Path, tmp: &Path) -> Result<Reader, String> {
    Reader::new(dir.to_path_buf(), tmp.to_path_buf()).map_err(|e| format!("opening failed: {:#}", e))
}

/// All elements; each kind has to be followed by a sentinel.
pub fn drain(it: impl Iterator<Item = osm_io::osm::model::element::Element>) -> Result<Vec<El>, String> {
    let mut v: Vec<El> = vec![];
    let mut marks = 0usize;
    for e in it {
        match conv::from(&e) {
            None => marks += 1,
            Some(x) => {
                if x.kind as usize != marks {
                    return Err(format!("{} comes after {} sentinels", x.brief(), marks));
                }
                v.push(x)
            }
        }
    }
    if marks != 3 {
        return Err(format!("{} sentinels instead of one per kind", marks));
    }
    Ok(v)
}

pub fn read(dir: &Path, tmp: &Path) -> Result<Vec<El>, String> {
    drain(open(dir, tmp)?.elements().map_err(|e| format!("elements failed: {:#}", e))?)
}

/// What a dump preserves, in the order of reading: tags as a set.
pub fn as_read(els: &[El]) -> Vec<El> {
    let mut v: Vec<El> = els.iter().map(tag_set).collect();
    v.sort_by_key(|e| e.key());
    v
}

fn tag_set(e: &El) -> El {
    let mut e = quantised(e);
    e.tags.sort();
    e
}

pub fn same(want: &[El], got: &[El]) -> Result<(), String> {
    let got: Vec<El> = got
        .iter()
        .map(|e| {
            let mut e = e.clone();
            e.tags.sort();
            e
        })
        .collect();
    diff(&as_read(want), &got)
}

/// The domain: one name per user, one user per changeset, no two equal versions, no key twice.
pub fn consistent(v: Vec<El>) -> Vec<El> {
    let mut names: BTreeMap<i32, String> = BTreeMap::new();
    let mut sets: BTreeMap<i64, i32> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    v.into_iter()
        .map(|mut e| {
            while names.get(&e.uid).is_some_and(|n| *n != e.user) {
                e.uid = e.uid.wrapping_add(1);
            }
            names.insert(e.uid, e.user.clone());
            while sets.get(&e.cs).is_some_and(|u| *u != e.uid) {
                e.cs += 1;
            }
            sets.insert(e.cs, e.uid);
            while !seen.insert(e.key()) {
                e.version = e.version.wrapping_add(1).max(0);
            }
            let mut keys = BTreeSet::new();
            e.tags.retain(|t| keys.insert(t.0.clone()));
            e
        })
        .collect()
}

fn by_kind(mut v: Vec<El>) -> Vec<El> {
    v.sort_by_key(|e| e.kind);
    v
}

struct Place {
    s: Scratch,
}

impl Place {
    fn new() -> Place {
        Place { s: Scratch::new() }
    }
    fn dirs(&self) -> (std::path::PathBuf, std::path::PathBuf) {
        let (d, t) = (self.s.file("dump"), self.s.file("tmp"));
        let _ = std::fs::remove_dir_all(&d);
        let _ = std::fs::remove_dir_all(&t);
        (d, t)
    }
}

fn round(p: &Place, els: &[El]) -> Out {
    let (d, t) = p.dirs();
    let r = write(&d, els).and_then(|_| read(&d, &t)).and_then(|got| same(els, &got));
    match r {
        Ok(()) => Out::Ok { nontrivial: !els.is_empty(), what: format!("{} elements", els.len()) },
        Err(e) => Out::Bad(e),
    }
}

fn usable(n: &str) -> bool {
    n != "version -1"
}

/// Versions of a small object: deleted, bare, with everything.
const SHAPES: [char; 3] = ['d', 'b', 'f'];

pub fn version(kind: Kind, id: i64, ver: i32, shape: char) -> El {
    let mut e = El::of(kind, id).v(ver);
    e.cs = 100 * ver as i64 + id.rem_euclid(10) + 10 * kind as i64;
    e.uid = e.cs as i32 % 7;
    e.user = format!("user {}", e.uid);
    e.ts = 1_500_000_000_000 + 1000 * (ver as i64 * 17 + id.rem_euclid(1000));
    if kind == Kind::Node {
        e.lat += ver as i64 * 100;
    }
    match shape {
        'd' => {
            e.visible = false;
            e.refs.clear();
            e.members.clear();
        }
        'b' => {
            e.refs.clear();
            e.members.clear();
        }
        _ => {
            e.tags = vec![(format!("k{}", ver), format!("v{} {}", ver, id)), ("a".into(), format!("{}", ver))];
            e.refs = vec![ver as i64, id, 1000 + ver as i64, id];
            e.members = vec![(Kind::Way, ver as i64, format!("r{}", ver)), (Kind::Node, id, String::new()), (Kind::Relation, ver as i64, "x".into())];
            if kind != Kind::Way {
                e.refs.clear();
            }
            if kind != Kind::Relation {
                e.members.clear();
            }
        }
    }
    e
}

pub fn words(max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for w in &last {
            for c in SHAPES {
                next.push(format!("{}{}", w, c));
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

pub fn history(kind: Kind, id: i64, w: &str, first: i32, step: i32) -> Vec<El> {
    w.chars().enumerate().map(|(i, c)| version(kind, id, first + step * i as i32, c)).collect()
}

pub fn c13(ctx: &mut Ctx) {
    let p = Place::new();
    let p = &p;
    // every class of values on its own, and every pair of them
    for kind in KINDS {
        let v: Vec<(String, El)> = variants(kind).into_iter().filter(|x| usable(&x.0)).collect();
        for (n, e) in &v {
            ctx.case(&format!("{:?} {}", kind, n), || round(p, &consistent(vec![e.clone()])));
        }
        let w = if ctx.thorough() { v.clone() } else { few(kind) };
        for (a, x) in &v {
            for (b, y) in &w {
                ctx.case(&format!("{:?} pair [{}] [{}]", kind, a, b), || round(p, &consistent(sequence(vec![x.clone(), y.clone()]))));
            }
        }
    }
    // text of every character below 256 and pairs of the special ones
    for c in 1u32..256 {
        let ch = char::from_u32(c).unwrap();
        ctx.case(&format!("character {}", c), || {
            let mut v = vec![];
            for kind in KINDS {
                for (i, t) in [format!("{}", ch), format!("{}a", ch), format!("a{}", ch), format!("a{}b", ch), format!("{}{}", ch, ch), format!("\\{}", ch), format!("{}\\", ch)].into_iter().enumerate() {
                    let mut e = El::of(kind, 10 + i as i64);
                    e.uid = 10 * kind as i32 + i as i32;
                    e.cs = e.uid as i64;
                    e.user = t.clone();
                    e.tags = vec![(t.clone(), t.clone()), (format!("{} key", t), "v".into())];
                    for m in &mut e.members {
                        m.2 = t.clone();
                    }
                    v.push(e);
                }
            }
            round(p, &by_kind(v))
        });
    }
    for c in (0x100..if ctx.thorough() { 0x11_0000u32 } else { 0x1_0000 }).step_by(0x400) {
        ctx.case(&format!("characters from {:x}", c), || {
            let mut v = vec![];
            for (i, t) in characters(c, c + 0x400).into_iter().enumerate() {
                let mut e = El::of(KINDS[i % 3], 1 + i as i64);
                e.uid = i as i32 + 1;
                e.cs = i as i64 + 1;
                e.user = t.clone();
                e.tags = vec![(t.clone(), format!("v{}", t)), (format!("{}k", t), t.clone())];
                for m in &mut e.members {
                    m.2 = t.clone();
                }
                v.push(e);
            }
            round(p, &by_kind(v))
        });
    }
    for k in 0..30i64 {
        ctx.case(&format!("coordinates, row {}", k), || {
            let lat = -900_000_000 + k * 1_800_000_000 / 29;
            let v: Vec<El> = (0..1000i64)
                .flat_map(|i| {
                    let lon = -1_800_000_000 + i * 3_600_000_000 / 999;
                    (-1..=1i64).map(move |q| {
                        let mut e = El::node(1 + 3 * i + q + 1);
                        e.lat = (lat + q * (i % 3)).clamp(-900_000_000, 900_000_000) * 100;
                        e.lon = (lon + q).clamp(-1_800_000_000, 1_800_000_000) * 100;
                        e
                    })
                })
                .collect();
            round(p, &v)
        });
    }
    let al = ["\\", "\t", "\n", "\r", "N", ".", "n", "x", "4", "1", "b", "é", " ", "\u{8}"];
    for a in al {
        for b in al {
            ctx.case(&format!("texts {:?} {:?}", a, b), || {
                let mut v = vec![];
                for (i, c) in al.iter().enumerate() {
                    for (j, d) in al.iter().enumerate() {
                        let t = format!("{}{}{}{}", a, b, c, d);
                        let mut e = El::of(KINDS[(i + j) % 3], (i * 20 + j) as i64);
                        e.uid = (i * 20 + j) as i32;
                        e.cs = e.uid as i64;
                        e.user = t.clone();
                        e.tags = vec![(t.clone(), t.clone())];
                        for m in &mut e.members {
                            m.2 = t.clone();
                        }
                        v.push(e);
                    }
                }
                round(p, &by_kind(v))
            });
        }
    }
    // long names, many users and changesets
    for n in [100usize, 255, 256, 257, 300, 511, 512, 1020] {
        for ch in ["a", "é", "😀"] {
            ctx.case(&format!("user of {} {}", n, ch), || {
                let mut v = vec![];
                for i in 0..20 {
                    let mut e = El::node(i + 1);
                    e.uid = i as i32;
                    e.cs = i + 1;
                    e.user = format!("{}{}", ch.repeat(n), i);
                    v.push(e);
                }
                round(p, &v)
            });
        }
    }
    for n in [50i64, 200, 1000, 5000] {
        for how in ["rising", "falling", "mixed"] {
            ctx.case(&format!("{} users {}", n, how), || {
                let v: Vec<El> = (0..n)
                    .map(|i| {
                        let mut e = El::of(KINDS[(i * 3 / n) as usize], i % (n / 2) + 1).v((i / (n / 2) + 1) as i32);
                        let u = match how {
                            "rising" => i,
                            "falling" => n - i,
                            _ => i * 7919 % n,
                        };
                        e.uid = u as i32;
                        e.user = format!("{}{}", "name".repeat((u % 9) as usize), u);
                        e.cs = u * 11 + 1;
                        e
                    })
                    .collect();
                round(p, &v)
            });
        }
    }
    // presence and order: histories of two objects, in any order of the writing calls
    let ws = words(if ctx.thorough() { 3 } else { 2 });
    for kind in KINDS {
        for a in &ws {
            for b in &ws {
                for (x, y) in [(9, 10), (100, 20), (0, -1)] {
                    ctx.case(&format!("{:?} histories {}:{} {}:{}", kind, x, a, y, b), || {
                        let mut v = history(kind, x, a, 1, 1);
                        v.extend(history(kind, y, b, 9, 1));
                        round(p, &v)
                    });
                }
            }
        }
        let n = 4;
        let base: Vec<El> = vec![version(kind, 2, 1, 'f'), version(kind, 2, 2, 'b'), version(kind, 10, 1, 'f'), version(kind, 2, 10, 'f')];
        for perm in permutations(n) {
            ctx.case(&format!("{:?} written in the order {:?}", kind, perm), || {
                let v: Vec<El> = perm.iter().map(|i| base[*i].clone()).collect();
                round(p, &v)
            });
        }
    }
    // which kinds are there, same identifiers in all of them
    let ws = words(1);
    for a in &ws {
        for b in &ws {
            for c in &ws {
                for k in 0..8 {
                    ctx.case(&format!("kinds [{}] [{}] [{}] {}", a, b, c, k), || {
                        let mut v = vec![];
                        for (i, (kind, w)) in KINDS.iter().zip([a, b, c]).enumerate() {
                            v.extend(history(*kind, 5, w, 1, 1));
                            if k >> i & 1 == 1 {
                                v.extend(history(*kind, 6, "f", 1, 1));
                            }
                        }
                        round(p, &v)
                    });
                }
            }
        }
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

// --------------------------------------------------------------------------------------------
// C14

fn bag(mut v: Vec<Vec<String>>) -> Vec<Vec<String>> {
    v.sort();
    v
}

fn table<'a>(d: &'a Dump, n: &str) -> Result<&'a copy::Table, String> {
    d.get(&format!("public.{}", n)).ok_or_else(|| format!("no table {}", n))
}

/// the rows of a table, projected to named columns, are these in any order
fn rows_are(d: &Dump, name: &str, cols: &[&str], want: Vec<Vec<String>>) -> Result<(), String> {
    let t = table(d, name)?;
    let got = bag(t.get(cols).map_err(|e| format!("{}: {}", name, e))?);
    let want = bag(want);
    if got != want {
        let extra: Vec<_> = got.iter().filter(|r| !want.contains(r)).take(3).collect();
        let lost: Vec<_> = want.iter().filter(|r| !got.contains(r)).take(3).collect();
        return Err(format!("{} {:?}: {} rows instead of {}; unexpected {:?}; missing {:?}", name, cols, got.len(), want.len(), extra, lost).chars().take(1500).collect());
    }
    Ok(())
}

fn s(x: impl ToString) -> String {
    x.to_string()
}

fn tf(b: bool) -> String {
    s(if b { "t" } else { "f" })
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Node => "Node",
        Kind::Way => "Way",
        Kind::Relation => "Relation",
    }
}

/// timestamps without a fraction; a tile on the other side of an edge the node lies on is as good
pub fn normalise(d: &mut Dump) {
    for t in d.values_mut() {
        if let (Ok(i), Ok(a), Ok(b)) = (t.col("tile"), t.col("latitude"), t.col("longitude")) {
            for r in &mut t.rows {
                if let (Some(Ok(a)), Some(Ok(b))) = (r[a].as_ref().map(|x| x.parse::<i32>()), r[b].as_ref().map(|x| x.parse::<i32>())) {
                    let (lat, lon) = (a as f64 / 1e7, b as f64 / 1e7);
                    let near = [-1e-9, 0.0, 1e-9];
                    if near.iter().any(|p| near.iter().any(|q| r[i] == Some(s(copy::tile((lat + p).clamp(-90.0, 90.0), (lon + q).clamp(-180.0, 180.0)))))) {
                        r[i] = Some(s(copy::tile(lat, lon)));
                    }
                }
            }
        }
        if let Ok(i) = t.col("timestamp") {
            for r in &mut t.rows {
                if let Some(x) = &mut r[i] {
                    if let Some((a, f)) = x.split_once('.') {
                        if f.bytes().all(|b| b == b'0') {
                            *x = a.to_string();
                        }
                    }
                }
            }
        }
    }
}

pub fn current(d: &Dump, els: &[El]) -> Result<(), String> {
    let mut last: BTreeMap<(Kind, i64), &El> = BTreeMap::new();
    for e in els {
        let l = last.entry((e.kind, e.id)).or_insert(e);
        if e.version >= l.version {
            *l = e;
        }
    }
    let live: Vec<El> = last.values().filter(|e| e.visible).map(|e| quantised(e)).collect();
    let of = |k: Kind| live.iter().filter(move |e| e.kind == k);
    let common = |e: &El| vec![s(e.id), s(e.cs), tf(e.visible), copy::time_of(e.ts.div_euclid(1000)), s(e.version)];
    let cc = ["id", "changeset_id", "visible", "timestamp", "version"];
    rows_are(
        d,
        "current_nodes",
        &["id", "changeset_id", "visible", "timestamp", "version", "latitude", "longitude", "tile"],
        of(Kind::Node).map(|e| [common(e), vec![s(e.lat / 100), s(e.lon / 100), s(copy::tile((e.lat / 100) as f64 / 1e7, (e.lon / 100) as f64 / 1e7))]].concat()).collect(),
    )?;
    rows_are(d, "current_ways", &cc, of(Kind::Way).map(common).collect())?;
    rows_are(d, "current_relations", &cc, of(Kind::Relation).map(common).collect())?;
    for (k, t, id) in [(Kind::Node, "current_node_tags", "node_id"), (Kind::Way, "current_way_tags", "way_id"), (Kind::Relation, "current_relation_tags", "relation_id")] {
        rows_are(d, t, &[id, "k", "v"], of(k).flat_map(|e| e.tags.iter().map(move |(a, b)| vec![s(e.id), a.clone(), b.clone()])).collect())?;
    }
    rows_are(d, "current_way_nodes", &["way_id", "sequence_id", "node_id"], of(Kind::Way).flat_map(|e| e.refs.iter().enumerate().map(move |(i, r)| vec![s(e.id), s(i + 1), s(r)])).collect())?;
    rows_are(
        d,
        "current_relation_members",
        &["relation_id", "sequence_id", "member_type", "member_id", "member_role"],
        of(Kind::Relation).flat_map(|e| e.members.iter().enumerate().map(move |(i, (k, m, r))| vec![s(e.id), s(i + 1), s(kind_name(*k)), s(m), r.clone()])).collect(),
    )?;
    histories(d, els)
}

/// the history tables hold every version once
fn histories(d: &Dump, els: &[El]) -> Result<(), String> {
    let rows = copy::rows_of(&els.iter().map(quantised).collect::<Vec<_>>());
    for (name, cols) in copy::TABLES {
        if name == "users" || name == "changesets" {
            continue;
        }
        let cols: Vec<&str> = cols.split(' ').map(|c| c.trim_matches('"')).filter(|c| *c != "redaction_id").collect();
        let n = cols.len();
        // redaction_id is the last column wherever there is one
        let want = rows[name].iter().map(|r| r[..n].iter().map(|x| x.clone().unwrap()).collect()).collect();
        rows_are(d, name, &cols, want)?;
    }
    Ok(())
}

fn dumped(p: &Place, els: &[El]) -> Result<Dump, String> {
    let (d, _) = p.dirs();
    write(&d, &els.iter().map(quantised).collect::<Vec<_>>())?;
    let mut x = copy::parse_dump(&d)?;
    normalise(&mut x);
    Ok(x)
}

fn cur(p: &Place, els: Vec<El>) -> Out {
    let r = dumped(p, &els).and_then(|d| current(&d, &els));
    match r {
        Ok(()) => Out::Ok { nontrivial: !els.is_empty(), what: format!("{} versions", els.len()) },
        Err(e) => Out::Bad(e),
    }
}

pub fn c14(ctx: &mut Ctx) {
    let p = Place::new();
    let p = &p;
    // two objects
    let w3 = words(if ctx.thorough() { 4 } else { 3 });
    for kind in KINDS {
        for a in &w3 {
            for b in &w3 {
                for (x, y) in [(1, 2), (20, 3)] {
                    ctx.case(&format!("{:?} {}:{} {}:{}", kind, x, a, y, b), || cur(p, [history(kind, x, a, 1, 1), history(kind, y, b, 1, 1)].concat()));
                }
            }
        }
    }
    // identifiers zero, negative, next to each other; versions with gaps, not from one, equal ranges
    let w2 = words(2);
    for kind in KINDS {
        for (x, y) in [(0, 1), (1, 0), (-1, 0), (0, -1), (-5, 5), (5, -5), (1 << 40, 1 << 33), (i64::from(i32::MAX), i64::from(i32::MAX) + 1)] {
            for (f, st) in [(1, 1), (0, 1), (2, 7)] {
                for a in &w2 {
                    for b in &w2 {
                        ctx.case(&format!("{:?} {}:{} {}:{} versions from {} by {}", kind, x, a, y, b, f, st), || cur(p, [history(kind, x, a, f, st), history(kind, y, b, f + 3, st)].concat()));
                    }
                }
            }
        }
    }
    // three objects of a kind
    for kind in KINDS {
        for a in &w2 {
            for b in &w2 {
                for c in &w2 {
                    ctx.case(&format!("{:?} three {} {} {}", kind, a, b, c), || cur(p, [history(kind, 4, a, 1, 1), history(kind, 7, b, 2, 1), history(kind, 8, c, 1, 1)].concat()));
                }
            }
        }
    }
    // the same identifier in all kinds
    for a in &w2 {
        for b in &w2 {
            for c in &w2 {
                ctx.case(&format!("kinds {} {} {}", a, b, c), || cur(p, [history(Kind::Node, 5, a, 1, 1), history(Kind::Way, 5, b, 1, 1), history(Kind::Relation, 5, c, 1, 1)].concat()));
            }
        }
    }
    // four objects with one version each, longer histories of one
    for a in words(4) {
        for kind in KINDS {
            if a.len() == 4 {
                ctx.case(&format!("{:?} four objects {}", kind, a), || cur(p, a.chars().enumerate().map(|(i, c)| version(kind, 3 * i as i64, 1, c)).collect()));
            }
        }
    }
    for a in words(if ctx.thorough() { 8 } else { 6 }) {
        if a.len() > 3 {
            let kind = KINDS[a.bytes().map(|c| c as usize).sum::<usize>() % 3];
            ctx.case(&format!("{:?} long history {}", kind, a), || cur(p, history(kind, 12, &a, 1, 1)));
        }
    }
    // every class of values as the only, the earlier and the later version
    for kind in KINDS {
        for (n, e) in variants(kind) {
            for place in ["only", "earlier", "later", "between"] {
                ctx.case(&format!("{:?} {} {}", kind, place, n), || {
                    let mut f = e.clone();
                    if f.version > 60_000 {
                        f.version -= 60_000;
                    }
                    let mut v = vec![];
                    let mut low = El::of(kind, f.id).tag("before", "1");
                    low.version = f.version - 1;
                    let mut high = El::of(kind, f.id).tag("after", "2");
                    high.version = f.version.saturating_add(1);
                    low.cs = 900;
                    high.cs = 901;
                    if place == "later" || place == "between" {
                        v.push(low)
                    }
                    v.push(f.clone());
                    if (place == "earlier" || place == "between") && high.version > f.version {
                        v.push(high)
                    }
                    cur(p, consistent(v))
                });
            }
        }
    }
}

// --------------------------------------------------------------------------------------------
// C15

/// types of the columns of the tables the writer fills, as the database declares them
const TYPES: &[(&str, &str)] = &[
    ("nodes", "node_id:i8 latitude:i4 longitude:i4 changeset_id:i8 visible:b timestamp:t tile:i8 version:i8 redaction_id:i4?"),
    ("node_tags", "node_id:i8 version:i8 k:s v:s"),
    ("ways", "way_id:i8 changeset_id:i8 timestamp:t version:i8 visible:b redaction_id:i4?"),
    ("way_nodes", "way_id:i8 node_id:i8 version:i8 sequence_id:i8"),
    ("way_tags", "way_id:i8 k:s v:s version:i8"),
    ("relations", "relation_id:i8 changeset_id:i8 timestamp:t version:i8 visible:b redaction_id:i4?"),
    ("relation_members", "relation_id:i8 member_type:e(Node,Way,Relation) member_id:i8 member_role:s version:i8 sequence_id:i4"),
    ("relation_tags", "relation_id:i8 k:s v:s version:i8"),
    ("current_nodes", "id:i8 latitude:i4 longitude:i4 changeset_id:i8 visible:b timestamp:t tile:i8 version:i8"),
    ("current_node_tags", "node_id:i8 k:s v:s"),
    ("current_ways", "id:i8 changeset_id:i8 timestamp:t visible:b version:i8"),
    ("current_way_nodes", "way_id:i8 node_id:i8 sequence_id:i8"),
    ("current_way_tags", "way_id:i8 k:s v:s"),
    ("current_relations", "id:i8 changeset_id:i8 timestamp:t visible:b version:i8"),
    ("current_relation_members", "relation_id:i8 member_type:e(Node,Way,Relation) member_id:i8 member_role:s sequence_id:i4"),
    ("current_relation_tags", "relation_id:i8 k:s v:s"),
    ("changesets", "id:i8 user_id:i8 created_at:t min_lat:i4? max_lat:i4? min_lon:i4? max_lon:i4? closed_at:t num_changes:i4"),
    ("changeset_tags", "changeset_id:i8 k:s v:s"),
    (
        "users",
        "email:s id:i8 pass_crypt:s creation_time:t display_name:s data_public:b description:s home_lat:f? home_lon:f? home_zoom:i2? pass_salt:s? email_valid:b new_email:s? creation_ip:s? languages:s? status:e(pending,active,confirmed,suspended,deleted) terms_agreed:t? consider_pd:b auth_uid:s? preferred_editor:s? terms_seen:b description_format:e(html,markdown,text) changesets_count:i4 traces_count:i4 diary_entries_count:i4 image_use_gravatar:b auth_provider:s? home_tile:i8? tou_agreed:t?",
    ),
];

fn typed(t: &str, v: &Option<String>) -> Result<(), String> {
    let (t, null) = match t.strip_suffix('?') {
        Some(t) => (t, true),
        None => (t, false),
    };
    let v = match v {
        None if null => return Ok(()),
        None => return Err("NULL".into()),
        Some(v) => v,
    };
    let int = |min: i64, max: i64| match v.parse::<i64>() {
        Ok(x) if (min..=max).contains(&x) => Ok(()),
        _ => Err(format!("{:?} is not an integer of this size", v)),
    };
    match t {
        "i2" => int(i16::MIN as i64, i16::MAX as i64),
        "i4" => int(i32::MIN as i64, i32::MAX as i64),
        "i8" => int(i64::MIN, i64::MAX),
        "b" => {
            if v == "t" || v == "f" {
                Ok(())
            } else {
                Err(format!("{:?} is not a boolean", v))
            }
        }
        "t" => copy::secs_of(v).map(|_| ()),
        "f" => v.parse::<f64>().map(|_| ()).map_err(|_| format!("{:?} is not a number", v)),
        "s" => {
            if v.contains('\0') {
                Err("text with a zero byte".into())
            } else {
                Ok(())
            }
        }
        _ => {
            let l = t.trim_start_matches("e(").trim_end_matches(')');
            if l.split(',').any(|x| x == v) {
                Ok(())
            } else {
                Err(format!("{:?} is none of {}", v, l))
            }
        }
    }
}

/// Everything a load into the database relies on.
pub fn conforms(d: &Dump, els: &[El]) -> Result<(), String> {
    if d.len() != 53 {
        return Err(format!("{} tables in the table of contents", d.len()));
    }
    for (name, t) in d {
        let short = name.strip_prefix("public.").unwrap_or(name);
        match TYPES.iter().find(|x| x.0 == short) {
            None => {
                if !t.rows.is_empty() {
                    return Err(format!("{} has rows", name));
                }
            }
            Some((_, ty)) => {
                let ty: Vec<(&str, &str)> = ty.split(' ').map(|c| c.split_once(':').unwrap()).collect();
                let cols: Vec<&str> = ty.iter().map(|x| x.0).collect();
                if t.cols != cols {
                    return Err(format!("{} is declared with the columns {:?}", name, t.cols));
                }
                for (n, r) in t.rows.iter().enumerate() {
                    for ((c, ty), v) in ty.iter().zip(r) {
                        typed(ty, v).map_err(|e| format!("{} row {} column {}: {}", name, n + 1, c, e))?;
                    }
                }
            }
        }
    }
    histories(d, els)?;
    // keys
    let unique = |name: &str, cols: &[&str]| -> Result<BTreeSet<Vec<String>>, String> {
        let rows = table(d, name)?.get(cols)?;
        let n = rows.len();
        let set: BTreeSet<Vec<String>> = rows.into_iter().collect();
        if set.len() != n {
            return Err(format!("{}: rows with the same {:?}", name, cols));
        }
        Ok(set)
    };
    for (n, c) in [
        ("nodes", "node_id version"),
        ("ways", "way_id version"),
        ("relations", "relation_id version"),
        ("current_nodes", "id"),
        ("current_ways", "id"),
        ("current_relations", "id"),
        ("node_tags", "node_id version k"),
        ("way_tags", "way_id version k"),
        ("relation_tags", "relation_id version k"),
        ("way_nodes", "way_id version sequence_id"),
        ("relation_members", "relation_id version sequence_id"),
        ("current_node_tags", "node_id k"),
        ("current_way_tags", "way_id k"),
        ("current_relation_tags", "relation_id k"),
        ("current_way_nodes", "way_id sequence_id"),
        ("current_relation_members", "relation_id sequence_id"),
        ("changesets", "id"),
        ("changeset_tags", "changeset_id k"),
        ("users", "id"),
        ("users", "email"),
    ] {
        unique(n, &c.split(' ').collect::<Vec<_>>())?;
    }
    // references
    let refers = |name: &str, cols: &[&str], target: &str, tcols: &[&str]| -> Result<(), String> {
        let there: BTreeSet<Vec<String>> = table(d, target)?.get(tcols)?.into_iter().collect();
        for r in table(d, name)?.get(cols)? {
            if !there.contains(&r) {
                return Err(format!("{} {:?} {:?} is not in {}", name, cols, r, target));
            }
        }
        Ok(())
    };
    for (n, id) in [("node", "node_id"), ("way", "way_id"), ("relation", "relation_id")] {
        refers(&format!("{}_tags", n), &[id, "version"], &format!("{}s", n), &[id, "version"])?;
        refers(&format!("current_{}_tags", n), &[id], &format!("current_{}s", n), &["id"])?;
        refers(&format!("{}s", n), &["changeset_id"], "changesets", &["id"])?;
        refers(&format!("current_{}s", n), &["changeset_id"], "changesets", &["id"])?;
        refers(&format!("current_{}s", n), &["id", "version"], &format!("{}s", n), &[id, "version"])?;
    }
    for (n, id, t) in [("way_nodes", "way_id", "ways"), ("relation_members", "relation_id", "relations")] {
        refers(n, &[id, "version"], t, &[id, "version"])?;
        refers(&format!("current_{}", n), &[id], &format!("current_{}", t), &["id"])?;
    }
    refers("changesets", &["user_id"], "users", &["id"])?;
    refers("changeset_tags", &["changeset_id"], "changesets", &["id"])?;
    let users: BTreeMap<i32, &str> = els.iter().map(|e| (e.uid, e.user.as_str())).collect();
    rows_are(d, "users", &["id", "display_name"], users.iter().map(|(a, b)| vec![s(a), s(b)]).collect())?;
    let sets: BTreeMap<i64, i32> = els.iter().map(|e| (e.cs, e.uid)).collect();
    rows_are(d, "changesets", &["id", "user_id"], sets.iter().map(|(a, b)| vec![s(a), s(b)]).collect())?;
    Ok(())
}

fn conf(p: &Place, els: Vec<El>) -> Out {
    let r = dumped(p, &els).and_then(|d| conforms(&d, &els));
    match r {
        Ok(()) => Out::Ok { nontrivial: !els.is_empty(), what: format!("{} versions", els.len()) },
        Err(e) => Out::Bad(e),
    }
}

pub fn c15(ctx: &mut Ctx) {
    let p = Place::new();
    let p = &p;
    ctx.case("nothing written", || conf(p, vec![]));
    for kind in KINDS {
        let v: Vec<(String, El)> = variants(kind);
        for (n, e) in &v {
            ctx.case(&format!("{:?} {}", kind, n), || conf(p, consistent(vec![e.clone()])));
        }
        let w = if ctx.thorough() { v.clone() } else { few(kind) };
        for (a, x) in &v {
            for (b, y) in &w {
                ctx.case(&format!("{:?} pair [{}] [{}]", kind, a, b), || conf(p, consistent(sequence(vec![x.clone(), y.clone()]))));
            }
        }
    }
    for c in 1u32..1280 {
        if let Some(ch) = char::from_u32(c) {
            ctx.case(&format!("character {}", c), || {
                let mut v = vec![];
                for kind in KINDS {
                    for (i, t) in [format!("{}", ch), format!("{}a", ch), format!("a{}", ch), format!("\\{}", ch), format!("{}\\", ch), format!(".{}", ch), format!("{}.", ch)].into_iter().enumerate() {
                        let mut e = El::of(kind, 10 + i as i64);
                        e.uid = 10 * kind as i32 + i as i32;
                        e.cs = e.uid as i64;
                        e.user = t.clone();
                        e.tags = vec![(t.clone(), t.clone()), (format!("{} key", t), "v".into())];
                        for m in &mut e.members {
                            m.2 = t.clone();
                        }
                        v.push(e);
                    }
                }
                conf(p, by_kind(v))
            });
        }
    }
    // users and changesets shared between elements of any kinds
    let us = [0, 1, 2];
    for code in 0..3usize.pow(6) {
        ctx.case(&format!("users and changesets {}", code), || {
            let mut v = vec![];
            for i in 0..6 {
                let u = us[code / 3usize.pow(i as u32) % 3];
                let mut e = version(KINDS[i / 2], 5 + (i % 2) as i64, 1, SHAPES[(i + code) % 3]);
                e.uid = u;
                e.user = format!("name {}", u);
                e.cs = 3 * u as i64 + (code as i64 >> i & 1);
                v.push(e);
            }
            conf(p, v)
        });
    }
    // all the histories
    let w2 = words(2);
    let w3 = words(if ctx.thorough() { 3 } else { 2 });
    for kind in KINDS {
        for a in &w3 {
            for b in &w3 {
                for (x, y) in [(1, 2), (20, 3), (0, -1)] {
                    ctx.case(&format!("{:?} {}:{} {}:{}", kind, x, a, y, b), || conf(p, [history(kind, x, a, 1, 1), history(kind, y, b, 1, 1)].concat()));
                }
            }
        }
    }
    for a in &w2 {
        for b in &w2 {
            for c in &w2 {
                ctx.case(&format!("kinds {} {} {}", a, b, c), || conf(p, [history(Kind::Node, 5, a, 1, 1), history(Kind::Way, 5, b, 1, 1), history(Kind::Relation, 5, c, 1, 1)].concat()));
            }
        }
    }
    // coordinates: the tile is that of the coordinates
    let n = if ctx.thorough() { 120 } else { 40 };
    for i in 0..=n {
        ctx.case(&format!("tiles of row {}", i), || {
            let mut v = vec![];
            for j in 0..=n {
                let mut e = El::node((i * 1000 + j) as i64);
                e.lat = (-90_000_000_000i64 + 180_000_000_000 / n as i64 * i as i64 + 70_100 * j as i64).clamp(-90_000_000_000, 90_000_000_000) / 100 * 100;
                e.lon = (-180_000_000_000i64 + 360_000_000_000 / n as i64 * j as i64 - 130_300 * i as i64).clamp(-180_000_000_000, 180_000_000_000) / 100 * 100;
                v.push(e);
            }
            conf(p, v)
        });
    }
    // more rows than the buffers of the table files hold
    for k in [60i64, 300, 1000] {
        for kind in KINDS {
            ctx.case(&format!("{} {:?}", k, kind), || {
                conf(
                    p,
                    (0..k)
                        .map(|i| {
                            let mut e = version(kind, i % (k / 2), (i / (k / 2) + 1) as i32, 'f');
                            e.id = i;
                            e
                        })
                        .collect(),
                )
            });
        }
    }
}

// --------------------------------------------------------------------------------------------
// C16

/// elements that exercise the merging of tables: presence by position, numeric against textual order
fn sample(kind: Kind, code: usize, ids: [i64; 3]) -> Vec<El> {
    (0..3)
        .map(|i| {
            let shape = ['b', 'f', 't', 'r'][code / 4usize.pow(i as u32) % 4];
            let mut e = version(kind, ids[i], [2, 10, 9][i], if shape == 'b' { 'b' } else { 'f' });
            match shape {
                't' => {
                    e.refs.clear();
                    e.members.clear();
                }
                'r' => e.tags.clear(),
                _ => {}
            }
            e
        })
        .collect()
}

fn all_kinds() -> Vec<El> {
    let mut v = vec![];
    for kind in KINDS {
        let mut big = version(kind, 10, 2, 'f');
        if kind == Kind::Way {
            big.refs = (0..12).map(|i| 50 - i).collect();
        }
        if kind == Kind::Relation {
            big.members = (0..12).map(|i| (KINDS[i as usize % 3], 50 - i, format!("r{}", i % 4))).collect();
        }
        big.tags = (0..5).map(|i| (format!("k{}", i * 7 % 5), format!("v{}", i))).collect();
        v.push(big);
        v.push(version(kind, 9, 1, 'b'));
        v.push(version(kind, 10, 10, 'f'));
        v.push(version(kind, 9, 2, 'f'));
        v.push(version(kind, -3, 1, 'f'));
        v.push(version(kind, 100, 1, 'd'));
    }
    v
}

type Rows = BTreeMap<&'static str, Vec<Row>>;

fn expect(p: &Place, els: &[El], rows: &Rows, l: &Layout) -> Out {
    let (d, t) = p.dirs();
    copy::write_dump(&d, rows, l);
    match read(&d, &t).and_then(|got| same(els, &got)) {
        Ok(()) => Out::Ok { nontrivial: !els.is_empty(), what: format!("{} elements", els.len()) },
        Err(e) => Out::Bad(e),
    }
}

fn reorder(v: &[Row], how: &str) -> Vec<Row> {
    let mut v = v.to_vec();
    let n = v.len();
    match how {
        "reversed" => v.reverse(),
        "rotated" => v.rotate_left(n.min(1)),
        "interleaved" => {
            let (a, b): (Vec<_>, Vec<_>) = v.into_iter().enumerate().partition(|x| x.0 % 2 == 1);
            return a.into_iter().chain(b).map(|x| x.1).collect();
        }
        _ => {}
    }
    v
}

pub fn c16(ctx: &mut Ctx) {
    let p = Place::new();
    let p = &p;
    let plain = Layout::plain();
    let plain = &plain;
    // which objects have tags, refs, members
    for kind in KINDS {
        for code in 0..64 {
            for ids in [[9, 10, 100], [5, 5, 5], [-1, 0, 1], [1 << 40, 3, -(1 << 40)]] {
                for how in ["given", "reversed"] {
                    ctx.case(&format!("{:?} presence {} of {:?} rows {}", kind, code, ids, how), || {
                        let els = sample(kind, code, ids);
                        let rows: Rows = copy::rows_of(&els).into_iter().map(|(k, v)| (k, reorder(&v, how))).collect();
                        expect(p, &els, &rows, plain)
                    });
                }
            }
        }
    }
    // every permutation of the rows of one table
    let tables: Vec<&'static str> = copy::TABLES.iter().map(|t| t.0).collect();
    for (ti, t) in tables.iter().enumerate() {
        let kind = KINDS[match ti {
            0 | 1 => 0,
            2..=4 => 1,
            5..=7 => 2,
            _ => ti % 3,
        }];
        let k = if ctx.thorough() { 6 } else { 5 };
        for perm in permutations(k) {
            for others in ["given", "reversed"] {
                ctx.case(&format!("{} in the order {:?} others {}", t, perm, others), || {
                    // the first rows of the table, and objects enough to have that many
                    let mut els = vec![version(kind, 10, 2, 'f'), version(kind, 9, 10, 'f'), version(kind, 10, 10, 'b'), version(kind, 100, 1, 'f'), version(kind, 9, 2, 'b'), version(kind, -7, 1, 'b')];
                    for e in &mut els {
                        e.cs = 5 * e.version as i64 + e.id.rem_euclid(3);
                        e.uid = e.cs as i32 % 101;
                        e.user = format!("user {}", e.uid);
                    }
                    let mut rows: Rows = copy::rows_of(&els).into_iter().map(|(k, v)| (k, reorder(&v, others))).collect();
                    let r = rows.get_mut(t).unwrap();
                    let head: Vec<Row> = perm.iter().filter_map(|i| r.get(*i).cloned()).collect();
                    for (i, x) in head.into_iter().enumerate() {
                        r[i] = x;
                    }
                    expect(p, &els, &rows, plain)
                });
            }
        }
    }
    // orders of the rows of all tables at once
    let hows = ["given", "reversed", "rotated", "interleaved"];
    let n = tables.len();
    for code in 0..(1usize << n) {
        ctx.case(&format!("tables reversed {:010b}", code), || {
            let els = all_kinds();
            let rows: Rows = copy::rows_of(&els).into_iter().map(|(k, v)| (k, reorder(&v, hows[code >> tables.iter().position(|t| *t == k).unwrap() & 1]))).collect();
            expect(p, &els, &rows, plain)
        });
    }
    for a in 0..n {
        for b in 0..n {
            for (x, hx) in hows.iter().enumerate() {
                for (y, hy) in hows.iter().enumerate() {
                    if x < 2 && y < 2 || a == b {
                        continue;
                    }
                    ctx.case(&format!("{} {} {} {}", tables[a], hx, tables[b], hy), || {
                        let els = all_kinds();
                        let rows: Rows = copy::rows_of(&els).into_iter().map(|(k, v)| (k, reorder(&v, if k == tables[a] { hx } else if k == tables[b] { hy } else { "given" }))).collect();
                        expect(p, &els, &rows, plain)
                    });
                }
            }
        }
    }
    // order of the columns
    for (t, cols) in copy::TABLES {
        let c = cols.split(' ').count();
        let orders: Vec<Vec<usize>> = if c <= 4 {
            permutations(c)
        } else {
            let mut o = vec![(0..c).rev().collect::<Vec<_>>()];
            for i in 0..c {
                let mut v: Vec<usize> = (0..c).collect();
                v.rotate_left(i);
                o.push(v);
                for j in i + 1..c {
                    let mut v: Vec<usize> = (0..c).collect();
                    v.swap(i, j);
                    o.push(v);
                }
            }
            if c <= 6 {
                o = permutations(c);
            }
            o
        };
        for o in orders {
            ctx.case(&format!("{} with columns {:?}", t, o), || {
                let els = all_kinds();
                let mut l = Layout::plain();
                l.cols.insert(t, o.clone());
                let rows: Rows = copy::rows_of(&els).into_iter().map(|(k, v)| (k, reorder(&v, "interleaved"))).collect();
                expect(p, &els, &rows, &l)
            });
        }
    }
    // order of the tables in the table of contents, ends of the files, number of processors
    let mut orders = vec![(0..n).collect::<Vec<_>>(), (0..n).rev().collect()];
    for i in 0..n {
        let mut v: Vec<usize> = (0..n).collect();
        v.rotate_left(i);
        orders.push(v);
        for j in i + 1..n {
            let mut v: Vec<usize> = (0..n).collect();
            v.swap(i, j);
            orders.push(v);
        }
    }
    for o in orders {
        for blank in [true, false] {
            for cpus in [1, 3] {
                ctx.case(&format!("tables {:?} blank lines {} processors {}", o, blank, cpus), || {
                    let els = all_kinds();
                    let l = Layout { tables: o.clone(), cols: BTreeMap::new(), blank_lines_at_end: blank };
                    num_cpus::set(cpus);
                    let r = expect(p, &els, &copy::rows_of(&els), &l);
                    num_cpus::set(2);
                    r
                });
            }
        }
    }
    // tables of no interest among the others
    for other in ["public.current_nodes", "public.gps_points", "public.acls", "public.nodes_old", "other.nodes"] {
        for at in 0..=n {
            ctx.case(&format!("{} at {}", other, at), || {
                let els = all_kinds();
                let (d, t) = p.dirs();
                copy::write_dump(&d, &copy::rows_of(&els), plain);
                let toc = std::fs::read(d.join("toc.dat")).unwrap();
                let find = |from: usize| (from..toc.len()).find(|i| toc[*i..].starts_with(b"\x00\x01TABLE DATA"));
                let mut pos = find(0).unwrap();
                for _ in 0..at {
                    pos = find(pos + 1).unwrap_or(toc.len());
                }
                let mut x = toc[..pos].to_vec();
                x.extend_from_slice(format!("\x00\x01TABLE DATA\x02public\x00COPY {} (node_id, version, k, v) FROM stdin;\n\x01\x00\x00\x00\x08\x00\x00\x009999.dat\x00\x00", other).as_bytes());
                x.extend_from_slice(&toc[pos..]);
                std::fs::write(d.join("toc.dat"), x).unwrap();
                std::fs::write(d.join("9999.dat"), "5\t1\ta\tb\n\\.\n\n\n").unwrap();
                match read(&d, &t).and_then(|got| same(&els, &got)) {
                    Ok(()) => ok(true),
                    Err(e) => Out::Bad(e),
                }
            });
        }
    }
    // several iterators of one reader, a reader over a temporary directory used before
    for steps in 0..81usize {
        ctx.case(&format!("iterators in the order {}", steps), || {
            let els = all_kinds();
            let (d, t) = p.dirs();
            // what an earlier reader left in the temporary directory
            copy::write_dump(&d, &copy::rows_of(&sample(KINDS[steps % 3], 63, [77, 78, 79])), plain);
            let r = (|| {
                read(&d, &t)?;
                let _ = std::fs::remove_dir_all(&d);
                copy::write_dump(&d, &copy::rows_of(&els), plain);
                let r = open(&d, &t)?;
                let mut its = vec![];
                for _ in 0..3 {
                    its.push((r.elements().map_err(|e| format!("{:#}", e))?, vec![]));
                }
                for i in 0..4u32 {
                    let k = steps / 3usize.pow(i) % 3;
                    for _ in 0..2 + i {
                        if let Some(e) = its[k].0.next() {
                            its[k].1.push(e);
                        }
                    }
                }
                for (it, mut v) in its {
                    v.extend(it);
                    same(&els, &drain(v.into_iter())?)?;
                }
                Ok::<(), String>(())
            })();
            Out::from(r)
        });
    }
}
