//! Independent encoder and strict decoder of the OSM PBF format, written from the format's
//! description (wire format done by hand).
use crate::model::{El, Kind};
use std::io::{Read, Write};

// --------------------------------------------------------------------------------------------
// wire format

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

fn unzz(v: u64) -> i64 {
    (v >> 1) as i64 ^ -((v & 1) as i64)
}

impl W {
    pub fn new() -> W {
        W::default()
    }
    fn tag(&mut self, f: u32, wt: u32) {
        varint((f as u64) << 3 | wt as u64, &mut self.0);
    }
    pub fn int(&mut self, f: u32, v: i64) -> &mut W {
        self.tag(f, 0);
        varint(v as u64, &mut self.0);
        self
    }
    pub fn sint(&mut self, f: u32, v: i64) -> &mut W {
        self.tag(f, 0);
        varint(zz(v), &mut self.0);
        self
    }
    pub fn bytes(&mut self, f: u32, b: &[u8]) -> &mut W {
        self.tag(f, 2);
        varint(b.len() as u64, &mut self.0);
        self.0.extend_from_slice(b);
        self
    }
    pub fn msg(&mut self, f: u32, m: &W) -> &mut W {
        self.bytes(f, &m.0)
    }
    pub fn fixed64(&mut self, f: u32, v: u64) -> &mut W {
        self.tag(f, 1);
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn fixed32(&mut self, f: u32, v: u32) -> &mut W {
        self.tag(f, 5);
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    fn rep(&mut self, f: u32, v: &[u64], unpacked: bool) -> &mut W {
        if v.is_empty() {
            return self;
        }
        if unpacked {
            for x in v {
                self.tag(f, 0);
                varint(*x, &mut self.0);
            }
        } else {
            let mut b = vec![];
            for x in v {
                varint(*x, &mut b);
            }
            self.bytes(f, &b);
        }
        self
    }
}

#[derive(Clone, Debug)]
pub enum V<'a> {
    I(u64),
    B(&'a [u8]),
    F64(u64),
    F32(u32),
}

pub fn fields(b: &[u8]) -> Result<Vec<(u32, V<'_>)>, String> {
    let mut out = vec![];
    let mut p = 0usize;
    while p < b.len() {
        let t = rd(b, &mut p)?;
        let f = (t >> 3) as u32;
        if f == 0 {
            return Err("field number 0".into());
        }
        match t & 7 {
            0 => out.push((f, V::I(rd(b, &mut p)?))),
            1 => {
                let s = b.get(p..p + 8).ok_or("short fixed64")?;
                p += 8;
                out.push((f, V::F64(u64::from_le_bytes(s.try_into().unwrap()))));
            }
            2 => {
                let n = rd(b, &mut p)? as usize;
                let s = b.get(p..p.checked_add(n).ok_or("length")?).ok_or("length beyond the message")?;
                p += n;
                out.push((f, V::B(s)));
            }
            5 => {
                let s = b.get(p..p + 4).ok_or("short fixed32")?;
                p += 4;
                out.push((f, V::F32(u32::from_le_bytes(s.try_into().unwrap()))));
            }
            x => return Err(format!("wire type {}", x)),
        }
    }
    Ok(out)
}

fn rd(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*p).ok_or("short varint")?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}

fn nums(v: &V, out: &mut Vec<u64>) -> Result<(), String> {
    match v {
        V::I(x) => out.push(*x),
        V::B(b) => {
            let mut p = 0;
            while p < b.len() {
                out.push(rd(b, &mut p)?);
            }
        }
        _ => return Err("not an integer field".into()),
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------
// encoder

pub const VERSION: u8 = 1;
pub const TS: u8 = 2;
pub const CS: u8 = 4;
pub const UID: u8 = 8;
pub const USER: u8 = 16;
pub const VISIBLE: u8 = 32;
pub const ALL: u8 = 63;

#[derive(Clone, Debug)]
pub enum Group {
    /// info: None for no metadata, else the mask of fields present
    Dense(Vec<El>, Option<u8>),
    Nodes(Vec<El>, Option<u8>),
    Ways(Vec<El>, Option<u8>),
    Rels(Vec<El>, Option<u8>),
    Empty,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Body {
    Raw,
    RawWithSize,
    Zlib,
    /// not a valid encoding for every reader: the uncompressed size is missing
    ZlibNoSize,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub groups: Vec<Group>,
    pub granularity: Option<i32>,
    pub date_granularity: Option<i32>,
    pub lat_offset: Option<i64>,
    pub lon_offset: Option<i64>,
    pub body: Body,
    pub indexdata: Option<Vec<u8>>,
    pub unknown_fields: bool,
    pub unpacked: bool,
    /// fields in the reverse of their declared order (the string table last)
    pub reversed: bool,
    /// strings that nothing refers to, at the front (after the blank) of the string table
    pub spare_strings: usize,
    pub level: u32,
}

impl Block {
    pub fn new(groups: Vec<Group>) -> Block {
        Block {
            groups,
            granularity: None,
            date_granularity: None,
            lat_offset: None,
            lon_offset: None,
            body: Body::Zlib,
            indexdata: None,
            unknown_fields: false,
            unpacked: false,
            reversed: false,
            spare_strings: 0,
            level: 6,
        }
    }
    pub fn dense(e: Vec<El>) -> Block {
        Block::new(vec![Group::Dense(e, Some(ALL))])
    }
    pub fn of(e: Vec<El>) -> Block {
        let g = match e.first().map(|x| x.kind) {
            None => Group::Empty,
            Some(Kind::Node) => Group::Dense(e, Some(ALL)),
            Some(Kind::Way) => Group::Ways(e, Some(ALL)),
            Some(Kind::Relation) => Group::Rels(e, Some(ALL)),
        };
        Block::new(vec![g])
    }
    fn gran(&self) -> i64 {
        self.granularity.unwrap_or(100) as i64
    }
    fn dgran(&self) -> i64 {
        self.date_granularity.unwrap_or(1000) as i64
    }
    /// What the block holds, absent metadata given the "absent" value
    pub fn elements(&self) -> Vec<(El, u8)> {
        let mut out = vec![];
        for g in &self.groups {
            let (v, m) = match g {
                Group::Dense(v, m) | Group::Nodes(v, m) | Group::Ways(v, m) | Group::Rels(v, m) => (v, m.unwrap_or(0)),
                Group::Empty => continue,
            };
            for e in v {
                out.push((e.clone(), m));
            }
        }
        out
    }
}

/// The table, and where a string is in it
struct Strings(Vec<Vec<u8>>, std::collections::HashMap<String, u64>);
impl Strings {
    fn of(&mut self, s: &str) -> u64 {
        if let Some(i) = self.1.get(s) {
            return *i;
        }
        self.spare(s)
    }
    fn spare(&mut self, s: &str) -> u64 {
        let i = self.0.len() as u64;
        self.0.push(s.as_bytes().to_vec());
        self.1.insert(s.to_string(), i);
        i
    }
    fn user(&mut self, s: &str) -> u64 {
        if s.is_empty() {
            0
        } else {
            self.of(s)
        }
    }
}

fn deltas(v: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut last = 0i64;
    v.map(|x| {
        let d = x.wrapping_sub(last);
        last = x;
        zz(d)
    })
    .collect()
}

fn info(e: &El, m: u8, dg: i64, st: &mut Strings) -> W {
    let mut w = W::new();
    if m & VERSION != 0 {
        w.int(1, e.version as i64);
    }
    if m & TS != 0 {
        w.int(2, e.ts / dg);
    }
    if m & CS != 0 {
        w.int(3, e.cs);
    }
    if m & UID != 0 {
        w.int(4, e.uid as i64);
    }
    if m & USER != 0 {
        let s = st.user(&e.user);
        w.int(5, s as i64);
    }
    if m & VISIBLE != 0 {
        w.int(6, e.visible as i64);
    }
    w
}

fn tags(w: &mut W, e: &El, st: &mut Strings, unpacked: bool) {
    let k: Vec<u64> = e.tags.iter().map(|t| st.of(&t.0)).collect();
    let v: Vec<u64> = e.tags.iter().map(|t| st.of(&t.1)).collect();
    w.rep(2, &k, unpacked);
    w.rep(3, &v, unpacked);
}

pub fn primitive_block(b: &Block) -> Vec<u8> {
    let mut st = Strings(vec![vec![]], Default::default());
    for i in 0..b.spare_strings {
        st.spare(&format!("spare-{}", i));
    }
    let (g, dg, lao, loo) = (b.gran(), b.dgran(), b.lat_offset.unwrap_or(0), b.lon_offset.unwrap_or(0));
    let up = b.unpacked;
    let mut groups: Vec<W> = vec![];
    for grp in &b.groups {
        let mut w = W::new();
        match grp {
            Group::Empty => {}
            Group::Dense(v, m) => {
                let mut d = W::new();
                d.rep(1, &deltas(v.iter().map(|e| e.id)), up);
                if let Some(m) = m {
                    let mut i = W::new();
                    if m & VERSION != 0 {
                        i.rep(1, &v.iter().map(|e| e.version as i64 as u64).collect::<Vec<_>>(), up);
                    }
                    if m & TS != 0 {
                        i.rep(2, &deltas(v.iter().map(|e| e.ts / dg)), up);
                    }
                    if m & CS != 0 {
                        i.rep(3, &deltas(v.iter().map(|e| e.cs)), up);
                    }
                    if m & UID != 0 {
                        i.rep(4, &deltas(v.iter().map(|e| e.uid as i64)), up);
                    }
                    if m & USER != 0 {
                        let s: Vec<i64> = v.iter().map(|e| st.user(&e.user) as i64).collect();
                        i.rep(5, &deltas(s.into_iter()), up);
                    }
                    if m & VISIBLE != 0 {
                        i.rep(6, &v.iter().map(|e| e.visible as u64).collect::<Vec<_>>(), up);
                    }
                    d.msg(5, &i);
                }
                d.rep(8, &deltas(v.iter().map(|e| (e.lat - lao) / g)), up);
                d.rep(9, &deltas(v.iter().map(|e| (e.lon - loo) / g)), up);
                if v.iter().any(|e| !e.tags.is_empty()) {
                    let mut kv = vec![];
                    for e in v {
                        for (k, val) in &e.tags {
                            kv.push(st.of(k));
                            kv.push(st.of(val));
                        }
                        kv.push(0);
                    }
                    d.rep(10, &kv, up);
                }
                if b.unknown_fields {
                    d.int(30, 5);
                }
                w.msg(2, &d);
            }
            Group::Nodes(v, m) => {
                for e in v {
                    let mut n = W::new();
                    n.sint(1, e.id);
                    tags(&mut n, e, &mut st, up);
                    if let Some(m) = m {
                        n.msg(4, &info(e, *m, dg, &mut st));
                    }
                    n.sint(8, (e.lat - lao) / g);
                    n.sint(9, (e.lon - loo) / g);
                    if b.unknown_fields {
                        n.bytes(100, b"zz");
                    }
                    w.msg(1, &n);
                }
            }
            Group::Ways(v, m) => {
                for e in v {
                    let mut n = W::new();
                    n.int(1, e.id);
                    tags(&mut n, e, &mut st, up);
                    if let Some(m) = m {
                        n.msg(4, &info(e, *m, dg, &mut st));
                    }
                    n.rep(8, &deltas(e.refs.iter().copied()), up);
                    if b.unknown_fields {
                        // coordinates of the way's nodes, an optional extension
                        n.rep(9, &deltas(e.refs.iter().copied()), up);
                        n.rep(10, &deltas(e.refs.iter().copied()), up);
                        n.fixed64(200, 77);
                    }
                    w.msg(3, &n);
                }
            }
            Group::Rels(v, m) => {
                for e in v {
                    let mut n = W::new();
                    n.int(1, e.id);
                    tags(&mut n, e, &mut st, up);
                    if let Some(m) = m {
                        n.msg(4, &info(e, *m, dg, &mut st));
                    }
                    let r: Vec<u64> = e.members.iter().map(|x| st.user(&x.2)).collect();
                    n.rep(8, &r, up);
                    n.rep(9, &deltas(e.members.iter().map(|x| x.1)), up);
                    let t: Vec<u64> = e.members.iter().map(|x| x.0 as u64).collect();
                    n.rep(10, &t, up);
                    if b.unknown_fields {
                        n.fixed32(99, 1);
                    }
                    w.msg(4, &n);
                }
            }
        }
        groups.push(w);
    }
    let mut s = W::new();
    for x in &st.0 {
        s.bytes(1, x);
    }
    let mut parts: Vec<W> = vec![];
    let mut p = W::new();
    p.msg(1, &s);
    parts.push(p);
    let mut p = W::new();
    for gr in &groups {
        p.msg(2, gr);
    }
    parts.push(p);
    let mut p = W::new();
    if let Some(x) = b.granularity {
        p.int(17, x as i64);
    }
    parts.push(p);
    let mut p = W::new();
    if let Some(x) = b.date_granularity {
        p.int(18, x as i64);
    }
    parts.push(p);
    let mut p = W::new();
    if let Some(x) = b.lat_offset {
        p.int(19, x);
    }
    parts.push(p);
    let mut p = W::new();
    if let Some(x) = b.lon_offset {
        p.int(20, x);
    }
    parts.push(p);
    if b.unknown_fields {
        let mut p = W::new();
        p.bytes(1000, b"extension");
        parts.push(p);
    }
    if b.reversed {
        parts.reverse();
    }
    parts.into_iter().flat_map(|p| p.0).collect()
}

pub fn zlib(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

pub fn blob_body(data: &[u8], body: Body, level: u32) -> Vec<u8> {
    let mut w = W::new();
    match body {
        Body::Raw => {
            w.bytes(1, data);
        }
        Body::RawWithSize => {
            w.bytes(1, data);
            w.int(2, data.len() as i64);
        }
        Body::Zlib => {
            w.int(2, data.len() as i64);
            w.bytes(3, &zlib(data, level));
        }
        Body::ZlibNoSize => {
            w.bytes(3, &zlib(data, level));
        }
    }
    w.0
}

pub fn blob(t: &str, body: &[u8], indexdata: Option<&[u8]>, unknown: bool) -> Vec<u8> {
    let mut h = W::new();
    h.bytes(1, t.as_bytes());
    if let Some(i) = indexdata {
        h.bytes(2, i);
    }
    h.int(3, body.len() as i64);
    if unknown {
        h.bytes(50, b"?");
    }
    let mut out = (h.0.len() as i32).to_be_bytes().to_vec();
    out.extend_from_slice(&h.0);
    out.extend_from_slice(body);
    out
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    /// left, right, top, bottom in nanodegrees
    pub bbox: Option<[i64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub rep_ts: Option<i64>,
    pub rep_seq: Option<i64>,
    pub rep_url: Option<String>,
}

impl Header {
    pub fn usual() -> Header {
        Header { required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into()], optional: vec!["Sort.Type_then_ID".into()], program: Some("oracle".into()), ..Default::default() }
    }
}

pub fn header_block(h: &Header) -> Vec<u8> {
    let mut w = W::new();
    if let Some(b) = h.bbox {
        let mut x = W::new();
        for (i, v) in b.iter().enumerate() {
            x.sint(i as u32 + 1, *v);
        }
        w.msg(1, &x);
    }
    for s in &h.required {
        w.bytes(4, s.as_bytes());
    }
    for s in &h.optional {
        w.bytes(5, s.as_bytes());
    }
    if let Some(s) = &h.program {
        w.bytes(16, s.as_bytes());
    }
    if let Some(s) = &h.source {
        w.bytes(17, s.as_bytes());
    }
    if let Some(v) = h.rep_ts {
        w.int(32, v);
    }
    if let Some(v) = h.rep_seq {
        w.int(33, v);
    }
    if let Some(s) = &h.rep_url {
        w.bytes(34, s.as_bytes());
    }
    w.0
}

pub fn header_blob(h: &Header) -> Vec<u8> {
    blob("OSMHeader", &blob_body(&header_block(h), Body::Zlib, 6), None, false)
}

pub fn data_blob(b: &Block) -> Vec<u8> {
    blob("OSMData", &blob_body(&primitive_block(b), b.body, b.level), b.indexdata.as_deref(), b.unknown_fields)
}

pub fn file(h: &Header, blocks: &[Block]) -> Vec<u8> {
    let mut out = header_blob(h);
    for b in blocks {
        out.extend(data_blob(b));
    }
    out
}

// --------------------------------------------------------------------------------------------
// strict decoder

#[derive(Clone, Debug)]
pub struct DBlock {
    /// offset of the block's length field in the file and of its end
    pub start: usize,
    pub end: usize,
    pub elements: Vec<El>,
    pub groups: usize,
    pub compressed: bool,
}

#[derive(Clone, Debug)]
pub struct DFile {
    pub header: Header,
    pub header_end: usize,
    pub blocks: Vec<DBlock>,
}

impl DFile {
    pub fn elements(&self) -> Vec<El> {
        self.blocks.iter().flat_map(|b| b.elements.clone()).collect()
    }
}

/// Decode a file and reject everything the published format does not allow or that a writer of
/// this kind has no reason to produce.
pub fn decode(b: &[u8]) -> Result<DFile, String> {
    let mut p = 0;
    let mut header = None;
    let mut header_end = 0;
    let mut blocks = vec![];
    let mut i = 0;
    while p < b.len() {
        let start = p;
        let at = |s: &str| format!("block {} at byte {}: {}", i, start, s);
        let n = i32::from_be_bytes(b.get(p..p + 4).ok_or_else(|| at("short length field"))?.try_into().unwrap());
        p += 4;
        if !(0..64 * 1024).contains(&n) {
            return Err(at(&format!("header length {}", n)));
        }
        let h = b.get(p..p + n as usize).ok_or_else(|| at("header runs past the end"))?;
        p += n as usize;
        let mut t = None;
        let mut size = None;
        for (f, v) in fields(h).map_err(|e| at(&e))? {
            match (f, v) {
                (1, V::B(x)) => t = Some(String::from_utf8(x.to_vec()).map_err(|_| at("type"))?),
                (2, V::B(_)) => {}
                (3, V::I(x)) => size = Some(x as i64),
                (f, _) => return Err(at(&format!("unexpected field {} in the blob header", f))),
            }
        }
        let size = size.ok_or_else(|| at("no datasize"))?;
        if !(0..32 * 1024 * 1024).contains(&size) {
            return Err(at(&format!("datasize {}", size)));
        }
        let body = b.get(p..p + size as usize).ok_or_else(|| at("body runs past the end"))?;
        p += size as usize;
        let data = unblob(body).map_err(|e| at(&e))?;
        match t.as_deref() {
            Some("OSMHeader") => {
                if header.is_some() || i != 0 {
                    return Err(at("a second or late header block"));
                }
                header = Some(dheader(&data).map_err(|e| at(&e))?);
                header_end = p;
            }
            Some("OSMData") => {
                if i == 0 {
                    return Err(at("the first block is not a header"));
                }
                let (elements, groups) = dblock(&data).map_err(|e| at(&e))?;
                let compressed = fields(body).map_err(|e| at(&e))?.iter().any(|(f, _)| *f == 3);
                blocks.push(DBlock { start, end: p, elements, groups, compressed });
            }
            x => return Err(at(&format!("block type {:?}", x))),
        }
        i += 1;
    }
    Ok(DFile { header: header.ok_or("no header block")?, header_end, blocks })
}

pub fn unblob(body: &[u8]) -> Result<Vec<u8>, String> {
    let mut raw = None;
    let mut size = None;
    let mut z = None;
    for (f, v) in fields(body)? {
        match (f, v) {
            (1, V::B(x)) => raw = Some(x.to_vec()),
            (2, V::I(x)) => size = Some(x as i64),
            (3, V::B(x)) => z = Some(x.to_vec()),
            (f, _) => return Err(format!("unexpected field {} in the blob", f)),
        }
    }
    let data = match (raw, z) {
        (Some(r), None) => r,
        (None, Some(z)) => {
            if size.is_none() {
                return Err("compressed without its uncompressed size".into());
            }
            let mut out = vec![];
            let mut d = flate2::bufread::ZlibDecoder::new(z.as_slice());
            d.read_to_end(&mut out).map_err(|e| format!("zlib: {}", e))?;
            if d.total_in() != z.len() as u64 {
                return Err("bytes after the compressed data".into());
            }
            out
        }
        (None, None) => return Err("blob without data".into()),
        _ => return Err("blob with two data fields".into()),
    };
    if let Some(s) = size {
        if s != data.len() as i64 {
            return Err(format!("raw_size {} but {} bytes", s, data.len()));
        }
    }
    if data.len() >= 32 * 1024 * 1024 {
        return Err("block larger than 32 MiB".into());
    }
    Ok(data)
}

fn dheader(b: &[u8]) -> Result<Header, String> {
    let mut h = Header::default();
    let s = |x: &[u8]| String::from_utf8(x.to_vec()).map_err(|_| "header string is not UTF-8".to_string());
    for (f, v) in fields(b)? {
        match (f, v) {
            (1, V::B(x)) => {
                let mut bb = [None; 4];
                for (g, v) in fields(x)? {
                    match (g, v) {
                        (1..=4, V::I(n)) => bb[g as usize - 1] = Some(unzz(n)),
                        _ => return Err("bbox field".into()),
                    }
                }
                let mut o = [0; 4];
                for i in 0..4 {
                    o[i] = bb[i].ok_or("bbox side missing")?;
                }
                h.bbox = Some(o);
            }
            (4, V::B(x)) => h.required.push(s(x)?),
            (5, V::B(x)) => h.optional.push(s(x)?),
            (16, V::B(x)) => h.program = Some(s(x)?),
            (17, V::B(x)) => h.source = Some(s(x)?),
            (32, V::I(x)) => h.rep_ts = Some(x as i64),
            (33, V::I(x)) => h.rep_seq = Some(x as i64),
            (34, V::B(x)) => h.rep_url = Some(s(x)?),
            (f, _) => return Err(format!("unexpected header field {}", f)),
        }
    }
    Ok(h)
}

struct Ctx<'a> {
    st: Vec<&'a [u8]>,
    g: i64,
    dg: i64,
    lao: i64,
    loo: i64,
}

impl Ctx<'_> {
    fn s(&self, i: i64) -> Result<String, String> {
        let x = self.st.get(usize::try_from(i).map_err(|_| "negative string index")?).ok_or_else(|| format!("string index {} outside the table of {}", i, self.st.len()))?;
        String::from_utf8(x.to_vec()).map_err(|_| "string is not UTF-8".into())
    }
    fn tag(&self, k: i64, v: i64) -> Result<(String, String), String> {
        if k == 0 || v == 0 {
            return Err("string table entry 0 used as a tag key or value".into());
        }
        Ok((self.s(k)?, self.s(v)?))
    }
}

fn dblock(b: &[u8]) -> Result<(Vec<El>, usize), String> {
    let mut c = Ctx { st: vec![], g: 100, dg: 1000, lao: 0, loo: 0 };
    let mut groups = vec![];
    let mut tables = 0;
    for (f, v) in fields(b)? {
        match (f, v) {
            (1, V::B(x)) => {
                tables += 1;
                for (f, v) in fields(x)? {
                    match (f, v) {
                        (1, V::B(s)) => c.st.push(s),
                        _ => return Err("string table field".into()),
                    }
                }
            }
            (2, V::B(x)) => groups.push(x),
            (17, V::I(x)) => c.g = x as i64,
            (18, V::I(x)) => c.dg = x as i64,
            (19, V::I(x)) => c.lao = x as i64,
            (20, V::I(x)) => c.loo = x as i64,
            (f, _) => return Err(format!("unexpected block field {}", f)),
        }
    }
    if tables != 1 {
        return Err(format!("{} string tables", tables));
    }
    match c.st.first() {
        Some(s) if s.is_empty() => {}
        _ => return Err("string table entry 0 is not blank".into()),
    }
    let mut out = vec![];
    let n = groups.len();
    for g in groups {
        let mut kinds = std::collections::BTreeSet::new();
        for (f, v) in fields(g)? {
            kinds.insert(f);
            match (f, v) {
                (1, V::B(x)) => out.push(dsingle(&c, x, Kind::Node)?),
                (2, V::B(x)) => ddense(&c, x, &mut out)?,
                (3, V::B(x)) => out.push(dsingle(&c, x, Kind::Way)?),
                (4, V::B(x)) => out.push(dsingle(&c, x, Kind::Relation)?),
                (f, _) => return Err(format!("unexpected group field {}", f)),
            }
        }
        if kinds.len() > 1 {
            return Err("a group with several kinds".into());
        }
    }
    Ok((out, n))
}

fn undelta(v: &[u64]) -> Vec<i64> {
    let mut last = 0i64;
    v.iter()
        .map(|x| {
            last = last.wrapping_add(unzz(*x));
            last
        })
        .collect()
}

fn ddense(c: &Ctx, b: &[u8], out: &mut Vec<El>) -> Result<(), String> {
    let (mut id, mut lat, mut lon, mut kv) = (vec![], vec![], vec![], vec![]);
    let mut inf: [Vec<u64>; 6] = Default::default();
    let mut has_info = false;
    for (f, v) in fields(b)? {
        match f {
            1 => nums(&v, &mut id)?,
            8 => nums(&v, &mut lat)?,
            9 => nums(&v, &mut lon)?,
            10 => nums(&v, &mut kv)?,
            5 => {
                has_info = true;
                if let V::B(x) = v {
                    for (g, v) in fields(x)? {
                        match g {
                            1..=6 => nums(&v, &mut inf[g as usize - 1])?,
                            _ => return Err("dense info field".into()),
                        }
                    }
                } else {
                    return Err("dense info".into());
                }
            }
            f => return Err(format!("unexpected dense field {}", f)),
        }
    }
    let n = id.len();
    if lat.len() != n || lon.len() != n {
        return Err(format!("{} ids, {} lats, {} lons", n, lat.len(), lon.len()));
    }
    if !has_info || inf.iter().any(|v| v.len() != n) {
        return Err(format!("dense info arrays of {:?} entries for {} nodes", inf.iter().map(|v| v.len()).collect::<Vec<_>>(), n));
    }
    let (ids, lats, lons) = (undelta(&id), undelta(&lat), undelta(&lon));
    let (tss, css, uids, users) = (undelta(&inf[1]), undelta(&inf[2]), undelta(&inf[3]), undelta(&inf[4]));
    let mut k = kv.iter();
    for i in 0..n {
        let mut tags = vec![];
        if !kv.is_empty() {
            loop {
                let key = *k.next().ok_or("keys_vals ends early")?;
                if key == 0 {
                    break;
                }
                let val = *k.next().ok_or("keys_vals ends in a key")?;
                tags.push(c.tag(key as i64, val as i64)?);
            }
        }
        out.push(El {
            kind: Kind::Node,
            id: ids[i],
            version: inf[0][i] as i64 as i32,
            lat: c.lao + c.g * lats[i],
            lon: c.loo + c.g * lons[i],
            ts: tss[i] * c.dg,
            cs: css[i],
            uid: i32::try_from(uids[i]).map_err(|_| "uid out of range")?,
            user: c.s(users[i])?,
            visible: inf[5][i] != 0,
            tags,
            refs: vec![],
            members: vec![],
        });
    }
    if k.next().is_some() {
        return Err("keys_vals has entries left".into());
    }
    Ok(())
}

fn dsingle(c: &Ctx, b: &[u8], kind: Kind) -> Result<El, String> {
    let mut e = El { kind, id: 0, version: -1, lat: 0, lon: 0, ts: 0, cs: -1, uid: -1, user: String::new(), visible: true, tags: vec![], refs: vec![], members: vec![] };
    let (mut k, mut v8, mut v9, mut v10, mut vals) = (vec![], vec![], vec![], vec![], vec![]);
    let mut has_id = false;
    for (f, v) in fields(b)? {
        match f {
            1 => {
                has_id = true;
                if let V::I(x) = v {
                    e.id = if kind == Kind::Node { unzz(x) } else { x as i64 };
                }
            }
            2 => nums(&v, &mut k)?,
            3 => nums(&v, &mut vals)?,
            4 => {
                if let V::B(x) = v {
                    for (g, v) in fields(x)? {
                        let x = match v {
                            V::I(x) => x as i64,
                            _ => return Err("info field".into()),
                        };
                        match g {
                            1 => e.version = x as i32,
                            2 => e.ts = x * c.dg,
                            3 => e.cs = x,
                            4 => e.uid = x as i32,
                            5 => e.user = c.s(x)?,
                            6 => e.visible = x != 0,
                            _ => return Err("info field".into()),
                        }
                    }
                }
            }
            8 => nums(&v, &mut v8)?,
            9 => nums(&v, &mut v9)?,
            10 => nums(&v, &mut v10)?,
            f => return Err(format!("unexpected element field {}", f)),
        }
    }
    if !has_id {
        return Err("element without id".into());
    }
    if k.len() != vals.len() {
        return Err(format!("{} keys, {} values", k.len(), vals.len()));
    }
    for (a, b) in k.iter().zip(vals.iter()) {
        e.tags.push(c.tag(*a as i64, *b as i64)?);
    }
    match kind {
        Kind::Node => {
            e.lat = c.lao + c.g * unzz(*v8.first().ok_or("no lat")?);
            e.lon = c.loo + c.g * unzz(*v9.first().ok_or("no lon")?);
        }
        Kind::Way => {
            e.refs = undelta(&v8);
            if !v9.is_empty() || !v10.is_empty() {
                return Err("way with coordinates".into());
            }
        }
        Kind::Relation => {
            if v8.len() != v9.len() || v9.len() != v10.len() {
                return Err(format!("{} roles, {} ids, {} types", v8.len(), v9.len(), v10.len()));
            }
            for ((r, m), t) in v8.iter().zip(undelta(&v9)).zip(v10.iter()) {
                let k = match t {
                    0 => Kind::Node,
                    1 => Kind::Way,
                    2 => Kind::Relation,
                    x => return Err(format!("member type {}", x)),
                };
                e.members.push((k, m, c.s(*r as i64)?));
            }
        }
    }
    Ok(e)
}
