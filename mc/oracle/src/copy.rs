//! Independent reader and writer of directory-format dumps (PostgreSQL's COPY text format).
use crate::model::{El, Kind};
use std::collections::BTreeMap;
use std::path::Path;

pub type Row = Vec<Option<String>>;

#[derive(Clone, Debug)]
pub struct Table {
    pub file: String,
    pub cols: Vec<String>,
    pub rows: Vec<Row>,
}

pub type Dump = BTreeMap<String, Table>;

pub fn unescape(b: &[u8]) -> Result<Option<String>, String> {
    if b == b"\\N" {
        return Ok(None);
    }
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        if c != b'\\' {
            out.push(c);
            continue;
        }
        let e = *b.get(i).ok_or("backslash at the end of a field")?;
        i += 1;
        match e {
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b't' => out.push(9),
            b'v' => out.push(11),
            b'0'..=b'7' => {
                let mut v = (e - b'0') as u32;
                let mut k = 0;
                while k < 2 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    k += 1;
                }
                out.push(v as u8);
            }
            b'x' if i < b.len() && b[i].is_ascii_hexdigit() => {
                let mut v = 0u32;
                let mut k = 0;
                while k < 2 && i < b.len() && b[i].is_ascii_hexdigit() {
                    v = v * 16 + (b[i] as char).to_digit(16).unwrap();
                    i += 1;
                    k += 1;
                }
                out.push(v as u8);
            }
            x => out.push(x),
        }
    }
    String::from_utf8(out).map(Some).map_err(|_| "field is not UTF-8".into())
}

/// As PostgreSQL's COPY TO writes it.
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{b}' => o.push_str("\\v"),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o
}

/// Tables the table of contents declares: name, columns, file.
pub fn parse_toc(b: &[u8]) -> Result<Vec<(String, Vec<String>, String)>, String> {
    let find = |from: usize, pat: &[u8]| (from..b.len().saturating_sub(pat.len() - 1)).find(|i| &b[*i..*i + pat.len()] == pat);
    let mut out = vec![];
    let mut p = 0;
    while let Some(i) = find(p, b"COPY ") {
        let e = find(i, b" FROM stdin").ok_or("COPY without FROM stdin")?;
        let s = std::str::from_utf8(&b[i + 5..e]).map_err(|_| "COPY statement is not text")?;
        let (name, cols) = s.split_once(" (").ok_or("no column list")?;
        let cols = cols.strip_suffix(')').ok_or("no closing bracket")?;
        let d = find(e, b".dat").ok_or("no data file")?;
        let mut q = d;
        while q > 0 && b[q - 1].is_ascii_digit() {
            q -= 1;
        }
        out.push((name.to_string(), cols.split(", ").map(|c| c.trim_matches('"').to_string()).collect(), String::from_utf8(b[q..d + 4].to_vec()).unwrap()));
        p = d;
    }
    Ok(out)
}

pub fn parse_table(b: &[u8], cols: usize) -> Result<Vec<Row>, String> {
    let mut rows = vec![];
    let mut ended = false;
    if !b.is_empty() && b.last() != Some(&b'\n') {
        return Err("the last line is not terminated".into());
    }
    for (n, line) in b.split(|c| *c == b'\n').enumerate() {
        if ended {
            if !line.is_empty() {
                return Err(format!("line {}: data after the end marker", n + 1));
            }
            continue;
        }
        if line == b"\\." {
            ended = true;
            continue;
        }
        let f: Vec<&[u8]> = line.split(|c| *c == b'\t').collect();
        if f.len() != cols {
            return Err(format!("line {}: {} columns instead of {}: {}", n + 1, f.len(), cols, String::from_utf8_lossy(line)));
        }
        if line.contains(&b'\r') {
            return Err(format!("line {}: bare carriage return", n + 1));
        }
        let mut r = vec![];
        for x in f {
            r.push(unescape(x).map_err(|e| format!("line {}: {}", n + 1, e))?);
        }
        rows.push(r);
    }
    if !ended {
        return Err("no end marker".into());
    }
    Ok(rows)
}

pub fn parse_dump(dir: &Path) -> Result<Dump, String> {
    let toc = std::fs::read(dir.join("toc.dat")).map_err(|e| format!("toc.dat: {}", e))?;
    let mut d = Dump::new();
    for (name, cols, file) in parse_toc(&toc)? {
        let b = std::fs::read(dir.join(&file)).map_err(|e| format!("{} ({}): {}", name, file, e))?;
        let rows = parse_table(&b, cols.len()).map_err(|e| format!("{} ({}): {}", name, file, e))?;
        if d.insert(name.clone(), Table { file, cols, rows }).is_some() {
            return Err(format!("{} listed twice", name));
        }
    }
    Ok(d)
}

impl Table {
    pub fn col(&self, c: &str) -> Result<usize, String> {
        self.cols.iter().position(|x| x == c).ok_or_else(|| format!("no column {}", c))
    }
    /// the rows projected to the given columns
    pub fn get(&self, cols: &[&str]) -> Result<Vec<Vec<String>>, String> {
        let ix: Vec<usize> = cols.iter().map(|c| self.col(c)).collect::<Result<_, _>>()?;
        self.rows
            .iter()
            .map(|r| ix.iter().map(|i| r[*i].clone().ok_or_else(|| format!("NULL in column {}", self.cols[*i]))).collect())
            .collect()
    }
}

// --------------------------------------------------------------------------------------------
// times

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn time_of(secs: i64) -> String {
    let z = secs.div_euclid(86400) + 719468;
    let s = secs.rem_euclid(86400);
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", y, m, d, s / 3600, s / 60 % 60, s % 60)
}

pub fn secs_of(t: &str) -> Result<i64, String> {
    let bad = || format!("bad timestamp {:?}", t);
    let b = t.as_bytes();
    if b.len() < 19 || b[4] != b'-' || b[7] != b'-' || b[10] != b' ' || b[13] != b':' || b[16] != b':' {
        return Err(bad());
    }
    let n = |r: std::ops::Range<usize>| t.get(r).and_then(|x| x.parse::<i64>().ok()).ok_or_else(bad);
    if b.len() > 19 && (b[19] != b'.' || !b[20..].iter().all(|c| c.is_ascii_digit()) || b.len() == 20) {
        return Err(bad());
    }
    let (y, mo, d, h, mi, s) = (n(0..4)?, n(5..7)?, n(8..10)?, n(11..13)?, n(14..16)?, n(17..19)?);
    if !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || s > 60 {
        return Err(bad());
    }
    Ok(days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s)
}

/// The quad tile of a coordinate: the bits of x and y interleaved.
pub fn tile(lat: f64, lon: f64) -> u64 {
    let x = ((lon + 180.0) * 65535.0 / 360.0).round() as u64;
    let y = ((lat + 90.0) * 65535.0 / 180.0).round() as u64;
    let mut t = 0;
    for i in 0..16 {
        t |= (x >> i & 1) << (2 * i + 1);
        t |= (y >> i & 1) << (2 * i);
    }
    t
}

// --------------------------------------------------------------------------------------------
// generating a dump

pub const TABLES: [(&str, &str); 10] = [
    ("nodes", "node_id latitude longitude changeset_id visible \"timestamp\" tile version redaction_id"),
    ("node_tags", "node_id version k v"),
    ("ways", "way_id changeset_id \"timestamp\" version visible redaction_id"),
    ("way_nodes", "way_id node_id version sequence_id"),
    ("way_tags", "way_id k v version"),
    ("relations", "relation_id changeset_id \"timestamp\" version visible redaction_id"),
    ("relation_members", "relation_id member_type member_id member_role version sequence_id"),
    ("relation_tags", "relation_id k v version"),
    ("changesets", "id user_id created_at min_lat max_lat min_lon max_lon closed_at num_changes"),
    ("users", "email id pass_crypt creation_time display_name data_public description home_lat home_lon home_zoom pass_salt email_valid new_email creation_ip languages status terms_agreed consider_pd auth_uid preferred_editor terms_seen description_format changesets_count traces_count diary_entries_count image_use_gravatar auth_provider home_tile tou_agreed"),
];

/// Rows of the history tables that describe the elements (fields not yet escaped, None is NULL).
pub fn rows_of(els: &[El]) -> BTreeMap<&'static str, Vec<Row>> {
    let mut t: BTreeMap<&'static str, Vec<Row>> = TABLES.iter().map(|(n, _)| (*n, vec![])).collect();
    let s = |x: String| Some(x);
    let b = |v: bool| Some(if v { "t" } else { "f" }.to_string());
    let mut users: BTreeMap<i32, String> = BTreeMap::new();
    let mut sets: BTreeMap<i64, i32> = BTreeMap::new();
    for e in els {
        users.insert(e.uid, e.user.clone());
        sets.insert(e.cs, e.uid);
        let (id, ver, time) = (s(e.id.to_string()), s(e.version.to_string()), s(time_of(e.ts.div_euclid(1000))));
        match e.kind {
            Kind::Node => {
                t.get_mut("nodes").unwrap().push(vec![id.clone(), s((e.lat / 100).to_string()), s((e.lon / 100).to_string()), s(e.cs.to_string()), b(e.visible), time, s(tile((e.lat / 100) as f64 / 1e7, (e.lon / 100) as f64 / 1e7).to_string()), ver.clone(), None]);
                for (k, v) in &e.tags {
                    t.get_mut("node_tags").unwrap().push(vec![id.clone(), ver.clone(), s(k.clone()), s(v.clone())]);
                }
            }
            Kind::Way => {
                t.get_mut("ways").unwrap().push(vec![id.clone(), s(e.cs.to_string()), time, ver.clone(), b(e.visible), None]);
                for (i, r) in e.refs.iter().enumerate() {
                    t.get_mut("way_nodes").unwrap().push(vec![id.clone(), s(r.to_string()), ver.clone(), s((i + 1).to_string())]);
                }
                for (k, v) in &e.tags {
                    t.get_mut("way_tags").unwrap().push(vec![id.clone(), s(k.clone()), s(v.clone()), ver.clone()]);
                }
            }
            Kind::Relation => {
                t.get_mut("relations").unwrap().push(vec![id.clone(), s(e.cs.to_string()), time, ver.clone(), b(e.visible), None]);
                for (i, (k, m, r)) in e.members.iter().enumerate() {
                    let kn = match k {
                        Kind::Node => "Node",
                        Kind::Way => "Way",
                        Kind::Relation => "Relation",
                    };
                    t.get_mut("relation_members").unwrap().push(vec![id.clone(), s(kn.into()), s(m.to_string()), s(r.clone()), ver.clone(), s((i + 1).to_string())]);
                }
                for (k, v) in &e.tags {
                    t.get_mut("relation_tags").unwrap().push(vec![id.clone(), s(k.clone()), s(v.clone()), ver.clone()]);
                }
            }
        }
    }
    for (c, u) in &sets {
        let x = "2020-01-01 00:00:00.000001";
        t.get_mut("changesets").unwrap().push([&c.to_string(), &u.to_string(), x, "-900000000", "900000000", "-1800000000", "1800000000", x, "0"].iter().map(|v| Some(v.to_string())).collect());
    }
    for (u, n) in &users {
        let v: Vec<String> = vec![
            format!("user-{}@example.com", u), u.to_string(), "0".repeat(32), "2020-01-01 00:00:00.000001".into(), n.clone(), "t".into(), n.clone(), "0".into(), "0".into(), "3".into(), "00000000".into(), "f".into(), "\\N".into(), "\\N".into(), "\\N".into(), "pending".into(), "\\N".into(), "f".into(), "\\N".into(), "\\N".into(), "f".into(), "markdown".into(), "0".into(), "0".into(), "0".into(), "f".into(), "\\N".into(), "\\N".into(), "\\N".into(),
        ];
        t.get_mut("users").unwrap().push(v.into_iter().enumerate().map(|(i, x)| if x == "\\N" && i != 4 && i != 6 { None } else { Some(x) }).collect());
    }
    t
}

pub struct Layout {
    /// order of the tables in the table of contents
    pub tables: Vec<usize>,
    /// per table: order of its columns
    pub cols: BTreeMap<&'static str, Vec<usize>>,
    /// as pg_dump ends a file, or just the end marker
    pub blank_lines_at_end: bool,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout { tables: (0..TABLES.len()).collect(), cols: BTreeMap::new(), blank_lines_at_end: true }
    }
}

pub fn write_dump(dir: &Path, rows: &BTreeMap<&'static str, Vec<Row>>, l: &Layout) {
    std::fs::create_dir_all(dir).unwrap();
    let mut toc: Vec<u8> = b"PGDMP\x01\x0e\x00".to_vec();
    for (n, ti) in l.tables.iter().enumerate() {
        let (name, cols) = TABLES[*ti];
        let cols: Vec<&str> = cols.split(' ').collect();
        let order: Vec<usize> = l.cols.get(name).cloned().unwrap_or_else(|| (0..cols.len()).collect());
        let c: Vec<&str> = order.iter().map(|i| cols[*i]).collect();
        let f = format!("{}.dat", 3800 + n * 7);
        toc.extend_from_slice(b"\x00\x01TABLE DATA\x02public\x00");
        toc.extend_from_slice(format!("COPY public.{} ({}) FROM stdin;\n", name, c.join(", ")).as_bytes());
        toc.extend_from_slice(b"\x01\x00\x00\x00\x08\x00\x00\x00");
        toc.extend_from_slice(f.as_bytes());
        toc.extend_from_slice(b"\x00\x00");
        let mut out = String::new();
        for r in &rows[name] {
            let x: Vec<String> = order
                .iter()
                .map(|i| match &r[*i] {
                    None => "\\N".to_string(),
                    Some(v) => escape(v),
                })
                .collect();
            out.push_str(&x.join("\t"));
            out.push('\n');
        }
        out.push_str("\\.\n");
        if l.blank_lines_at_end {
            out.push_str("\n\n");
        }
        std::fs::write(dir.join(&f), out).unwrap();
    }
    std::fs::write(dir.join("toc.dat"), toc).unwrap();
}
