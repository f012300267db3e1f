//! C35: every value that the columns of the database can hold, other columns and tables.
use crate::dump;
use crate::inputs::KINDS;
use oracle::copy::{self, Row};
use oracle::driver::*;
use oracle::model::*;
use oracle::scratch::Scratch;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug)]
struct Table {
    /// as in the COPY statement
    name: String,
    cols: Vec<String>,
    rows: Vec<Row>,
    /// what comes before it in the table of contents
    before: Vec<u8>,
}

fn table(t: &(&'static str, &'static str), rows: &BTreeMap<&'static str, Vec<Row>>) -> Table {
    Table { name: format!("public.{}", t.0), cols: t.1.split(' ').map(|x| x.to_string()).collect(), rows: rows[t.0].clone(), before: vec![] }
}

fn tables(els: &[El]) -> Vec<Table> {
    let rows = copy::rows_of(els);
    copy::TABLES.iter().map(|t| table(t, &rows)).collect()
}

fn emit(dir: &Path, tables: &[Table]) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut toc: Vec<u8> = b"PGDMP\x01\x0e\x00".to_vec();
    for (n, t) in tables.iter().enumerate() {
        let f = format!("{}.dat", 3800 + n * 7);
        toc.extend_from_slice(&t.before);
        toc.extend_from_slice(b"\x00\x01TABLE DATA\x02public\x00");
        let cols = if t.cols.is_empty() { " ".to_string() } else { format!(" ({})", t.cols.join(", ")) };
        toc.extend_from_slice(format!("COPY {}{} FROM stdin;\n", t.name, cols).as_bytes());
        toc.extend_from_slice(b"\x01\x00\x00\x00\x08\x00\x00\x00");
        toc.extend_from_slice(f.as_bytes());
        toc.extend_from_slice(b"\x00\x00");
        let mut out = String::new();
        for r in &t.rows {
            let x: Vec<String> = r.iter().map(|v| v.as_ref().map_or("\\N".to_string(), |v| copy::escape(v))).collect();
            out.push_str(&x.join("\t"));
            out.push('\n');
        }
        out.push_str("\\.\n\n\n");
        std::fs::write(dir.join(&f), out).unwrap();
    }
    std::fs::write(dir.join("toc.dat"), toc).unwrap();
}

/// The elements that the tables describe. An error for what an element cannot hold.
fn meaning(tables: &[Table]) -> Result<Vec<El>, String> {
    let get = |name: &str, cols: &[&str]| -> Result<Vec<Vec<String>>, String> {
        let t = tables.iter().find(|t| t.name == format!("public.{}", name)).ok_or("no table")?;
        let ix: Vec<usize> = cols.iter().map(|c| t.cols.iter().position(|x| x.trim_matches('"') == *c).unwrap()).collect();
        Ok(t.rows.iter().map(|r| ix.iter().map(|i| r[*i].clone().unwrap()).collect()).collect())
    };
    let n = |s: &String| s.parse::<i64>().map_err(|e| format!("{:?}: {}", s, e));
    let small = |s: &String| n(s).and_then(|x| i32::try_from(x).map_err(|_| format!("{} is too large", x)));
    let names: BTreeMap<i64, String> = get("users", &["id", "display_name"])?.into_iter().map(|r| (n(&r[0]).unwrap(), r[1].clone())).collect();
    let sets: BTreeMap<i64, i64> = get("changesets", &["id", "user_id"])?.into_iter().map(|r| (n(&r[0]).unwrap(), n(&r[1]).unwrap())).collect();
    let mut v = vec![];
    for (kind, objects, tags, id) in [(Kind::Node, "nodes", "node_tags", "node_id"), (Kind::Way, "ways", "way_tags", "way_id"), (Kind::Relation, "relations", "relation_tags", "relation_id")] {
        let tags = get(tags, &[id, "version", "k", "v"])?;
        let refs = if kind == Kind::Way { get("way_nodes", &[id, "version", "sequence_id", "node_id"])? } else { vec![] };
        let members = if kind == Kind::Relation { get("relation_members", &[id, "version", "sequence_id", "member_type", "member_id", "member_role"])? } else { vec![] };
        for r in get(objects, &[id, "version", "changeset_id", "timestamp", "visible"])? {
            let mut e = El::of(kind, 1);
            e.id = n(&r[0])?;
            e.version = small(&r[1])?;
            e.cs = n(&r[2])?;
            e.uid = small(&sets[&e.cs].to_string())?;
            e.user = names[&sets[&e.cs]].clone();
            e.ts = copy::secs_of(&r[3])? * 1000;
            e.visible = r[4] == "t";
            (e.lat, e.lon) = (0, 0);
            e.tags = tags.iter().filter(|t| t[..2] == r[..2]).map(|t| (t[2].clone(), t[3].clone())).collect();
            let mut m: Vec<&Vec<String>> = refs.iter().filter(|t| t[..2] == r[..2]).collect();
            m.sort_by_key(|t| n(&t[2]).unwrap());
            e.refs = m.iter().map(|t| n(&t[3]).unwrap()).collect();
            let mut m: Vec<&Vec<String>> = members.iter().filter(|t| t[..2] == r[..2]).collect();
            m.sort_by_key(|t| n(&t[2]).unwrap());
            e.members = m
                .iter()
                .map(|t| {
                    let k = match t[3].as_str() {
                        "Node" => Kind::Node,
                        "Way" => Kind::Way,
                        _ => Kind::Relation,
                    };
                    (k, n(&t[4]).unwrap(), t[5].clone())
                })
                .collect();
            if kind == Kind::Node {
                let c = get("nodes", &[id, "version", "latitude", "longitude"])?.into_iter().find(|t| t[..2] == r[..2]).unwrap();
                (e.lat, e.lon) = (n(&c[2])? * 100, n(&c[3])? * 100);
            }
            v.push(e);
        }
    }
    Ok(v)
}

fn judge(s: &Scratch, tables: &[Table]) -> Out {
    let (d, t) = (s.file("dump"), s.file("tmp"));
    let _ = std::fs::remove_dir_all(&t);
    emit(&d, tables);
    let got = caught(|| dump::read(&d, &t));
    let result = match (meaning(tables), got) {
        (Err(_), Err(_)) => Ok(()),
        (Err(x), Ok(_)) => Err(format!("{}, but the dump is read without an error", x)),
        (Ok(_), Err(x)) => Err(x),
        // times to the second
        (Ok(want), Ok(got)) => dump::same(&want, &got.iter().map(quantised).collect::<Vec<_>>()),
    };
    match result {
        Ok(()) => Out::Ok { nontrivial: true, what: "read".into() },
        Err(x) => Out::Bad(x),
    }
}

/// by the iterator of dumps, damage it cannot read is a panic
fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|p| Err(format!("panic: {}", payload(&p))))
}

fn sample() -> Vec<El> {
    let mut v = vec![];
    for kind in KINDS {
        for (id, ver, shape) in [(5, 1, 'f'), (5, 2, 'd'), (5, 3, 'f'), (9, 1, 'b'), (20, 7, 'f')] {
            let mut e = dump::version(kind, id, ver, shape);
            e.cs = 100 + ver as i64;
            e.uid = 7 + ver % 2;
            e.user = format!("user {}", e.uid);
            v.push(e);
        }
    }
    v
}

const TIMES: &[&str] = &["2020-01-01 00:00:00", "2020-02-29 23:59:59.1", "2020-12-31 12:00:00.000001", "1999-12-31 23:59:59.999999", "1970-01-01 00:00:00", "1969-12-31 23:59:59", "9999-12-31 23:59:59", "0001-01-01 00:00:00"];
const TEXTS: &[&str] = &["", " ", "x", "a\tb\nc\rd", "\\", "\\N", "\\.", "\u{8}\u{b}\u{c}\u{1f}\u{7f}", "\u{e9}\u{20ac}\u{1f600}", "'\"`$%;,(){}", "\u{a0}", "NULL"];
const BOOLS: &[&str] = &["t", "f"];
const INT2: &[&str] = &["0", "-1", "-32768", "32767"];
const INT4: &[&str] = &["0", "-1", "-2147483648", "2147483647"];
const INT8: &[&str] = &["0", "-1", "-9223372036854775808", "9223372036854775807", "2147483648"];
const FLOATS: &[&str] = &["0", "-0", "90", "-33.8688197", "1e-07", "1.7976931348623157e+308", "NaN", "Infinity", "-Infinity"];
const LATS: &[&str] = &["0", "1", "-1", "900000000", "-900000000", "899999999", "123456789"];
const LONS: &[&str] = &["0", "1", "-1", "1800000000", "-1800000000", "1799999999", "-123456789"];
const STATUS: &[&str] = &["pending", "active", "confirmed", "suspended", "deleted"];
const FORMAT: &[&str] = &["html", "markdown", "text"];
const NWR: &[&str] = &["Node", "Way", "Relation"];

/// The columns that are no part of a key: their values, and whether they may be NULL
fn domain(table: &str, col: &str) -> Option<(&'static [&'static str], bool)> {
    Some(match (table, col) {
        ("nodes", "latitude") => (LATS, false),
        ("nodes", "longitude") => (LONS, false),
        ("nodes", "tile") => (INT8, false),
        ("nodes" | "ways" | "relations", "\"timestamp\"") => (TIMES, false),
        ("nodes" | "ways" | "relations", "visible") => (BOOLS, false),
        ("nodes" | "ways" | "relations", "redaction_id") => (INT4, true),
        ("node_tags" | "way_tags" | "relation_tags", "v") => (TEXTS, false),
        ("way_nodes", "node_id") => (INT8, false),
        ("relation_members", "member_type") => (NWR, false),
        ("relation_members", "member_id") => (INT8, false),
        ("relation_members", "member_role") => (TEXTS, false),
        ("changesets", "created_at" | "closed_at") => (TIMES, false),
        ("changesets", "min_lat" | "max_lat") => (LATS, true),
        ("changesets", "min_lon" | "max_lon") => (LONS, true),
        ("changesets", "num_changes") => (INT4, false),
        ("users", "email" | "pass_crypt" | "display_name" | "description") => (TEXTS, false),
        ("users", "creation_time") => (TIMES, false),
        ("users", "data_public" | "email_valid" | "consider_pd" | "terms_seen" | "image_use_gravatar") => (BOOLS, false),
        ("users", "home_lat" | "home_lon") => (FLOATS, true),
        ("users", "home_zoom") => (INT2, true),
        ("users", "pass_salt" | "new_email" | "creation_ip" | "languages" | "auth_uid" | "preferred_editor" | "auth_provider") => (TEXTS, true),
        ("users", "status") => (STATUS, false),
        ("users", "terms_agreed" | "tou_agreed") => (TIMES, true),
        ("users", "description_format") => (FORMAT, false),
        ("users", "changesets_count" | "traces_count" | "diary_entries_count") => (INT4, false),
        ("users", "home_tile") => (INT8, true),
        _ => return None,
    })
}

type Change = (usize, usize, Option<&'static str>);

/// All values of all columns
fn changes() -> Vec<Change> {
    let mut v = vec![];
    for (ti, (name, cols)) in copy::TABLES.iter().enumerate() {
        for (ci, c) in cols.split(' ').enumerate() {
            if let Some((values, null)) = domain(name, c) {
                v.extend(values.iter().map(|x| (ti, ci, Some(*x))));
                if null {
                    v.push((ti, ci, None));
                }
            }
        }
    }
    v
}

fn apply(t: &mut [Table], c: &Change, rows: &str) {
    let n = t[c.0].rows.len();
    for (i, r) in t[c.0].rows.iter_mut().enumerate() {
        let this = match rows {
            "all rows" => true,
            "the first row" => i == 0,
            "the last row" => i + 1 == n,
            "every other row" => i % 2 == 1,
            _ => i != n / 2,
        };
        if this {
            r[c.1] = c.2.map(|x| x.to_string());
        }
    }
}

fn told(c: &Change) -> String {
    let (name, cols) = copy::TABLES[c.0];
    format!("{}.{} {:?}", name, cols.split(' ').nth(c.1).unwrap(), c.2)
}

pub fn c35(ctx: &mut Ctx) {
    let s = &Scratch::new();
    let base = &tables(&sample());
    let all = &changes();
    let which = ["all rows", "the first row", "the last row", "every other row", "all rows but one"];
    for c in all {
        for rows in which {
            ctx.case(&format!("{} in {}", told(c), rows), || {
                let mut t = base.clone();
                apply(&mut t, c, rows);
                judge(s, &t)
            });
        }
    }
    // two columns of one table at once
    for (i, a) in all.iter().enumerate() {
        for b in &all[i + 1..] {
            // of all the values of users only NULL, the first and the last
            let ends = |c: &Change| {
                let (name, cols) = copy::TABLES[c.0];
                let d = domain(name, cols.split(' ').nth(c.1).unwrap()).unwrap().0;
                name != "users" || c.2.is_none() || c.2 == d.first().copied() || c.2 == d.last().copied()
            };
            if a.0 != b.0 || a.1 == b.1 || !ctx.thorough() && !(ends(a) && ends(b)) {
                continue;
            }
            ctx.case(&format!("{} and {}", told(a), told(b)), || {
                let mut t = base.clone();
                apply(&mut t, a, "all rows");
                apply(&mut t, b, "every other row");
                judge(s, &t)
            });
        }
    }
    // every subset of the columns of a changeset, or of a user, that may be NULL
    for (ti, (name, _)) in copy::TABLES.iter().enumerate() {
        let null: Vec<&Change> = all.iter().filter(|c| c.0 == ti && c.2.is_none()).collect();
        for set in 0..1usize << null.len() {
            if *name == "users" && !ctx.thorough() && (2..null.len() as u32 - 1).contains(&set.count_ones()) {
                continue;
            }
            ctx.case(&format!("{} with the columns {:b} NULL", name, set), || {
                let mut t = base.clone();
                for (i, c) in null.iter().enumerate() {
                    if set >> i & 1 > 0 {
                        apply(&mut t, c, "all rows");
                    } else {
                        let (name, cols) = copy::TABLES[c.0];
                        let v = domain(name, cols.split(' ').nth(c.1).unwrap()).unwrap().0[0];
                        apply(&mut t, &(c.0, c.1, Some(v)), "all rows");
                    }
                }
                judge(s, &t)
            });
        }
    }
    keys(ctx, s);
    strangers(ctx, s, base);
}

/// Ids, versions, sequence numbers, changesets and users over the range of their columns
fn keys(ctx: &mut Ctx, s: &Scratch) {
    let large = [-1i64, 0, 1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) + 7, (1 << 53) + 1, i64::MAX, i64::MIN];
    for kind in KINDS {
        for what in ["id", "version", "changeset", "user"] {
            for x in large {
                for y in large {
                    if x == y {
                        continue;
                    }
                    ctx.case(&format!("{:?}s with {} {} and {}", kind, what, x, y), || {
                        // 100 stands for the one, 200 for the other
                        let of = |v: i64| {
                            let mut e = dump::version(kind, if what == "version" { 3 } else { v / 100 + 2 }, 1, 'f');
                            match what {
                                "id" => e.id = v,
                                "version" => e.version = v as i32,
                                "changeset" => e.cs = v,
                                _ => (e.uid, e.cs) = (v as i32, v),
                            }
                            e.user = format!("user {}", e.uid);
                            e
                        };
                        let mut t = tables(&[of(100), of(200)]);
                        let cols: &[&str] = match what {
                            "id" => &["node_id", "way_id", "relation_id"],
                            "version" => &["version"],
                            "changeset" => &["changeset_id"],
                            _ => &["user_id"],
                        };
                        for t in &mut t {
                            let own = (t.name == "public.changesets" && what == "changeset") || (t.name == "public.users" && what == "user");
                            for (i, c) in t.cols.iter().enumerate() {
                                // not the node of a way
                                let key = cols.contains(&c.as_str()) && !(t.name == "public.way_nodes" && c == "node_id");
                                if key || own && c == "id" {
                                    for r in &mut t.rows {
                                        match r[i].as_deref() {
                                            Some("100") => r[i] = Some(x.to_string()),
                                            Some("200") => r[i] = Some(y.to_string()),
                                            _ => {}
                                        }
                                    }
                                }
                            }
                        }
                        judge(s, &t)
                    });
                }
            }
        }
    }
    // sequence numbers
    for (ti, name) in [(3usize, "way_nodes"), (6, "relation_members")] {
        let most = if ti == 3 { i64::MAX } else { i32::MAX as i64 };
        let numbers: [[i64; 4]; 7] = [[0, 1, 2, 3], [1, 2, 3, 4], [10, 9, 8, 100], [-2, -1, 0, 1], [most, most - 1, 0, -most], [2, 1, 4, 3], [1000, 10, 100, 1]];
        for n in numbers {
            for (perm, p) in dump::permutations(4).into_iter().enumerate() {
                ctx.case(&format!("{} numbered {:?}, permutation {}", name, n, perm), || {
                    let mut e = El::of(if ti == 3 { Kind::Way } else { Kind::Relation }, 4);
                    e.refs = vec![];
                    for i in 0..4 {
                        match e.kind {
                            Kind::Way => e.refs.push(40 + i),
                            _ => e.members.push((KINDS[i as usize % 3], 40 + i, format!("r{}", i))),
                        }
                    }
                    let mut t = tables(&[e]);
                    let c = t[ti].cols.iter().position(|c| c == "sequence_id").unwrap();
                    let rows = std::mem::take(&mut t[ti].rows);
                    t[ti].rows = p.iter().map(|i| rows[*i].clone()).collect();
                    for (i, r) in t[ti].rows.iter_mut().enumerate() {
                        r[c] = Some(n[i].to_string());
                    }
                    judge(s, &t)
                });
            }
        }
    }
}

/// Columns and tables that this program does not know of, and other entries in the table of contents
fn strangers(ctx: &mut Ctx, s: &Scratch, base: &[Table]) {
    for ti in 0..base.len() {
        for at in 0..=base[ti].cols.len() {
            for v in [None, Some(""), Some("x"), Some("\\."), Some("\\N"), Some("a\tb\nc"), Some("42")] {
                for name in ["extra", "\"extra column\"", "\"Id\""] {
                    ctx.case(&format!("{} with another column {} at {}, {:?}", base[ti].name, name, at, v), || {
                        let mut t = base.to_vec();
                        t[ti].cols.insert(at, name.to_string());
                        for r in &mut t[ti].rows {
                            r.insert(at, v.map(|x| x.to_string()));
                        }
                        judge(s, &t)
                    });
                }
            }
        }
    }
    let one = |name: &str, cols: &[&str]| Table {
        name: name.to_string(),
        cols: cols.iter().map(|x| x.to_string()).collect(),
        rows: (0..3).map(|i| cols.iter().map(|_| Some(format!("{}", i))).collect()).collect(),
        before: vec![],
    };
    let others = [
        one("public.notes", &["id", "body"]),
        one("public.current_nodes", &["id", "latitude", "longitude", "changeset_id", "visible", "\"timestamp\"", "tile", "version"]),
        one("public.nodes_old", &["id"]),
        one("public.my_users", &["id"]),
        one("archive.nodes", &["node_id", "x"]),
        one("xpublic.nodes", &["node_id"]),
        one("public.\"my table\"", &["id", "\"a b\""]),
        one("\"Old Schema\".nodes", &["node_id"]),
        one("public.\"Nodes\"", &["id"]),
        one("public.nothing", &[]),
    ];
    for o in &others {
        for at in 0..=base.len() {
            ctx.case(&format!("another table {} at {}", o.name, at), || {
                let mut t = base.to_vec();
                t.insert(at, o.clone());
                judge(s, &t)
            });
        }
        for p in &others {
            ctx.case(&format!("other tables {} and {}", o.name, p.name), || {
                let mut t = base.to_vec();
                t.insert(5, o.clone());
                t.insert(0, p.clone());
                t.push(Table { name: "public.last".into(), ..p.clone() });
                judge(s, &t)
            });
        }
    }
    let entries: [&[u8]; 9] = [
        b"COMMENT ON TABLE public.nodes IS 'COPY of the data';\n",
        b"COMMENT ON TABLE public.nodes IS 'nightly COPY ';\n",
        b"COMMENT ON TABLE public.notes IS 'loaded by COPY notes (id) FROM stdin';\n",
        b"COMMENT ON TABLE public.notes IS 'kept in 17.dat';\n",
        b"COMMENT ON TABLE public.notes IS 'piped FROM stdin';\n",
        b"CREATE FUNCTION public.load() RETURNS void AS $$ COPY public.nodes FROM '/tmp/x' $$;\n",
        b"COPY \xff\xfe\x00\x01",
        b"copy public.nodes (id) from stdin;",
        b"CREATE TABLE public.\"COPY \" (id bigint);\n",
    ];
    for (n, e) in entries.iter().enumerate() {
        for at in 0..base.len() {
            ctx.case(&format!("entry {} of the table of contents before table {}", n, at), || {
                let mut t = base.to_vec();
                t[at].before = e.to_vec();
                judge(s, &t)
            });
        }
        ctx.case(&format!("entry {} of the table of contents before every table", n), || {
            let mut t = base.to_vec();
            for t in &mut t {
                t.before = e.to_vec();
            }
            judge(s, &t)
        });
    }
}
