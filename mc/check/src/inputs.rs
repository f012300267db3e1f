//! Catalogues of elements: every value class of every field, on its own.
use oracle::model::{El, Kind};

pub const KINDS: [Kind; 3] = [Kind::Node, Kind::Way, Kind::Relation];

fn set(name: &str, kind: Kind, f: impl FnOnce(&mut El)) -> (String, El) {
    let mut e = El::of(kind, 10);
    f(&mut e);
    (name.to_string(), e)
}

fn tagged(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub const TEXTS: [&str; 16] = ["", "plain", "two words", " edges ", "Zażółć ü €", "😀\u{10ffff}", "tab\there", "line\nbreak", "back\\slash", "quote\"'", "\r\u{1}\u{8}\u{b}\u{c}", "\\N", "\u{feff}bom", "e\u{301}\u{e9}", "\u{a0}\u{2028}\u{85}", "İstanbul ß A a"];

/// Elements that differ from an ordinary one in a single respect. Identifiers are positive and in
/// the middle of a file's range unless the name says otherwise.
pub fn variants(kind: Kind) -> Vec<(String, El)> {
    let mut v = vec![set("ordinary", kind, |_| {})];
    for x in [0, 2, 127, 128, 70_000, i32::MAX] {
        v.push(set(&format!("version {}", x), kind, |e| e.version = x));
    }
    for x in [0, 1, 127, 1 << 31, 1 << 40, 1 << 61] {
        v.push(set(&format!("changeset {}", x), kind, |e| e.cs = x));
    }
    for x in [0, 1, 2_000_000_000, -1] {
        v.push(set(&format!("uid {}", x), kind, |e| e.uid = x));
    }
    for (i, x) in TEXTS.iter().enumerate() {
        v.push(set(&format!("user {}", i), kind, |e| e.user = x.to_string()));
    }
    v.push(set("user long", kind, |e| e.user = "ab".repeat(150)));
    for x in [0, 1000, 999, 1_600_000_000_999, -1000, -86_400_000, 4_102_444_800_000, 99_999_999_999_000] {
        v.push(set(&format!("time {}", x), kind, |e| e.ts = x));
    }
    v.push(set("deleted", kind, |e| e.visible = false));
    let tags: Vec<(&str, Vec<(String, String)>)> = vec![
        ("one", tagged(&[("a", "b")])),
        ("key same as value", tagged(&[("a", "a")])),
        ("empty value", tagged(&[("a", "")])),
        ("empty key", tagged(&[("", "b")])),
        ("empty", tagged(&[("", "")])),
        ("order", tagged(&[("b", "1"), ("a", "2"), ("c", "0")])),
        ("swapped", tagged(&[("1", "b"), ("2", "a")])),
        ("repeated key", tagged(&[("a", "x"), ("a", "y"), ("a", "x")])),
        ("user as a tag", tagged(&[("u", "u")])),
        ("role as a tag", tagged(&[("outer", "x")])),
        ("many", (0..300).map(|i| (format!("k{}", i), format!("v{}", i % 7))).collect()),
        ("long", vec![("k".repeat(300), "é".repeat(35_000))]),
    ];
    for (n, t) in tags {
        v.push(set(&format!("tags {}", n), kind, |e| e.tags = t));
    }
    for (i, x) in TEXTS.iter().enumerate() {
        v.push(set(&format!("tag value {}", i), kind, |e| e.tags = vec![("k".into(), x.to_string())]));
        v.push(set(&format!("tag key {}", i), kind, |e| e.tags = vec![(x.to_string(), "v".into())]));
    }
    match kind {
        Kind::Node => {
            let d = 1_000_000_000i64;
            for (a, b) in [(0, 0), (90 * d, 180 * d), (-90 * d, -180 * d), (100, -100), (-100, 100), (89_999_999_900, -179_999_999_900), (123_456_749, -123_456_751), (-49, 51), (51, -49), (7_123_456_700, 8_765_432_100), (33_333_333_333, -66_666_666_667)] {
                v.push(set(&format!("at {} {}", a, b), kind, |e| {
                    e.lat = a;
                    e.lon = b
                }));
            }
        }
        Kind::Way => {
            let r: Vec<(&str, Vec<i64>)> = vec![
                ("none", vec![]),
                ("one", vec![1]),
                ("repeated", vec![5, 5, 5]),
                ("closed", vec![1, 2, 3, 1]),
                ("falling", vec![9, 5, 1, 0]),
                ("negative", vec![-1, -7, 3]),
                ("large", vec![1 << 40, 1, 1 << 61, -(1 << 61), 0]),
                ("many", (0..3000).map(|i| (i * 7919) % 3001).collect()),
            ];
            for (n, x) in r {
                v.push(set(&format!("refs {}", n), kind, |e| e.refs = x));
            }
        }
        Kind::Relation => {
            use Kind::*;
            let s = |x: &str| x.to_string();
            let r: Vec<(&str, Vec<(Kind, i64, String)>)> = vec![
                ("none", vec![]),
                ("node", vec![(Node, 1, s("r"))]),
                ("way", vec![(Way, 1, s("r"))]),
                ("relation", vec![(Relation, 1, s("r"))]),
                ("same id", vec![(Relation, 4, s("")), (Node, 4, s("a")), (Way, 4, s("b")), (Node, 4, s("a"))]),
                ("falling", vec![(Way, 9, s("x")), (Way, 5, s("y")), (Node, -3, s("x"))]),
                ("large", vec![(Node, 1 << 61, s("")), (Node, -(1 << 61), s("")), (Way, 0, s("z"))]),
                ("role as a tag key", vec![(Node, 1, s("k")), (Node, 2, s("v"))]),
                ("many", (0..3000).map(|i| (super::inputs::KINDS[i as usize % 3], (i * 7919) % 3001, format!("role {}", i % 11))).collect()),
            ];
            for (n, x) in r {
                v.push(set(&format!("members {}", n), kind, |e| e.members = x));
            }
            for (i, x) in TEXTS.iter().enumerate() {
                v.push(set(&format!("role {}", i), kind, |e| e.members = vec![(Node, 3, x.to_string()), (Way, 2, s("other"))]));
            }
        }
    }
    for x in [i64::from(i32::MAX), 1 << 40, 1 << 61, 0, -5] {
        v.push(set(&format!("id {}", x), kind, |e| e.id = x));
    }
    v
}

/// Texts of each of the characters from one number to another, at either end and in the middle
pub fn characters(from: u32, to: u32) -> Vec<String> {
    (from..to).filter_map(char::from_u32).flat_map(|c| [format!("{}", c), format!("{}a{}", c, c)]).collect()
}

/// A smaller set, for combinations of three and more.
pub fn few(kind: Kind) -> Vec<(String, El)> {
    let keep = [
        "ordinary", "version 70000", "changeset 1099511627776", "uid 0", "uid -1", "user 0", "user 4", "time 0", "time 1600000000999", "deleted", "tags one", "tags repeated key", "tags empty", "at -90000000000 -180000000000", "at 51 -49", "refs none", "refs falling", "refs large",
        "members none", "members same id", "members falling", "id -5",
    ];
    variants(kind).into_iter().filter(|(n, _)| keep.contains(&n.as_str())).collect()
}

/// Gives ordinary identifiers in increasing order and sorts by kind, identifier and version.
pub fn sequence(v: Vec<El>) -> Vec<El> {
    let mut v: Vec<El> = v
        .into_iter()
        .enumerate()
        .map(|(i, mut e)| {
            if e.id == 10 {
                e.id = 10 + 3 * i as i64;
            }
            e
        })
        .collect();
    v.sort_by_key(|e| e.key());
    v
}

/// A walk in which every ordered pair of 0..n (with itself too) occurs as neighbours.
pub fn pairs_walk(n: usize) -> Vec<usize> {
    // de Bruijn sequence of order two
    let mut out = vec![0];
    for i in 0..n {
        out.push(i);
        for j in i + 1..n {
            out.push(j);
            out.push(i);
        }
        if i + 1 < n {
            // to i+1
        }
    }
    let mut seen = std::collections::HashSet::new();
    for w in out.windows(2) {
        seen.insert((w[0], w[1]));
    }
    // whatever is left
    for i in 0..n {
        for j in 0..n {
            if !seen.contains(&(i, j)) {
                if *out.last().unwrap() != i {
                    out.push(i);
                }
                out.push(j);
                seen.insert((i, j));
            }
        }
    }
    out
}
