//! C17, C21: laws of elements, coordinates and bounding boxes, on whole bounded domains.
use crate::conv;
use oracle::driver::*;
use oracle::model::*;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::str::FromStr;

// --------------------------------------------------------------------------------------------
// C17

/// (kind rank, id, version); sentinels above everything
type Key = (u8, i64, i32);

fn key(e: &Element) -> Key {
    match conv::from(e) {
        None => (9, 0, 0),
        Some(x) => (x.kind as u8, x.id, x.version),
    }
}

/// an element with this key; `flavour` changes everything else
fn element(k: Key, flavour: u32) -> Element {
    let kind = match k.0 {
        0 => Kind::Node,
        1 => Kind::Way,
        2 => Kind::Relation,
        _ => return Element::Sentinel,
    };
    let mut e = El::of(kind, 1);
    e.id = k.1;
    e.version = k.2;
    if flavour & 1 == 1 {
        e.ts = 5000 - 1000 * k.2.rem_euclid(7) as i64;
        e.cs = 99 - k.1.rem_euclid(50);
        e.uid = 7;
        e.user = "zzz".into();
        e.visible = false;
        e.tags = vec![("a".into(), "b".into())];
        e.lat = -e.lat;
        e.refs.reverse();
        e.members.clear();
    }
    if flavour & 2 == 2 {
        e.tags.push(("b".into(), String::new()));
        e.refs.clear();
        e.user.clear();
        e.cs = 0;
    }
    conv::to(&e)
}

fn pair(a: &Element, b: &Element) -> Result<(), String> {
    let (x, y) = (key(a), key(b));
    let want = x.cmp(&y);
    let name = || format!("{:?} and {:?}", x, y);
    if a.cmp(b) != want {
        return Err(format!("{}: cmp gives {:?}", name(), a.cmp(b)));
    }
    if a.partial_cmp(b) != Some(want) {
        return Err(format!("{}: partial_cmp gives {:?}", name(), a.partial_cmp(b)));
    }
    if (a == b) != (want == Ordering::Equal) || (a != b) != (want != Ordering::Equal) {
        return Err(format!("{}: equality gives {}", name(), a == b));
    }
    let ops = [a < b, a <= b, a > b, a >= b];
    let w = [x < y, x <= y, x > y, x >= y];
    if ops != w {
        return Err(format!("{}: <, <=, >, >= give {:?}", name(), ops));
    }
    let mx = key(&a.clone().max(b.clone()));
    let mn = key(&a.clone().min(b.clone()));
    if mx != x.max(y) || mn != x.min(y) {
        return Err(format!("{}: max {:?} min {:?}", name(), mx, mn));
    }
    if Element::same_type(a, b) != (x.0 == y.0) {
        return Err(format!("{}: same_type gives {}", name(), Element::same_type(a, b)));
    }
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    let ids = [i64::MIN, -(1 << 40), -2, -1, 0, 1, 2, 10, 255, 256, i64::from(i32::MAX), i64::from(i32::MAX) + 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, (1 << 53) + 2, i64::MAX - 1, i64::MAX];
    let vers = [i32::MIN, -1, 0, 1, 2, 10, 127, 128, 65536, i32::MAX];
    let mut keys: Vec<Key> = vec![(9, 0, 0)];
    for k in 0..3u8 {
        for i in ids {
            for v in vers {
                keys.push((k, i, v));
            }
        }
    }
    for (i, a) in keys.iter().enumerate() {
        ctx.case(&format!("all pairs with {:?}", a), || {
            let x = element(*a, i as u32 % 4);
            for b in &keys {
                for f in 0..4 {
                    if let Err(e) = pair(&x, &element(*b, f)) {
                        return Out::Bad(e);
                    }
                }
            }
            ok(true)
        });
    }
    for k in 0..4u8 {
        ctx.case(&format!("kind {}", k), || {
            let k = if k == 3 { 9 } else { k };
            let e = element((k, 1, 1), 0);
            let got = [e.is_node(), e.is_way(), e.is_relation(), e.is_sentinel()];
            if got != [k == 0, k == 1, k == 2, k == 9] {
                return Out::Bad(format!("{:?}", got));
            }
            ok(true)
        });
    }
    // all triples of a smaller domain: transitivity, and the order of every list of three
    let small: Vec<Key> = {
        let mut v = vec![(9, 0, 0)];
        for k in 0..3u8 {
            for i in [-1i64, 0, 1, 1 << 33] {
                for ver in [0, 1, 2] {
                    v.push((k, i, ver));
                }
            }
        }
        v
    };
    for a in &small {
        ctx.case(&format!("all triples with {:?}", a), || {
            let el: Vec<Element> = small.iter().map(|k| element(*k, 0)).collect();
            let x = element(*a, 1);
            for b in &el {
                for c in &el {
                    if x <= *b && *b <= *c && !(x <= *c) {
                        return Out::Bad(format!("not transitive: {:?} {:?} {:?}", a, key(b), key(c)));
                    }
                    if x == *b && *b == *c && x != *c {
                        return Out::Bad(format!("equality not transitive: {:?} {:?} {:?}", a, key(b), key(c)));
                    }
                    if x == *b && x.cmp(c) != b.cmp(c) {
                        return Out::Bad(format!("equal elements compare differently: {:?} {:?} {:?}", a, key(b), key(c)));
                    }
                }
            }
            ok(true)
        });
    }
    // sorting: every list up to this length over a small alphabet
    let al: Vec<Key> = vec![(9, 0, 0), (0, 1, 1), (0, 1, 2), (0, 2, 1), (1, 1, 1), (1, 0, 3), (2, 1, 1), (2, -1, 1)];
    let top = if ctx.thorough() { 7u32 } else { 6 };
    for len in 0..=top {
        let n = al.len().pow(len);
        let chunk = 512;
        for start in (0..n).step_by(chunk) {
            ctx.case(&format!("sorting lists of {} from {}", len, start), || {
                for c in start..(start + chunk).min(n) {
                    let ks: Vec<Key> = (0..len).map(|i| al[c / al.len().pow(i) % al.len()]).collect();
                    let el: Vec<Element> = ks.iter().enumerate().map(|(i, k)| element(*k, i as u32 % 3)).collect();
                    let mut want = ks.clone();
                    want.sort();
                    let got = |v: &[Element]| v.iter().map(key).collect::<Vec<_>>();
                    let mut a = el.clone();
                    a.sort();
                    if got(&a) != want {
                        return Out::Bad(format!("sort of {:?} gives {:?}", ks, got(&a)));
                    }
                    let mut b = el.clone();
                    b.sort_unstable();
                    if got(&b) != want {
                        return Out::Bad(format!("sort_unstable of {:?} gives {:?}", ks, got(&b)));
                    }
                    let s: BTreeSet<Element> = el.iter().cloned().collect();
                    want.dedup();
                    let s: Vec<Key> = s.iter().map(key).collect();
                    if s != want {
                        return Out::Bad(format!("the set of {:?} is {:?}", ks, s));
                    }
                    a.dedup();
                    if got(&a) != want {
                        return Out::Bad(format!("deduplicating {:?} gives {:?}", ks, got(&a)));
                    }
                    for k in &al {
                        let r = a.binary_search(&element(*k, 0));
                        let w = want.binary_search(k);
                        if r != w {
                            return Out::Bad(format!("searching {:?} in {:?} gives {:?}", k, want, r));
                        }
                    }
                }
                ok(len > 0)
            });
        }
    }
}

// --------------------------------------------------------------------------------------------
// C21

/// [+-] digits [. digits] [e [+-] digits], at least one digit before the exponent
fn number(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let digits = |i: &mut usize| {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - st
    };
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    s.parse().ok()
}

fn spec(s: &str) -> Option<[f64; 4]> {
    let parts: Vec<&str> = s.split(',').map(|p| p.trim_matches(|c: char| c.is_ascii_whitespace() || c == '\u{b}')).collect();
    if parts.len() != 4 {
        return None;
    }
    let mut v = [0.0; 4];
    for (i, p) in parts.iter().enumerate() {
        v[i] = number(p)?;
    }
    let lon = |x: f64| (-180.0..=180.0).contains(&x);
    let lat = |x: f64| (-90.0..=90.0).contains(&x);
    (lon(v[0]) && lat(v[1]) && lon(v[2]) && lat(v[3])).then_some(v)
}

fn parse(s: &str) -> Result<bool, String> {
    let got = match std::panic::catch_unwind(|| BoundingBox::from_str(s)) {
        Err(p) => return Err(format!("{:?}: panic: {}", s, payload(&p))),
        Ok(r) => r.ok().map(|b| [b.left(), b.bottom(), b.right(), b.top()]),
    };
    let want = spec(s);
    if got != want {
        return Err(format!("{:?}: expected {:?}, got {:?}", s, want, got));
    }
    Ok(want.is_some())
}

fn all(texts: impl Iterator<Item = String>) -> Out {
    let (mut n, mut acc) = (0, 0);
    for t in texts {
        match parse(&t) {
            Err(e) => return Out::Bad(e),
            Ok(a) => {
                n += 1;
                acc += a as usize;
            }
        }
    }
    Out::Ok { nontrivial: true, what: format!("{} texts, {} accepted", n, acc) }
}

fn extent(p: &[(f64, f64)]) -> [f64; 4] {
    let f = |it: &mut dyn Iterator<Item = f64>, max: bool| it.fold(None, |a: Option<f64>, x| Some(a.map_or(x, |a| if (x > a) == max { x } else { a }))).unwrap();
    [f(&mut p.iter().map(|x| x.0), false), f(&mut p.iter().map(|x| x.1), false), f(&mut p.iter().map(|x| x.0), true), f(&mut p.iter().map(|x| x.1), true)]
}

fn sides(b: &BoundingBox) -> [f64; 4] {
    [b.left(), b.bottom(), b.right(), b.top()]
}

pub fn c21(ctx: &mut Ctx) {
    // four fields
    let fields = [
        "0", "1", "-1", "+1", "90", "-90", "90.0", "90.0000001", "-90.0000001", "180", "-180", "180.0", "180.0000001", "-180.0000001", "89.9999999", "1e1", "1.8E2", "9e1", "1e3", "-0", ".5", "5.", "007", "", " ", ".", "-", "e1", "1e", "NaN", "nan", "inf", "-infinity", " 3", "3 ", "\t4\n", "1 0", "- 1", "1_0", "0x1",
        "one", "1;", "\u{ff11}", "1e-400", "1e400", "--1", "1.2.3", "12.3456789012345678", "1f64",
    ];
    for a in fields {
        for b in fields {
            ctx.case(&format!("fields {:?} {:?}", a, b), || all(fields.iter().flat_map(|c| fields.iter().map(move |d| format!("{},{},{},{}", a, b, c, d)))));
        }
    }
    // numbers of fields
    let few = ["1", "", " ", "91", "x"];
    for n in 0..=7u32 {
        ctx.case(&format!("{} fields", n), || all((0..few.len().pow(n)).map(|c| (0..n).map(|i| few[c / few.len().pow(i) % few.len()]).collect::<Vec<_>>().join(","))));
    }
    // white space and separators around one box
    let ws = ["", " ", "\t", "\n", "  ", "\r\n", ";", ",", "\u{b}", "\0"];
    for a in ws {
        for b in ws {
            ctx.case(&format!("separators {:?} {:?}", a, b), || {
                let mut texts = vec![];
                for c in ws {
                    for d in ws {
                        for e in ws {
                            texts.push(format!("{}-1.5{},{}2{}, 3 ,{}4.25", a, b, c, d, e));
                        }
                    }
                    texts.push(format!("{}1{}2{}3{}4{}", a, b, c, a, b));
                }
                all(texts.into_iter())
            });
        }
    }
    // every text over a small alphabet
    let al = ['1', ',', '-', '.', ' ', 'e'];
    let top = if ctx.thorough() { 9u32 } else { 8 };
    for len in 0..=top {
        let n = al.len().pow(len);
        let chunk = 20_000;
        for st in (0..n).step_by(chunk) {
            ctx.case(&format!("texts of {} from {}", len, st), || all((st..(st + chunk).min(n)).map(|c| (0..len).map(|i| al[c / al.len().pow(i) % al.len()]).collect::<String>())));
        }
    }
    // with a box already there
    for st in 0..7usize.pow(3) {
        ctx.case(&format!("texts around a box {}", st), || {
            let t = ["", "1", ",", " ", "-", ".", "e"];
            all((0..343).map(|c| format!("{}1{},2{},3{},4{}", t[c / 49], t[c / 7 % 7], t[c % 7], t[st % 7], t[st / 7 % 7])).chain((0..7).map(|c| format!("1,2,3,4{}{}{}{}", t[st % 7], t[st / 7 % 7], t[st / 49], t[c]))))
        });
    }

    // merging
    let grid = [-180.0, -0.1, 0.0, 0.30000000000000004, 90.0];
    let pts: Vec<(f64, f64)> = grid.iter().flat_map(|x| [-90.0, -1e-9, 0.7, 90.0].iter().map(move |y| (*x, *y))).collect();
    for (i, a) in pts.iter().enumerate() {
        for (j, b) in pts.iter().enumerate() {
            ctx.case(&format!("merging points {} {}", i, j), || {
                for c in &pts {
                    for d in &pts {
                        let mut bb = BoundingBox::from_point(&Coordinate::new(a.1, a.0));
                        for p in [b, c, d] {
                            bb.merge_point(&Coordinate::new(p.1, p.0));
                        }
                        let w = extent(&[*a, *b, *c, *d]);
                        if sides(&bb) != w {
                            return Out::Bad(format!("points {:?}: {:?} instead of {:?}", [a, b, c, d], sides(&bb), w));
                        }
                    }
                }
                ok(true)
            });
        }
    }
    // boxes, including merges of points in between, in every order
    let g = [-2.0, 0.0, 3.5];
    let mut boxes: Vec<[f64; 4]> = vec![];
    for l in 0..3 {
        for r in l..3 {
            for b in 0..3 {
                for t in b..3 {
                    boxes.push([g[l], g[b], g[r], g[t]]);
                }
            }
        }
    }
    let mk = |x: &[f64; 4]| BoundingBox::new(x[0], x[1], x[2], x[3]);
    let corners = |x: &[f64; 4]| [(x[0], x[1]), (x[2], x[3])];
    for (i, a) in boxes.iter().enumerate() {
        for (j, b) in boxes.iter().enumerate() {
            ctx.case(&format!("merging boxes {} {}", i, j), || {
                for c in &boxes {
                    let w = extent(&[corners(a), corners(b), corners(c)].concat());
                    let mut x = mk(a);
                    x.merge_bounding_box(&mk(b));
                    x.merge_bounding_box(&mk(c));
                    let mut inner = mk(b);
                    inner.merge_bounding_box(&mk(c));
                    let mut y = mk(a);
                    y.merge_bounding_box(&inner);
                    let mut z = mk(c);
                    for p in corners(b) {
                        z.merge_point(&Coordinate::new(p.1, p.0));
                    }
                    z.merge_bounding_box(&mk(a));
                    for (n, v) in [("one after the other", &x), ("grouped", &y), ("points first", &z)] {
                        if sides(v) != w {
                            return Out::Bad(format!("{:?} {:?} {:?} {}: {:?} instead of {:?}", a, b, c, n, sides(v), w));
                        }
                    }
                    let again = sides(&x);
                    x.merge_bounding_box(&mk(b));
                    if sides(&x) != again {
                        return Out::Bad(format!("merging {:?} twice changes {:?}", b, again));
                    }
                }
                ok(true)
            });
        }
    }

    // coordinates: every multiple of 1e-7 degree
    let chunk = 9_000_000i64;
    for k in 0..400i64 {
        ctx.case(&format!("coordinates {}", k), || {
            let mut n = 0u64;
            for i in k * chunk..(k + 1) * chunk + (k == 399) as i64 {
                let v = i - 1_800_000_000;
                let c = Coordinate::new(v as f64 / 1e7, v as f64 / 1e7);
                if (-900_000_000..=900_000_000).contains(&v) && c.lat7() != v {
                    return Out::Bad(format!("latitude {}e-7 gives {}", v, c.lat7()));
                }
                if c.lon7() != v {
                    return Out::Bad(format!("longitude {}e-7 gives {}", v, c.lon7()));
                }
                n += 1;
            }
            Out::Ok { nontrivial: true, what: format!("{} coordinates", n) }
        });
    }
    // nanodegrees between them round to the nearest
    for base in [-1_799_999_999i64, -1_234_567_890, -900_000_000, -51_000_001, -3, -1, 0, 1, 2, 77_777_777, 899_999_999, 1_500_000_001, 1_799_999_999] {
        ctx.case(&format!("rounding around {}", base), || {
            for s in -500..500 {
                let v = base + s;
                for nano in -49..=49i64 {
                    let x = (v * 100 + nano) as f64 / 1e9;
                    let c = Coordinate::new(x, x);
                    if c.lat7() != v || c.lon7() != v {
                        return Out::Bad(format!("{} gives {} and {} instead of {}", x, c.lat7(), c.lon7(), v));
                    }
                    if c.lat() != x || c.lon() != x {
                        return Out::Bad(format!("{} comes back as {} and {}", x, c.lat(), c.lon()));
                    }
                }
            }
            ok(true)
        });
    }
    ctx.case("latitude and longitude are kept apart", || {
        for a in -90..=90 {
            for b in -180..=180 {
                let c = Coordinate::new(a as f64, b as f64);
                if c.lat7() != a * 10_000_000 || c.lon7() != b * 10_000_000 || c.lat() != a as f64 || c.lon() != b as f64 {
                    return Out::Bad(format!("{} {}", a, b));
                }
                for d in [-1i64, 0, 1] {
                    let e = Coordinate::new((a + d) as f64, b as f64);
                    let f = Coordinate::new(a as f64, (b + d) as f64);
                    if (c == e) != (d == 0) || (c == f) != (d == 0) {
                        return Out::Bad(format!("equality at {} {} {}", a, b, d));
                    }
                }
            }
        }
        ok(true)
    });
}
