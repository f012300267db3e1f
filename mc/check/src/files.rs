//! Input files: layouts of blocks and groups, and damaged blocks.
use oracle::model::{El, Kind};
use oracle::pbf::{self, Block, Body, Group, Header, ALL, W};

/// Blocks separated by '|', groups by ',', one letter per element: n (dense), N (plain node), w, r.
/// A group or block without letters is empty. Identifiers count up over the file.
pub fn blocks(layout: &str) -> Vec<Block> {
    let mut id = 0;
    layout
        .split('|')
        .map(|b| {
            let groups = b
                .split(',')
                .map(|g| {
                    let v: Vec<El> = g
                        .chars()
                        .map(|c| {
                            id += 1;
                            let k = match c {
                                'n' | 'N' => Kind::Node,
                                'w' => Kind::Way,
                                _ => Kind::Relation,
                            };
                            El::of(k, id).tag("k", &format!("v{}", id))
                        })
                        .collect();
                    assert!(g.chars().all(|c| g.starts_with(c)), "mixed group {}", g);
                    match g.chars().next() {
                        None => Group::Empty,
                        Some('n') => Group::Dense(v, Some(ALL)),
                        Some('N') => Group::Nodes(v, Some(ALL)),
                        Some('w') => Group::Ways(v, Some(ALL)),
                        _ => Group::Rels(v, Some(ALL)),
                    }
                })
                .collect();
            Block::new(groups)
        })
        .collect()
}

pub fn elements(b: &[Block]) -> Vec<El> {
    b.iter().flat_map(|b| b.elements().into_iter().map(|x| x.0)).collect()
}

pub fn file(layout: &str) -> Vec<u8> {
    pbf::file(&Header::usual(), &blocks(layout))
}

pub fn blobs(layout: &str) -> Vec<Vec<u8>> {
    blocks(layout).iter().map(pbf::data_blob).collect()
}

/// Kinds of damage that make a data block unreadable while its framing stays intact.
pub const DAMAGE: [&str; 34] = [
    "compressed data is garbage",
    "compressed data cut short",
    "compressed data with a wrong checksum",
    "declared size too small",
    "declared size too large",
    "block is not a message",
    "blob without data",
    "blob is not a message",
    "blob with an unsupported compression",
    "tag key beyond the string table",
    "tag value beyond the string table",
    "user beyond the string table",
    "more keys than values",
    "fewer latitudes than nodes",
    "fewer longitudes than nodes",
    "dense tag key without a value",
    "fewer member roles than members",
    "fewer member types than members",
    "role beyond the string table",
    "fewer versions than dense nodes",
    "unknown member type",
    "negative member type",
    "dense tag key beyond the string table",
    "dense tag value beyond the string table",
    "dense user beyond the string table",
    "negative dense user",
    "relation user beyond the string table",
    "relation tag beyond the string table",
    "relation with more keys than values",
    "plain node tag beyond the string table",
    "plain node user beyond the string table",
    "plain node with more keys than values",
    "fewer timestamps than dense nodes",
    "string of the string table is not text",
];

fn prim(strings: &[&str], group: W) -> Vec<u8> {
    let mut st = W::new();
    for s in strings {
        st.bytes(1, s.as_bytes());
    }
    let mut w = W::new();
    w.msg(1, &st);
    w.msg(2, &group);
    w.0
}

fn packed(v: &[u64]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        pbf::varint(*x, &mut b);
    }
    b
}

fn raw(data: &[u8]) -> Vec<u8> {
    pbf::blob("OSMData", &pbf::blob_body(data, Body::Raw, 0), None, false)
}

/// A blob with damage of this kind
pub fn damaged(kind: usize) -> Vec<u8> {
    let good = Block::dense((1..5).map(|i| El::node(900 + i).tag("key", "value")).collect());
    let data = pbf::primitive_block(&good);
    let z = pbf::zlib(&data, 6);
    let zblob = |size: Option<i64>, z: &[u8]| {
        let mut w = W::new();
        if let Some(s) = size {
            w.int(2, s);
        }
        w.bytes(3, z);
        pbf::blob("OSMData", &w.0, None, false)
    };
    let n = data.len() as i64;
    let way = |keys: &[u64], vals: &[u64]| {
        let mut w = W::new();
        w.int(1, 900);
        w.bytes(2, &packed(keys));
        w.bytes(3, &packed(vals));
        let mut g = W::new();
        g.msg(3, &w);
        raw(&prim(&["", "k", "v"], g))
    };
    let dense = |ids: usize, lats: usize, lons: usize, kv: &[u64], versions: Option<usize>| {
        let one = |n| packed(&vec![2; n]);
        let mut d = W::new();
        d.bytes(1, &one(ids));
        if let Some(v) = versions {
            let mut i = W::new();
            i.bytes(1, &packed(&vec![1; v]));
            i.bytes(2, &one(ids));
            i.bytes(3, &one(ids));
            i.bytes(4, &one(ids));
            i.bytes(5, &packed(&vec![0; ids]));
            d.msg(5, &i);
        }
        d.bytes(8, &one(lats));
        d.bytes(9, &one(lons));
        if !kv.is_empty() {
            d.bytes(10, &packed(kv));
        }
        let mut g = W::new();
        g.msg(2, &d);
        raw(&prim(&["", "k", "v"], g))
    };
    let rel = |roles: &[u64], members: usize, types: usize| {
        let mut r = W::new();
        r.int(1, 900);
        r.bytes(8, &packed(roles));
        r.bytes(9, &packed(&vec![2; members]));
        r.bytes(10, &packed(&vec![1; types]));
        let mut g = W::new();
        g.msg(4, &r);
        raw(&prim(&["", "k", "v"], g))
    };
    let info = |user: Option<u64>| {
        let mut i = W::new();
        i.int(1, 1);
        if let Some(u) = user {
            i.int(5, u as i64);
        }
        i
    };
    // members of these types, tags; a value of u64::MAX is left out
    let rel_of = |types: &[u64], tags: &[(u64, u64)], user: Option<u64>| {
        let mut r = W::new();
        r.int(1, 900);
        r.bytes(2, &packed(&tags.iter().map(|t| t.0).collect::<Vec<_>>()));
        r.bytes(3, &packed(&tags.iter().map(|t| t.1).filter(|v| *v != u64::MAX).collect::<Vec<_>>()));
        r.msg(4, &info(user));
        r.bytes(8, &packed(&vec![1; types.len()]));
        r.bytes(9, &packed(&vec![2; types.len()]));
        r.bytes(10, &packed(types));
        let mut g = W::new();
        g.msg(4, &r);
        raw(&prim(&["", "k", "v"], g))
    };
    let plain = |keys: &[u64], vals: &[u64], user: Option<u64>| {
        let mut r = W::new();
        r.int(1, 1800);
        r.bytes(2, &packed(keys));
        r.bytes(3, &packed(vals));
        r.msg(4, &info(user));
        r.int(8, 200);
        r.int(9, 200);
        let mut g = W::new();
        g.msg(1, &r);
        raw(&prim(&["", "k", "v"], g))
    };
    let dense_info = |users: &[u64], times: usize| {
        let n = users.len();
        let one = |n| packed(&vec![2; n]);
        let mut d = W::new();
        d.bytes(1, &one(n));
        let mut i = W::new();
        i.bytes(1, &packed(&vec![1; n]));
        i.bytes(2, &one(times));
        i.bytes(3, &one(n));
        i.bytes(4, &one(n));
        i.bytes(5, &packed(users));
        d.msg(5, &i);
        d.bytes(8, &one(n));
        d.bytes(9, &one(n));
        let mut g = W::new();
        g.msg(2, &d);
        raw(&prim(&["", "k", "v"], g))
    };
    match kind {
        0 => zblob(Some(n), &[0x55; 40]),
        1 => zblob(Some(n), &z[..z.len() / 2]),
        2 => {
            let mut y = z.clone();
            *y.last_mut().unwrap() ^= 1;
            zblob(Some(n), &y)
        }
        3 => zblob(Some(n - 1), &z),
        4 => zblob(Some(n + 1), &z),
        5 => raw(&[0xff; 24]),
        6 => pbf::blob("OSMData", &[], None, false),
        7 => pbf::blob("OSMData", &[0xff; 24], None, false),
        8 => {
            let mut w = W::new();
            w.int(2, n);
            w.bytes(4, &z);
            pbf::blob("OSMData", &w.0, None, false)
        }
        9 => way(&[7], &[2]),
        10 => way(&[1], &[7]),
        11 => {
            let mut i = W::new();
            i.int(1, 1);
            i.int(5, 9);
            let mut w = W::new();
            w.int(1, 900);
            w.msg(4, &i);
            let mut g = W::new();
            g.msg(3, &w);
            raw(&prim(&["", "k", "v"], g))
        }
        12 => way(&[1, 2], &[2]),
        13 => dense(3, 2, 3, &[], None),
        14 => dense(3, 3, 2, &[], None),
        15 => dense(2, 2, 2, &[1, 2, 0, 1], None),
        16 => rel(&[1, 2], 3, 3),
        17 => rel(&[1, 2, 2], 3, 2),
        18 => rel(&[1, 9], 2, 2),
        19 => dense(3, 3, 3, &[], Some(2)),
        20 => rel_of(&[0, 3], &[], None),
        21 => rel_of(&[0, u64::MAX], &[], None),
        22 => dense(2, 2, 2, &[1, 2, 0, 7, 1, 0], None),
        23 => dense(2, 2, 2, &[1, 7, 0, 0], None),
        24 => dense_info(&[0, 2 * 7, 0], 3),
        25 => dense_info(&[0, 1, 0], 3),
        26 => rel_of(&[0, 1], &[], Some(9)),
        27 => rel_of(&[0, 1], &[(1, 2), (2, 9)], None),
        28 => rel_of(&[0, 1], &[(1, 2), (2, u64::MAX)], None),
        29 => plain(&[1, 9], &[2, 2], None),
        30 => plain(&[1], &[2], Some(9)),
        31 => plain(&[1, 2], &[2], None),
        32 => dense_info(&[0, 0, 0], 2),
        _ => {
            let mut st = W::new();
            for s in [&b""[..], b"k", &[0xff, 0xfe]] {
                st.bytes(1, s);
            }
            let mut w = W::new();
            w.int(1, 900);
            w.bytes(2, &packed(&[1]));
            w.bytes(3, &packed(&[2]));
            let mut g = W::new();
            g.msg(3, &w);
            let mut b = W::new();
            b.msg(1, &st);
            b.msg(2, &g);
            raw(&b.0)
        }
    }
}

/// The file of a layout with the given damaged blobs put before data block number `at`.
pub fn with_blob(layout: &str, at: usize, blob: &[u8]) -> Vec<u8> {
    let mut out = pbf::header_blob(&Header::usual());
    let b = blobs(layout);
    for (i, x) in b.iter().enumerate() {
        if i == at {
            out.extend_from_slice(blob);
        }
        out.extend_from_slice(x);
    }
    if at >= b.len() {
        out.extend_from_slice(blob);
    }
    out
}
