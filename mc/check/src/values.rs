//! C36: elements, file infos, bounding boxes and blocks are plain values.
use crate::conv;
use crate::par;
use crate::seq;
use oracle::driver::*;
use oracle::model::*;
use oracle::pbf::{self, Block, Group, Header};
use oracle::scratch::Scratch;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::Relation;
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;

const KINDS: [Kind; 3] = [Kind::Node, Kind::Way, Kind::Relation];

/// what is done with a pool of elements
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    TakeUser(usize),
    TakeTags(usize),
    Clone(usize),
    /// made again from what its accessors say
    Rebuild(usize),
    /// made again from what its accessors say, with the tags and the user taken out of it
    Filter(usize),
    /// made again with the tags taken out of another
    TagsOf(usize, usize),
    /// assigned from another, as by Clone::clone_from
    Assign(usize, usize),
    Swap(usize, usize),
    Sort,
    Drop(usize),
}

const STEPS: [Step; 16] = [
    Step::TakeUser(0),
    Step::TakeTags(0),
    Step::TakeUser(1),
    Step::TakeTags(1),
    Step::Clone(0),
    Step::Clone(1),
    Step::Rebuild(0),
    Step::Filter(0),
    Step::Filter(1),
    Step::TagsOf(0, 1),
    Step::TagsOf(1, 0),
    Step::Assign(1, 0),
    Step::Swap(0, 1),
    Step::Sort,
    Step::Drop(0),
    Step::Drop(1),
];

fn take_user(e: &mut Element) -> String {
    match e {
        Element::Node { node } => node.take_user(),
        Element::Way { way } => way.take_user(),
        Element::Relation { relation } => relation.take_user(),
        Element::Sentinel => unreachable!(),
    }
}

fn take_tags(e: &mut Element) -> Vec<Tag> {
    match e {
        Element::Node { node } => node.take_tags(),
        Element::Way { way } => way.take_tags(),
        Element::Relation { relation } => relation.take_tags(),
        Element::Sentinel => unreachable!(),
    }
}

fn rebuild(e: &Element, user: String, tags: Vec<Tag>) -> Element {
    match e {
        Element::Node { node: n } => Element::Node { node: Node::new(n.id(), n.version(), n.coordinate().clone(), n.timestamp(), n.changeset(), n.uid(), user, n.visible(), tags) },
        Element::Way { way: w } => Element::Way { way: Way::new(w.id(), w.version(), w.timestamp(), w.changeset(), w.uid(), user, w.visible(), w.refs().clone(), tags) },
        Element::Relation { relation: r } => Element::Relation { relation: Relation::new(r.id(), r.version(), r.timestamp(), r.changeset(), r.uid(), user, r.visible(), r.members().clone(), tags) },
        Element::Sentinel => Element::Sentinel,
    }
}

fn untags(v: &[Tag]) -> Vec<(String, String)> {
    v.iter().map(|t| (t.k().clone(), t.v().clone())).collect()
}

fn user_tags(e: &Element) -> (String, Vec<Tag>) {
    match e {
        Element::Node { node: n } => (n.user().clone(), n.tags().clone()),
        Element::Way { way: w } => (w.user().clone(), w.tags().clone()),
        Element::Relation { relation: r } => (r.user().clone(), r.tags().clone()),
        Element::Sentinel => unreachable!(),
    }
}

struct Pool {
    real: Vec<Element>,
    model: Vec<El>,
}

impl Pool {
    fn step(&mut self, s: Step) -> Result<(), String> {
        let n = self.real.len();
        let (r, m) = (&mut self.real, &mut self.model);
        match s {
            Step::TakeUser(i) if i < n => {
                let got = take_user(&mut r[i]);
                let want = std::mem::take(&mut m[i].user);
                if got != want {
                    return Err(format!("take_user gives {:?} instead of {:?}", got, want));
                }
            }
            Step::TakeTags(i) if i < n => {
                let got = untags(&take_tags(&mut r[i]));
                let want = std::mem::take(&mut m[i].tags);
                if got != want {
                    return Err(format!("take_tags gives {:?} instead of {:?}", got, want));
                }
            }
            Step::Clone(i) if i < n && n < 3 => {
                r.push(r[i].clone());
                m.push(m[i].clone());
            }
            Step::Rebuild(i) if i < n => {
                let (u, t) = user_tags(&r[i]);
                r[i] = rebuild(&r[i], u, t);
            }
            Step::Filter(i) if i < n => {
                let (u, t) = (take_user(&mut r[i]), take_tags(&mut r[i]));
                let t = t.into_iter().skip(1).collect();
                r[i] = rebuild(&r[i], u, t);
                if !m[i].tags.is_empty() {
                    m[i].tags.remove(0);
                }
            }
            Step::TagsOf(i, j) if i < n && j < n => {
                let t = take_tags(&mut r[j]);
                let u = user_tags(&r[i]).0;
                r[i] = rebuild(&r[i], u, t);
                m[i].tags = std::mem::take(&mut m[j].tags);
            }
            Step::Assign(i, j) if i < n && j < n => {
                let x = r[j].clone();
                r[i].clone_from(&x);
                m[i] = m[j].clone();
            }
            Step::Swap(i, j) if i < n && j < n => {
                r.swap(i, j);
                m.swap(i, j);
            }
            Step::Sort => {
                r.sort();
                m.sort_by_key(|e| e.key());
            }
            Step::Drop(i) if i < n && n > 1 => {
                r.remove(i);
                m.remove(i);
            }
            _ => {}
        }
        Ok(())
    }

    fn look(&self) -> Result<(), String> {
        for (i, (r, m)) in self.real.iter().zip(&self.model).enumerate() {
            let got = conv::from(r).ok_or("an element has become a sentinel")?;
            if got != *m {
                return Err(format!("element {}: its accessors say {:?} instead of {:?}", i, got, m));
            }
            if (r.is_node(), r.is_way(), r.is_relation(), r.is_sentinel()) != (m.kind == Kind::Node, m.kind == Kind::Way, m.kind == Kind::Relation, false) {
                return Err(format!("element {} says it is of another kind than {:?}", i, m.kind));
            }
            if let Element::Node { node } = r {
                let c = node.coordinate();
                if (c.lat() * 1e9).round() as i64 != m.lat || (c.lon() * 1e9).round() as i64 != m.lon {
                    return Err(format!("element {} is at {:?}", i, c));
                }
            }
            for (s, n) in self.real.iter().zip(&self.model) {
                let c = m.key().cmp(&n.key());
                if r.cmp(s) != c || (r == s) != c.is_eq() || Element::same_type(r, s) != (m.kind == n.kind) {
                    return Err(format!("{:?} and {:?} compare as {:?}, ==: {}", m.key(), n.key(), r.cmp(s), r == s));
                }
            }
        }
        Ok(())
    }

    /// what is written is what the accessors say
    fn written(&self, s: &Scratch, z: bool) -> Result<(), String> {
        let p = s.file("o.osm.pbf");
        let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), seq::compression(z)).map_err(|e| format!("{:#}", e))?;
        w.write_header().map_err(|e| format!("{:#}", e))?;
        // the writer is given clones, which stay as they are
        let mut order: Vec<usize> = (0..self.real.len()).collect();
        order.sort_by_key(|i| self.model[*i].key());
        for i in &order {
            w.write_element(self.real[*i].clone()).map_err(|e| format!("{:#}", e))?;
        }
        w.close().map_err(|e| format!("{:#}", e))?;
        let want: Vec<El> = order.iter().map(|i| self.model[*i].clone()).collect();
        let got = par::decode(&p)?.0.elements();
        diff(&want, &got).map_err(|e| format!("written: {}", e))?;
        self.look().map_err(|e| format!("after writing: {}", e))
    }
}

fn starts(kind: Kind) -> Vec<Vec<El>> {
    let full = |id: i64| {
        let mut e = El::of(kind, id).tag("k", "v").tag("k2", "").tag("", "user");
        e.user = "user".into();
        e.uid = 9;
        e.version = 4;
        e.ts = 1_500_000_000_000;
        e
    };
    let bare = |id: i64| {
        let mut e = El::of(kind, id);
        e.user = String::new();
        e.refs.clear();
        e.members.clear();
        e.visible = false;
        e
    };
    let other = KINDS[(KINDS.iter().position(|k| *k == kind).unwrap() + 1) % 3];
    vec![vec![full(5)], vec![bare(5)], vec![full(5), bare(3)], vec![full(5), full(5)], vec![bare(-5), El::of(other, 5).tag("a", "b")]]
}

fn elements(ctx: &mut Ctx, s: &Scratch) {
    let depth = if ctx.thorough() { 5 } else { 4 };
    for kind in KINDS {
        for (k, start) in starts(kind).into_iter().enumerate() {
            for first in STEPS {
                for second in STEPS {
                    ctx.case(&format!("{:?} {} {:?} {:?}", kind, k, first, second), || {
                        let mut n = 0u64;
                        let mut seqs: Vec<Vec<Step>> = vec![vec![first, second]];
                        while let Some(q) = seqs.pop() {
                            let mut p = Pool { real: conv::all(&start), model: start.clone() };
                            let mut r = p.look();
                            for x in &q {
                                r = r.and_then(|_| p.step(*x)).and_then(|_| p.look());
                            }
                            if q.len() < 3 || ctx_writes(n) {
                                r = r.and_then(|_| p.written(s, n % 2 == 0));
                            }
                            n += 1;
                            if let Err(e) = r {
                                return Out::Bad(format!("{:?} from {} elements: {}", q, start.len(), e));
                            }
                            if q.len() < depth {
                                for x in STEPS {
                                    seqs.push([&q[..], &[x]].concat());
                                }
                            }
                        }
                        Out::Ok { nontrivial: true, what: format!("{} sequences", n) }
                    });
                }
            }
        }
    }
}

/// every eighth of the longer sequences is also written
fn ctx_writes(n: u64) -> bool {
    n % 8 == 0
}

#[derive(Clone, Copy, Debug)]
enum Set {
    Bbox(usize),
    Required(usize),
    Optional(usize),
    Program(usize),
    ProgramStr(usize),
    Source(usize),
    Ts(usize),
    Seq(usize),
    Url(usize),
    /// go on with a clone of it as it was, having changed the original
    Clone,
}

fn apply(i: &mut FileInfo, h: &mut Header, s: Set) {
    let texts = [None, Some(String::new()), Some("x y".to_string())];
    let numbers = [None, Some(0i64), Some(-7)];
    let lists: [Vec<String>; 3] = [vec![], vec!["OsmSchema-V0.6".into()], vec!["DenseNodes".into(), "HistoricalInformation".into(), "OsmSchema-V0.6".into()]];
    let boxes = [None, Some([0i64; 4]), Some([-1_000_000_000i64, 2_500_000_000, 3_000_000_000, -4_000_000_000])];
    match s {
        Set::Bbox(k) => {
            let d = |x: i64| x as f64 / 1e9;
            i.with_bounding_box(&boxes[k].map(|b| BoundingBox::new(d(b[0]), d(b[3]), d(b[1]), d(b[2]))));
            h.bbox = boxes[k];
        }
        Set::Required(k) => {
            i.with_required_features(&lists[k]);
            h.required = lists[k].clone();
        }
        Set::Optional(k) => {
            i.with_optional_features(&lists[k]);
            h.optional = lists[k].clone();
        }
        Set::Program(k) => {
            i.with_writingprogram(&texts[k]);
            h.program = texts[k].clone();
        }
        Set::ProgramStr(k) => {
            let t = ["", "a", "x y"][k];
            i.with_writingprogram_str(t);
            h.program = Some(t.into());
        }
        Set::Source(k) => {
            i.with_source(&texts[k]);
            h.source = texts[k].clone();
        }
        Set::Ts(k) => {
            i.with_osmosis_replication_timestamp(&numbers[k]);
            h.rep_ts = numbers[k];
        }
        Set::Seq(k) => {
            i.with_osmosis_replication_sequence_number(&numbers[k]);
            h.rep_seq = numbers[k];
        }
        Set::Url(k) => {
            i.with_osmosis_replication_base_url(&texts[k]);
            h.rep_url = texts[k].clone();
        }
        Set::Clone => {
            let c = i.clone();
            for x in [Set::Bbox(2), Set::Required(0), Set::Optional(0), Set::ProgramStr(1), Set::Source(1), Set::Ts(1), Set::Seq(1), Set::Url(1)] {
                let mut other = Header::default();
                apply(i, &mut other, x);
            }
            *i = c;
        }
    }
}

fn info_is(i: &FileInfo, h: &Header) -> Result<(), String> {
    let got = seq::uninfo(i);
    if got != *h {
        return Err(format!("its accessors say {:?} instead of {:?}", got, h));
    }
    for f in ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID", "", "Dense", "DenseNodes2", "densenodes", " DenseNodes"] {
        if i.required(f) != h.required.iter().any(|x| x == f) || i.optional(f) != h.optional.iter().any(|x| x == f) {
            return Err(format!("{:?} is required: {}, optional: {}; {:?}", f, i.required(f), i.optional(f), h));
        }
    }
    Ok(())
}

fn infos(ctx: &mut Ctx, s: &Scratch) {
    let mut sets = vec![Set::Clone];
    for k in 0..3 {
        sets.extend([Set::Bbox(k), Set::Required(k), Set::Optional(k), Set::Program(k), Set::ProgramStr(k), Set::Source(k), Set::Ts(k), Set::Seq(k), Set::Url(k)]);
    }
    let default = Header { required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into()], optional: vec!["Sort.Type_then_ID".into()], ..Default::default() };
    let full = Header {
        bbox: Some([1, 2, 3, 4]),
        required: vec!["OsmSchema-V0.6".into()],
        optional: vec!["x".into(), "DenseNodes".into()],
        program: Some("p".into()),
        source: Some("s".into()),
        rep_ts: Some(5),
        rep_seq: Some(6),
        rep_url: Some("u".into()),
    };
    let deep = ctx.thorough();
    for (name, start) in [("default", &default), ("full", &full)] {
        for a in sets.clone() {
            for b in sets.clone() {
                ctx.case(&format!("info {} {:?} {:?}", name, a, b), || {
                    let mut n = 0;
                    for c in std::iter::once(None).chain(sets.iter().copied().map(Some)) {
                        let mut i = if name == "default" { FileInfo::default() } else { seq::info(start) };
                        let mut h = start.clone();
                        let mut r = info_is(&i, &h);
                        for x in [Some(a), Some(b), c].into_iter().flatten() {
                            apply(&mut i, &mut h, x);
                            r = r.and_then(|_| info_is(&i, &h));
                        }
                        if let Err(e) = r {
                            return Out::Bad(format!("then {:?}: {}", c, e));
                        }
                        n += 1;
                        if c.is_none() || deep {
                            let p = s.file("h.osm.pbf");
                            let mut go = || -> Result<(), String> {
                                let mut w = Writer::from_file_info(p.clone(), i.clone(), seq::compression(true)).map_err(|e| format!("{:#}", e))?;
                                // the writer has a value of its own
                                i.with_writingprogram_str("changed later");
                                i.with_required_features(&["changed later".to_string()]);
                                w.write_header().map_err(|e| format!("{:#}", e))?;
                                w.close().map_err(|e| format!("{:#}", e))?;
                                let (d, _) = par::decode(&p)?;
                                if d.header != h {
                                    return Err(format!("written as {:?} instead of {:?}", d.header, h));
                                }
                                let r = Reader::new(&p).map_err(|e| format!("opening: {:#}", e))?;
                                info_is(r.info(), &h)
                            };
                            if let Err(e) = go() {
                                return Out::Bad(format!("then {:?}: {}", c, e));
                            }
                        }
                    }
                    Out::Ok { nontrivial: true, what: format!("{} sequences", n) }
                });
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Look {
    Elements,
    Take,
    Box,
    BoxAgain,
    /// written by a sequential writer, as it is
    Write,
    Bytes,
}

fn blocks(ctx: &mut Ctx, s: &Scratch) {
    let nodes = || vec![El::node(1).tag("a", "b"), El::node(150), El::node(-20)];
    let shapes: Vec<(&str, Block)> = vec![
        ("dense", Block::new(vec![Group::Dense(nodes(), Some(63))])),
        ("nodes", Block::new(vec![Group::Nodes(nodes(), Some(63))])),
        ("ways", Block::new(vec![Group::Ways(vec![El::way(1), El::way(2).tag("a", "b")], Some(63))])),
        ("relations", Block::new(vec![Group::Rels(vec![El::rel(1)], Some(63))])),
        ("mixed", Block::new(vec![Group::Dense(nodes(), Some(63)), Group::Ways(vec![El::way(1)], Some(63))])),
        ("empty", Block::new(vec![])),
    ];
    let looks = [Look::Elements, Look::Take, Look::Box, Look::BoxAgain, Look::Write, Look::Bytes];
    let p = s.file("blocks.osm.pbf");
    let depth = if ctx.thorough() { 6 } else { 4 };
    for (name, b) in &shapes {
        let bytes = pbf::file(&Header::usual(), std::slice::from_ref(b));
        let all: Vec<El> = b.elements().into_iter().map(|x| x.0).collect();
        let mut seqs: Vec<Vec<Look>> = vec![vec![]];
        let mut done = vec![];
        while let Some(q) = seqs.pop() {
            if q.len() < depth {
                for l in looks {
                    seqs.push([&q[..], &[l]].concat());
                }
            }
            done.push(q);
        }
        done.sort_by_key(|q| q.len());
        for q in done {
            ctx.case(&format!("block {} {:?}", name, q), || {
                let go = || -> Result<(), String> {
                    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
                    let r = Reader::new(&p).map_err(|e| format!("{:#}", e))?;
                    let mut it = r.blocks().map_err(|e| format!("{:#}", e))?;
                    it.next();
                    let mut block = it.next().ok_or("there is no block")?;
                    let mut model = all.clone();
                    for l in q {
                        let FileBlock::Data { data, .. } = &mut block else { return Err("no data".into()) };
                        match l {
                            Look::Elements => {
                                let got: Vec<El> = data.elements().iter().filter_map(conv::from).collect();
                                diff(&model, &got)?;
                            }
                            Look::Take => {
                                let got: Vec<El> = data.take_elements().iter().filter_map(conv::from).collect();
                                diff(&std::mem::take(&mut model), &got).map_err(|e| format!("taken: {}", e))?;
                            }
                            Look::Box | Look::BoxAgain => {
                                let got = if matches!(l, Look::Box) { data.compute_bounding_box() } else { data.recompute_bounding_box() };
                                let n = |x: f64| (x * 1e9).round() as i64;
                                let got = got.map(|b| [n(b.left()), n(b.bottom()), n(b.right()), n(b.top())]);
                                let want = model.iter().filter(|e| e.kind == Kind::Node).fold(None, |a: Option<[i64; 4]>, e| match a {
                                    None => Some([e.lon, e.lat, e.lon, e.lat]),
                                    Some([l, b, r, t]) => Some([l.min(e.lon), b.min(e.lat), r.max(e.lon), t.max(e.lat)]),
                                });
                                if got != want {
                                    return Err(format!("bounding box {:?} instead of {:?}", got, want));
                                }
                            }
                            Look::Bytes => {
                                let a = data.serialize().map_err(|e| format!("{:#}", e))?;
                                let b = data.serialize().map_err(|e| format!("{:#}", e))?;
                                if a != b {
                                    return Err("serialized twice it gives different bytes".into());
                                }
                            }
                            Look::Write => {
                                let o = s.file("o.osm.pbf");
                                let copy = FileBlock::Data { metadata: match &block { FileBlock::Data { metadata, .. } => metadata.clone(), _ => unreachable!() }, data: Default::default() };
                                let again = std::mem::replace(&mut block, copy);
                                let mut w = Writer::from_file_info(o.clone(), FileInfo::default(), seq::compression(true)).map_err(|e| format!("{:#}", e))?;
                                w.write_header().map_err(|e| format!("{:#}", e))?;
                                w.write_file_block(again).map_err(|e| format!("{:#}", e))?;
                                w.close().map_err(|e| format!("{:#}", e))?;
                                drop(w);
                                let r = Reader::new(&o).map_err(|e| format!("{:#}", e))?;
                                let mut it = r.blocks().map_err(|e| format!("{:#}", e))?;
                                it.next();
                                // and go on with what comes back
                                block = it.next().ok_or("the written block is not there")?;
                                model.sort_by_key(|e| e.kind);
                            }
                        }
                    }
                    let FileBlock::Data { data, .. } = &mut block else { return Err("no data".into()) };
                    let got: Vec<El> = data.elements().iter().filter_map(conv::from).collect();
                    diff(&model, &got).map_err(|e| format!("at last: {}", e))
                };
                match go() {
                    Ok(()) => Out::Ok { nontrivial: true, what: format!("{} elements", all.len()) },
                    Err(e) => Out::Bad(e),
                }
            });
        }
    }
}

/// the boxes of blocks with nodes at all combinations of places
fn block_boxes(ctx: &mut Ctx, s: &Scratch) {
    const G: i64 = 1_000_000_000;
    let places: [(i64, i64); 9] =
        [(0, 0), (90 * G, 180 * G), (-90 * G, -180 * G), (-90 * G, 180 * G), (-89 * G, 179 * G), (50 * G + 100, 10 * G + 300), (50 * G + 200, 10 * G + 200), (-100, 100), (-12_345_678_900, -123_456_789_000)];
    let p = s.file("blocks.osm.pbf");
    for shape in ["a", "ab", "aw", "wab", "abc", "rabwc"] {
        let k = shape.chars().filter(|c| c.is_ascii_lowercase() && *c < 'd').count();
        for n in 0..9usize.pow(k as u32) {
            let at: Vec<(i64, i64)> = (0..k).map(|i| places[n / 9usize.pow(i as u32) % 9]).collect();
            ctx.case(&format!("boxes of a block {} {:?}", shape, at), || {
                let groups = shape
                    .chars()
                    .enumerate()
                    .map(|(i, c)| match c {
                        'w' => Group::Ways(vec![El::way(1)], Some(63)),
                        'r' => Group::Rels(vec![El::rel(1)], Some(63)),
                        c => {
                            let mut e = El::node(i as i64 + 1);
                            (e.lat, e.lon) = at[c as usize - 'a' as usize];
                            if i % 2 == 0 { Group::Dense(vec![e], Some(63)) } else { Group::Nodes(vec![e], Some(63)) }
                        }
                    })
                    .collect();
                std::fs::write(&p, pbf::file(&Header::usual(), &[Block::new(groups)])).unwrap();
                let go = || -> Result<(), String> {
                    let r = Reader::new(&p).map_err(|e| format!("{:#}", e))?;
                    let block = r.blocks().map_err(|e| format!("{:#}", e))?.nth(1).ok_or("there is no block")?;
                    let FileBlock::Data { data, .. } = block else { return Err("no data".into()) };
                    let nano = |x: f64| (x * 1e9).round() as i64;
                    let (lats, lons) = (at.iter().map(|a| a.0), at.iter().map(|a| a.1));
                    let want = Some([lons.clone().min().unwrap(), lats.clone().min().unwrap(), lons.max().unwrap(), lats.max().unwrap()]);
                    for got in [data.compute_bounding_box(), data.recompute_bounding_box()] {
                        let got = got.map(|b| [nano(b.left()), nano(b.bottom()), nano(b.right()), nano(b.top())]);
                        if got != want {
                            return Err(format!("bounding box {:?} instead of {:?}", got, want));
                        }
                    }
                    Ok(())
                };
                match go() {
                    Ok(()) => Out::Ok { nontrivial: true, what: "same".into() },
                    Err(e) => Out::Bad(e),
                }
            });
        }
    }
}

/// what values are before anything was set: the box of the whole world, a block of no elements
fn defaults(ctx: &mut Ctx) {
    ctx.case("default box", || {
        let b = BoundingBox::default();
        match [b.left(), b.bottom(), b.right(), b.top()] {
            [-180.0, -90.0, 180.0, 90.0] => Out::Ok { nontrivial: true, what: "the whole world".into() },
            other => Out::Bad(format!("the default box is {:?} instead of the whole world", other)),
        }
    });
    ctx.case("default block", || match FileBlock::default() {
        FileBlock::Data { data, .. } if data.elements().is_empty() && data.compute_bounding_box().is_none() => Out::Ok { nontrivial: true, what: "no elements".into() },
        other => Out::Bad(format!("the default block is {:?}", other)),
    });
}

/// coordinates and boxes: what one is made with, and what merging does to it and to nothing else
fn boxes(ctx: &mut Ctx) {
    let values = [-180.0f64, -90.5, -1e-7, 0.0, 1e-7, 45.25, 90.0, 179.9999999];
    for a in values {
        for b in values {
            ctx.case(&format!("box {} {}", a, b), || {
                for c in values {
                    for d in values {
                        let p = Coordinate::new(c, d);
                        if (p.lat(), p.lon()) != (c, d) {
                            return Out::Bad(format!("Coordinate::new({}, {}) is {:?}", c, d, p));
                        }
                        let x = BoundingBox::new(a, b, c, d);
                        let is = |x: &BoundingBox| [x.left(), x.bottom(), x.right(), x.top()];
                        if is(&x) != [a, b, c, d] {
                            return Out::Bad(format!("BoundingBox::new({}, {}, {}, {}) is {:?}", a, b, c, d, is(&x)));
                        }
                        let y = BoundingBox::from_point(&p);
                        if is(&y) != [d, c, d, c] {
                            return Out::Bad(format!("the box of {:?} is {:?}", p, is(&y)));
                        }
                        if a > c || b > d {
                            continue;
                        }
                        let mut z = x.clone();
                        z.merge_point(&Coordinate::new(45.25, -90.5));
                        z.merge_bounding_box(&y);
                        let want = [a.min(-90.5).min(d), b.min(45.25).min(c), c.max(-90.5).max(d), d.max(45.25).max(c)];
                        if is(&z) != want || is(&x) != [a, b, c, d] || is(&y) != [d, c, d, c] {
                            return Out::Bad(format!("{:?} with {:?} and a point becomes {:?} instead of {:?}, the original {:?}", [a, b, c, d], [d, c, d, c], is(&z), want, is(&x)));
                        }
                    }
                }
                Out::Ok { nontrivial: true, what: "64 boxes".into() }
            });
        }
    }
}

pub fn c36(ctx: &mut Ctx) {
    let s = Scratch::new();
    elements(ctx, &s);
    infos(ctx, &s);
    blocks(ctx, &s);
    block_boxes(ctx, &s);
    boxes(ctx);
    defaults(ctx);
}
