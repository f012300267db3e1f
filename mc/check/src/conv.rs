//! Conversion between the oracle's element model and the library's.
use oracle::model::{El, Kind};
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;

fn tags(e: &El) -> Vec<Tag> {
    e.tags.iter().map(|(k, v)| Tag::new(k.clone(), v.clone())).collect()
}

pub fn to(e: &El) -> Element {
    match e.kind {
        Kind::Node => Element::Node {
            node: Node::new(
                e.id,
                e.version,
                Coordinate::new(e.lat as f64 / 1e9, e.lon as f64 / 1e9),
                e.ts,
                e.cs,
                e.uid,
                e.user.clone(),
                e.visible,
                tags(e),
            ),
        },
        Kind::Way => Element::Way { way: Way::new(e.id, e.version, e.ts, e.cs, e.uid, e.user.clone(), e.visible, e.refs.clone(), tags(e)) },
        Kind::Relation => Element::Relation {
            relation: Relation::new(
                e.id,
                e.version,
                e.ts,
                e.cs,
                e.uid,
                e.user.clone(),
                e.visible,
                e.members
                    .iter()
                    .map(|(k, id, role)| {
                        let member = MemberData::new(*id, role.clone());
                        match k {
                            Kind::Node => Member::Node { member },
                            Kind::Way => Member::Way { member },
                            Kind::Relation => Member::Relation { member },
                        }
                    })
                    .collect(),
                tags(e),
            ),
        },
    }
}

pub fn all(v: &[El]) -> Vec<Element> {
    v.iter().map(to).collect()
}

fn untags(v: &[Tag]) -> Vec<(String, String)> {
    v.iter().map(|t| (t.k().clone(), t.v().clone())).collect()
}

/// None for a sentinel
pub fn from(e: &Element) -> Option<El> {
    Some(match e {
        Element::Node { node: n } => El {
            kind: Kind::Node,
            id: n.id(),
            version: n.version(),
            lat: n.coordinate().lat7() * 100,
            lon: n.coordinate().lon7() * 100,
            ts: n.timestamp(),
            cs: n.changeset(),
            uid: n.uid(),
            user: n.user().clone(),
            visible: n.visible(),
            tags: untags(n.tags()),
            refs: vec![],
            members: vec![],
        },
        Element::Way { way: w } => El {
            kind: Kind::Way,
            id: w.id(),
            version: w.version(),
            lat: 0,
            lon: 0,
            ts: w.timestamp(),
            cs: w.changeset(),
            uid: w.uid(),
            user: w.user().clone(),
            visible: w.visible(),
            tags: untags(w.tags()),
            refs: w.refs().clone(),
            members: vec![],
        },
        Element::Relation { relation: r } => El {
            kind: Kind::Relation,
            id: r.id(),
            version: r.version(),
            lat: 0,
            lon: 0,
            ts: r.timestamp(),
            cs: r.changeset(),
            uid: r.uid(),
            user: r.user().clone(),
            visible: r.visible(),
            tags: untags(r.tags()),
            refs: vec![],
            members: r
                .members()
                .iter()
                .map(|m| match m {
                    Member::Node { member } => (Kind::Node, member.id(), member.role().clone()),
                    Member::Way { member } => (Kind::Way, member.id(), member.role().clone()),
                    Member::Relation { member } => (Kind::Relation, member.id(), member.role().clone()),
                })
                .collect(),
        },
        Element::Sentinel => return None,
    })
}
