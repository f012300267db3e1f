//! Plain element model, independent of the code under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Node,
    Way,
    Relation,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct El {
    pub kind: Kind,
    pub id: i64,
    pub version: i32,
    /// nanodegrees
    pub lat: i64,
    pub lon: i64,
    /// milliseconds
    pub ts: i64,
    pub cs: i64,
    pub uid: i32,
    pub user: String,
    pub visible: bool,
    pub tags: Vec<(String, String)>,
    pub refs: Vec<i64>,
    pub members: Vec<(Kind, i64, String)>,
}

impl El {
    fn base(kind: Kind, id: i64) -> El {
        El {
            kind,
            id,
            version: 1,
            lat: 0,
            lon: 0,
            ts: 1_600_000_000_000,
            cs: 7,
            uid: 3,
            user: "u".to_string(),
            visible: true,
            tags: vec![],
            refs: vec![],
            members: vec![],
        }
    }
    pub fn node(id: i64) -> El {
        let mut e = El::base(Kind::Node, id);
        e.lat = (id % 800) * 100_000_000 + id % 97 * 100;
        e.lon = -((id % 1700) * 100_000_000) + id % 89 * 100;
        e
    }
    pub fn way(id: i64) -> El {
        let mut e = El::base(Kind::Way, id);
        e.refs = vec![id, id + 2, id - 1];
        e
    }
    pub fn rel(id: i64) -> El {
        let mut e = El::base(Kind::Relation, id);
        e.members = vec![(Kind::Way, id, "outer".into()), (Kind::Node, id + 5, String::new()), (Kind::Relation, id - 3, "x".into())];
        e
    }
    pub fn of(kind: Kind, id: i64) -> El {
        match kind {
            Kind::Node => El::node(id),
            Kind::Way => El::way(id),
            Kind::Relation => El::rel(id),
        }
    }
    pub fn v(mut self, version: i32) -> El {
        self.version = version;
        self
    }
    pub fn tag(mut self, k: &str, v: &str) -> El {
        self.tags.push((k.into(), v.into()));
        self
    }
    pub fn key(&self) -> (Kind, i64, i32) {
        (self.kind, self.id, self.version)
    }
    pub fn brief(&self) -> String {
        format!("{}{}v{}", match self.kind { Kind::Node => "n", Kind::Way => "w", Kind::Relation => "r" }, self.id, self.version)
    }
}

/// First difference between two element sequences.
pub fn diff(expected: &[El], got: &[El]) -> Result<(), String> {
    for (i, (a, b)) in expected.iter().zip(got.iter()).enumerate() {
        if a != b {
            return Err(format!("element {}: expected {:?} got {:?}", i, a, b).chars().take(1500).collect());
        }
    }
    if expected.len() != got.len() {
        let e = expected.get(got.len()).or(got.get(expected.len())).unwrap();
        return Err(format!("expected {} elements, got {} (first beyond the common part: {})", expected.len(), got.len(), e.brief()));
    }
    Ok(())
}

/// Values as a file format with whole seconds and 1e-7 degree keeps them.
pub fn quantised(e: &El) -> El {
    let mut e = e.clone();
    e.ts = e.ts.div_euclid(1000) * 1000;
    let q = |x: i64| (x + if x >= 0 { 50 } else { -50 }) / 100 * 100;
    e.lat = q(e.lat);
    e.lon = q(e.lon);
    e
}
