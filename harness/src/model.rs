//! Plain, serialisable description of OSM elements, independent of osm-io's types.
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Meta {
    pub id: i64,
    pub version: i32,
    /// milliseconds since the epoch
    pub ts: i64,
    pub changeset: i64,
    pub uid: i32,
    pub user: String,
    pub visible: bool,
    pub tags: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Body {
    /// nanodegrees
    Node { lat: i64, lon: i64 },
    Way { refs: Vec<i64> },
    /// (type 0/1/2, id, role)
    Rel { members: Vec<(u8, i64, String)> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct El {
    pub m: Meta,
    pub b: Body,
}

pub const NANO: f64 = 1_000_000_000f64;

impl El {
    pub fn rank(&self) -> u8 {
        match self.b {
            Body::Node { .. } => 0,
            Body::Way { .. } => 1,
            Body::Rel { .. } => 2,
        }
    }
    pub fn key(&self) -> (u8, i64, i32) {
        (self.rank(), self.m.id, self.m.version)
    }
    pub fn to_lib(&self) -> Element {
        let m = &self.m;
        let tags: Vec<Tag> = m.tags.iter().map(|(k, v)| Tag::new(k.clone(), v.clone())).collect();
        match &self.b {
            Body::Node { lat, lon } => Element::Node {
                node: Node::new(
                    m.id,
                    m.version,
                    Coordinate::new(*lat as f64 / NANO, *lon as f64 / NANO),
                    m.ts,
                    m.changeset,
                    m.uid,
                    m.user.clone(),
                    m.visible,
                    tags,
                ),
            },
            Body::Way { refs } => Element::Way {
                way: Way::new(m.id, m.version, m.ts, m.changeset, m.uid, m.user.clone(), m.visible, refs.clone(), tags),
            },
            Body::Rel { members } => Element::Relation {
                relation: Relation::new(
                    m.id,
                    m.version,
                    m.ts,
                    m.changeset,
                    m.uid,
                    m.user.clone(),
                    m.visible,
                    members
                        .iter()
                        .map(|(t, id, role)| {
                            let member = MemberData::new(*id, role.clone());
                            match t {
                                0 => Member::Node { member },
                                1 => Member::Way { member },
                                _ => Member::Relation { member },
                            }
                        })
                        .collect(),
                    tags,
                ),
            },
        }
    }

    /// Some(reason) if the library element differs from this one. Coordinates must be equal as f64
    /// up to `coord_eps` (0.0 = bit-exact quotient).
    pub fn diff_lib(&self, e: &Element) -> Option<String> {
        let got = match from_lib(e) {
            Ok(g) => g,
            Err(s) => return Some(s),
        };
        if &got.el != self {
            return Some(format!("expected {:?}\n     got {:?}", self, got.el));
        }
        if let Some((lat, lon)) = got.raw {
            if let Body::Node { lat: elat, lon: elon } = self.b {
                let (xlat, xlon) = (elat as f64 / NANO, elon as f64 / NANO);
                if (lat - xlat).abs() > 1e-12 || (lon - xlon).abs() > 1e-12 {
                    return Some(format!("coordinate of {:?}: expected ({xlat:?},{xlon:?}) got ({lat:?},{lon:?})", self.key()));
                }
            }
        }
        None
    }
}

pub struct FromLib {
    pub el: El,
    pub raw: Option<(f64, f64)>,
}

fn tags_of(t: &[Tag]) -> Vec<(String, String)> {
    t.iter().map(|t| (t.k().clone(), t.v().clone())).collect()
}

/// Convert a library element (through its public getters). Sentinel gives Err.
pub fn from_lib(e: &Element) -> Result<FromLib, String> {
    Ok(match e {
        Element::Node { node } => {
            let c = node.coordinate();
            FromLib {
                raw: Some((c.lat(), c.lon())),
                el: El {
                    m: Meta {
                        id: node.id(),
                        version: node.version(),
                        ts: node.timestamp(),
                        changeset: node.changeset(),
                        uid: node.uid(),
                        user: node.user().clone(),
                        visible: node.visible(),
                        tags: tags_of(node.tags()),
                    },
                    b: Body::Node { lat: (c.lat() * NANO).round() as i64, lon: (c.lon() * NANO).round() as i64 },
                },
            }
        }
        Element::Way { way } => FromLib {
            raw: None,
            el: El {
                m: Meta {
                    id: way.id(),
                    version: way.version(),
                    ts: way.timestamp(),
                    changeset: way.changeset(),
                    uid: way.uid(),
                    user: way.user().clone(),
                    visible: way.visible(),
                    tags: tags_of(way.tags()),
                },
                b: Body::Way { refs: way.refs().clone() },
            },
        },
        Element::Relation { relation } => FromLib {
            raw: None,
            el: El {
                m: Meta {
                    id: relation.id(),
                    version: relation.version(),
                    ts: relation.timestamp(),
                    changeset: relation.changeset(),
                    uid: relation.uid(),
                    user: relation.user().clone(),
                    visible: relation.visible(),
                    tags: tags_of(relation.tags()),
                },
                b: Body::Rel {
                    members: relation
                        .members()
                        .iter()
                        .map(|m| match m {
                            Member::Node { member } => (0u8, member.id(), member.role().clone()),
                            Member::Way { member } => (1, member.id(), member.role().clone()),
                            Member::Relation { member } => (2, member.id(), member.role().clone()),
                        })
                        .collect(),
                },
            },
        },
        Element::Sentinel => return Err("sentinel where an element was expected".into()),
    })
}

/// Compare a whole sequence; None if equal.
pub fn diff_seq(expected: &[El], got: &[Element]) -> Option<String> {
    for (i, (e, g)) in expected.iter().zip(got.iter()).enumerate() {
        if let Some(d) = e.diff_lib(g) {
            return Some(format!("element #{i} of {}: {d}", expected.len()));
        }
    }
    if expected.len() != got.len() {
        let extra = if got.len() > expected.len() {
            format!("first extra: {:?}", key_lib(&got[expected.len()]))
        } else {
            format!("first missing: {:?}", expected[got.len()].key())
        };
        return Some(format!("expected {} elements, got {}; {extra}", expected.len(), got.len()));
    }
    None
}

pub fn key_lib(e: &Element) -> (u8, i64, i32) {
    match e {
        Element::Node { node } => (0, node.id(), node.version()),
        Element::Way { way } => (1, way.id(), way.version()),
        Element::Relation { relation } => (2, relation.id(), relation.version()),
        Element::Sentinel => (3, 0, 0),
    }
}

/// Sort tags of each element (for comparisons where tag order is not significant).
pub fn sort_tags(mut els: Vec<El>) -> Vec<El> {
    for e in els.iter_mut() {
        e.m.tags.sort();
    }
    els
}
