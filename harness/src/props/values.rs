//! Elements, their parts and header information hold what they are given.
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::pbf::file_info::FileInfo;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// with a coordinate of these bits, if a node
    New(El, u64, u64),
    Clone(u8),
    Drop(u8),
    Tags(u8),
    User(u8),
    /// to another thread and back
    Send(u8),
    Info(Info),
    DefaultInfo,
    CloneInfo(u8),
    /// a field like that of another one
    Field(u8, u8, u8),
    BoundingBox(u8, [u64; 4]),
    Compare(u8, u8),
}

/// What an element has to hold, with the bits of a coordinate.
type Held = (El, Option<(u64, u64)>);

fn holds(want: &Held, e: &Element) -> R {
    let got = from_lib(e)?;
    // rounding aside
    let (mut a, mut b) = (want.0.clone(), got.el);
    if let (Body::Node { .. }, Body::Node { .. }) = (&a.b, &b.b) {
        a.b = Body::Node { lat: 0, lon: 0 };
        b.b = Body::Node { lat: 0, lon: 0 };
    }
    if a != b {
        return Err(format!("expected {a:?}\n     got {b:?}"));
    }
    let bits = got.raw.map(|(lat, lon)| (lat.to_bits(), lon.to_bits()));
    if bits != want.1 {
        return Err(format!("{:?}: expected coordinate {:?}, got {:?}", a.key(), want.1.map(|c| (f64::from_bits(c.0), f64::from_bits(c.1))), got.raw));
    }
    let r = want.0.rank();
    if [e.is_node(), e.is_way(), e.is_relation(), e.is_sentinel()] != [r == 0, r == 1, r == 2, false] {
        return Err(format!("{:?}: is_node, is_way, is_relation, is_sentinel", a.key()));
    }
    Ok(())
}

/// Header information, and the bits of its bounding box.
type HeldInfo = (Info, Option<[u64; 4]>);

fn holds_info(want: &HeldInfo, i: &FileInfo) -> R {
    let mut x = want.0.clone();
    x.bbox = None;
    let mut y = i.clone();
    y.with_bounding_box(&None);
    if let Some(d) = x.diff(&y) {
        return Err(d);
    }
    let got = i.bounding_box().as_ref().map(|b| [b.left(), b.bottom(), b.right(), b.top()].map(f64::to_bits));
    if got != want.1 {
        return Err(format!("bounding box (left, bottom, right, top): expected {:?}, got {:?}", want.1.map(|b| b.map(f64::from_bits)), got.map(|b| b.map(f64::from_bits))));
    }
    let listed: Vec<&str> = want.0.required.iter().chain(&want.0.optional).map(String::as_str).chain(SUPPORTED).collect();
    let mut asked: Vec<String> = vec!["".into(), "no such feature".into()];
    for f in listed {
        let end = f.char_indices().last().map_or(0, |c| c.0);
        asked.extend([f.to_string(), format!("{f} "), format!(" {f}"), f.trim().to_string(), f.to_lowercase(), f.to_uppercase(), f[..end].to_string(), format!("{f}x"), f.chars().skip(1).collect()]);
    }
    for f in &asked {
        if i.required(f) != want.0.required.contains(f) || i.optional(f) != want.0.optional.contains(f) {
            return Err(format!("required({f:?}) = {}, optional({f:?}) = {} for {:?} and {:?}", i.required(f), i.optional(f), want.0.required, want.0.optional));
        }
    }
    Ok(())
}

fn real() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => (-1_800_000_000i64..=1_800_000_000).prop_map(|v| (v as f64 / 1e7).to_bits()),
        2 => (-180.0f64..180.0).prop_map(f64::to_bits),
        1 => prop::sample::select(vec![0.0f64, -0.0, 90.0, -90.0, 180.0, -180.0, f64::MIN_POSITIVE, 5e-324, 1e-7, 0.1, 89.99999999999999]).prop_map(f64::to_bits),
    ]
    .boxed()
}

pub struct C38;
impl Prop for C38 {
    type Case = Vec<Step>;
    const ID: &'static str = "C38";
    const RULE: &'static str = "Histories of up to 40 steps on a pool of elements and of header information: making, cloning, dropping, taking tags or the user name out, sending to another thread, setting single fields, comparing tags and members. Oracle: a model of each value, compared with all accessors of all values after every step, coordinates and boxes to the bit. Non-trivial: at least four steps that change or copy something.";
    const ASSUMPTIONS: &'static [&'static str] = &["coordinates are finite"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 8_000 } else { 200_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<Step>> {
        let dom = prop_oneof![Just(Dom::Pbf), Just(Dom::Db)];
        let step = prop_oneof![
            5 => (dom.prop_flat_map(element), real(), real()).prop_map(|(e, a, b)| Step::New(e, a, b)),
            3 => any::<u8>().prop_map(Step::Clone),
            1 => any::<u8>().prop_map(Step::Drop),
            3 => any::<u8>().prop_map(Step::Tags),
            3 => any::<u8>().prop_map(Step::User),
            1 => any::<u8>().prop_map(Step::Send),
            3 => info().prop_map(Step::Info),
            1 => Just(Step::DefaultInfo),
            2 => any::<u8>().prop_map(Step::CloneInfo),
            5 => (any::<u8>(), any::<u8>(), 0u8..10).prop_map(|(a, b, f)| Step::Field(a, b, f)),
            1 => (any::<u8>(), [real(), real(), real(), real()]).prop_map(|(a, b)| Step::BoundingBox(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::Compare(a, b)),
        ];
        prop::collection::vec(step, 1..40).boxed()
    }
    fn run(c: &Vec<Step>, ctx: &mut Ctx) -> R {
        let mut els: Vec<(Held, Element)> = vec![];
        let mut infos: Vec<(HeldInfo, FileInfo)> = vec![];
        let mut done = 0;
        for (k, s) in c.iter().enumerate() {
            let at = |i: &u8, len: usize| if len == 0 { None } else { Some(*i as usize % len) };
            let mut changed = true;
            match s {
                Step::New(e, lat, lon) => {
                    let mut lib = e.to_lib();
                    let mut bits = None;
                    if let Element::Node { node: n } = &lib {
                        let c = Coordinate::new(f64::from_bits(*lat), f64::from_bits(*lon));
                        let n = Node::new(n.id(), n.version(), c, n.timestamp(), n.changeset(), n.uid(), n.user().clone(), n.visible(), n.tags().clone());
                        lib = Element::Node { node: n };
                        bits = Some((*lat, *lon));
                    }
                    els.push(((e.clone(), bits), lib));
                }
                Step::Clone(i) => match at(i, els.len()) {
                    Some(i) => els.push(els[i].clone()),
                    None => changed = false,
                },
                Step::Drop(i) => match at(i, els.len()) {
                    Some(i) => drop(els.swap_remove(i)),
                    None => changed = false,
                },
                Step::Tags(i) => match at(i, els.len()) {
                    Some(i) => {
                        let (held, e) = &mut els[i];
                        let got = match e {
                            Element::Node { node } => node.take_tags(),
                            Element::Way { way } => way.take_tags(),
                            Element::Relation { relation } => relation.take_tags(),
                            Element::Sentinel => vec![],
                        };
                        let got: Vec<(String, String)> = got.iter().map(|t| (t.k().clone(), t.v().clone())).collect();
                        let want = std::mem::take(&mut held.0.m.tags);
                        if got != want {
                            return Err(format!("step {k}: {got:?} taken, tags were {want:?}"));
                        }
                    }
                    None => changed = false,
                },
                Step::User(i) => match at(i, els.len()) {
                    Some(i) => {
                        let (held, e) = &mut els[i];
                        let got = match e {
                            Element::Node { node } => node.take_user(),
                            Element::Way { way } => way.take_user(),
                            Element::Relation { relation } => relation.take_user(),
                            Element::Sentinel => String::new(),
                        };
                        let want = std::mem::take(&mut held.0.m.user);
                        if got != want {
                            return Err(format!("step {k}: {got:?} taken, user was {want:?}"));
                        }
                    }
                    None => changed = false,
                },
                Step::Send(i) => match at(i, els.len()) {
                    Some(i) => {
                        let (held, e) = els.swap_remove(i);
                        let e = std::thread::spawn(move || e).join().map_err(|_| "thread")?;
                        els.push((held, e));
                    }
                    None => changed = false,
                },
                Step::Info(i) => infos.push(((i.clone(), i.bbox.map(|b| b.map(|v| (v as f64 / NANO).to_bits()))), i.to_lib())),
                Step::DefaultInfo => {
                    let want = Info { program: None, ..Info::basic() };
                    infos.push(((want, None), FileInfo::default()));
                }
                Step::CloneInfo(i) => match at(i, infos.len()) {
                    Some(i) => infos.push(infos[i].clone()),
                    None => changed = false,
                },
                Step::Field(i, j, f) => match (at(i, infos.len()), at(j, infos.len())) {
                    (Some(i), Some(j)) => {
                        let (want, lib) = infos[j].clone();
                        let (held, x) = &mut infos[i];
                        match f {
                            0 => (x.with_bounding_box(lib.bounding_box()), held.1 = want.1).0,
                            1 => (x.with_required_features(lib.required_features()), held.0.required = want.0.required).0,
                            2 => (x.with_optional_features(lib.optional_features()), held.0.optional = want.0.optional).0,
                            3 => (x.with_writingprogram(lib.writingprogram()), held.0.program = want.0.program).0,
                            4 => (x.with_writingprogram_str(lib.source().as_deref().unwrap_or("")), held.0.program = Some(want.0.source.unwrap_or_default())).0,
                            5 => (x.with_source(lib.source()), held.0.source = want.0.source).0,
                            6 => (x.with_osmosis_replication_timestamp(lib.osmosis_replication_timestamp()), held.0.ts = want.0.ts).0,
                            7 => (x.with_osmosis_replication_sequence_number(lib.osmosis_replication_sequence_number()), held.0.seq = want.0.seq).0,
                            8 => (x.with_osmosis_replication_base_url(lib.osmosis_replication_base_url()), held.0.url = want.0.url).0,
                            _ => (x.with_bounding_box(&None), held.1 = None).0,
                        }
                    }
                    _ => changed = false,
                },
                Step::BoundingBox(i, b) => match at(i, infos.len()) {
                    Some(i) => {
                        let f = b.map(f64::from_bits);
                        infos[i].1.with_bounding_box(&Some(BoundingBox::new(f[0], f[1], f[2], f[3])));
                        infos[i].0 .1 = Some(*b);
                    }
                    None => changed = false,
                },
                Step::Compare(i, j) => {
                    changed = false;
                    if let (Some(i), Some(j)) = (at(i, els.len()), at(j, els.len())) {
                        let (a, b) = (&els[i].0 .0, &els[j].0 .0);
                        if Element::same_type(&els[i].1, &els[j].1) != (a.rank() == b.rank()) {
                            return Err(format!("same_type of types {} and {}", a.rank(), b.rank()));
                        }
                        for (x, y) in a.m.tags.iter().flat_map(|x| b.m.tags.iter().map(move |y| (x, y))).take(100) {
                            // with keys and values exchanged as well
                            for (x, y) in [(x.clone(), y.clone()), ((x.0.clone(), y.1.clone()), y.clone()), (x.clone(), (x.0.clone(), y.1.clone())), ((x.1.clone(), x.0.clone()), x.clone())] {
                                let eq = Tag::new(x.0.clone(), x.1.clone()) == Tag::new(y.0.clone(), y.1.clone());
                                if eq != (x == y) {
                                    return Err(format!("tags {x:?} and {y:?} compare as equal: {eq}"));
                                }
                            }
                        }
                        if let (Body::Rel { members: x }, Body::Rel { members: y }) = (&a.b, &b.b) {
                            let lib = |m: &(u8, i64, String)| {
                                let member = MemberData::new(m.1, m.2.clone());
                                match m.0 {
                                    0 => Member::Node { member },
                                    1 => Member::Way { member },
                                    _ => Member::Relation { member },
                                }
                            };
                            for (x, y) in x.iter().flat_map(|x| y.iter().map(move |y| (x, y))).take(100) {
                                for y in [y.clone(), (y.0, x.1, x.2.clone()), (x.0, y.1, x.2.clone()), (x.0, x.1, y.2.clone())] {
                                    let eq = lib(x) == lib(&y);
                                    if eq != (x == &y) {
                                        return Err(format!("members {x:?} and {y:?} compare as equal: {eq}"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            done += changed as usize;
            for (w, e) in &els {
                holds(w, e).map_err(|m| format!("after step {k}, {s:?}: {m}"))?;
            }
            for (w, i) in &infos {
                holds_info(w, i).map_err(|m| format!("after step {k}, {s:?}: {m}"))?;
            }
        }
        ctx.nontrivial(done >= 4);
        ctx.when(c.iter().any(|s| matches!(s, Step::Tags(_) | Step::User(_))), "taken out");
        ctx.when(c.iter().any(|s| matches!(s, Step::Field(..))), "field set");
        Ok(())
    }
}
