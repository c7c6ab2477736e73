//! Values finer than what the formats hold.
use crate::driver::*;
use crate::enc::{EBlock, EFile};
use crate::gen::{self, mix, Dom};
use crate::io::*;
use crate::model::*;
use crate::wire::Comp;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum How {
    Sequential,
    Parallel,
    Dump,
    /// blocks with a finer granularity and the element's times in milliseconds, copied
    BlockCopy,
    /// such a file read, written as a dump, and that as PBF
    Chain,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct FineCase {
    /// on the grids
    pub els: Vec<El>,
    /// distance from the grid, cyclic: nanodegrees in steps of 1/8, milliseconds
    pub off: Vec<(i16, i16, u16)>,
    /// edges of a bounding box in 1/16 nanodegrees
    pub bbox: Option<[i64; 4]>,
    pub how: How,
    pub zlib: bool,
}

/// what is written: degrees, milliseconds
struct Given {
    at: Option<(f64, f64)>,
    ts: i64,
}

const EIGHTHS: i64 = 8;

impl FineCase {
    /// the element's coordinate in 1/8 nanodegrees and time in milliseconds
    fn fine(&self, i: usize) -> (i64, i64, i64) {
        let (a, b, t) = self.off[i % self.off.len().max(1)];
        let e = &self.els[i];
        // blocks can only hold whole nanodegrees
        let unit = if matches!(self.how, How::BlockCopy | How::Chain) { EIGHTHS } else { 1 };
        let put = |v: i64, d: i16, max: i64| ((v * EIGHTHS + d as i64).clamp(-max * EIGHTHS, max * EIGHTHS)) / unit * unit;
        let ts = if e.m.ts >= 0 { e.m.ts + t as i64 % 1000 } else { e.m.ts };
        match e.b {
            Body::Node { lat, lon } => (put(lat, a, 90_000_000_000), put(lon, b, 180_000_000_000), ts),
            _ => (0, 0, ts),
        }
    }
    fn given(&self, i: usize) -> (Element, Given) {
        let (lat, lon, ts) = self.fine(i);
        let deg = |v: i64| v as f64 / (EIGHTHS as f64 * NANO);
        let mut e = self.els[i].clone();
        e.m.ts = ts;
        match e.to_lib() {
            Element::Node { node } => (
                Element::Node {
                    node: Node::new(node.id(), node.version(), Coordinate::new(deg(lat), deg(lon)), ts, node.changeset(), node.uid(), node.user().clone(), node.visible(), node.tags().clone()),
                },
                Given { at: Some((deg(lat), deg(lon))), ts },
            ),
            e => (e, Given { at: None, ts }),
        }
    }
    fn info(&self) -> FileInfo {
        let d = |v: i64| v as f64 / (16.0 * NANO);
        FileInfo::new(
            self.bbox.map(|b| BoundingBox::new(d(b[0]), d(b[1]), d(b[2]), d(b[3]))),
            vec!["OsmSchema-V0.6".into(), "DenseNodes".into()],
            vec![],
            None,
            None,
            None,
            None,
            None,
        )
    }
}

/// The elements as they have to come back: whole seconds, coordinates next to the given ones.
fn check(c: &FineCase, got: &[Element], tags_sorted: bool) -> Result<usize, String> {
    if got.len() != c.els.len() {
        return Err(format!("{} elements instead of {}", got.len(), c.els.len()));
    }
    let mut moved = 0;
    for (i, g) in got.iter().enumerate() {
        let (_, given) = c.given(i);
        let f = from_lib(g)?;
        let mut want = c.els[i].clone();
        let mut have = f.el;
        want.m.ts = given.ts.div_euclid(1000) * 1000;
        if let (Some((lat, lon)), Some((glat, glon))) = (given.at, f.raw) {
            for (what, x, y) in [("latitude", lat, glat), ("longitude", lon, glon)] {
                let (x7, y7) = (x * 1e7, y * 1e7);
                // products and quotients of this size are off by 1e-6 of a step at most
                if (y7 - y7.round()).abs() > 1e-5 || (x7 - y7.round()).abs() > 0.5 + 1e-5 {
                    return Err(format!("{what} {x:?} of {:?} came back as {y:?}, not as the nearest multiple of 1e-7", want.key()));
                }
                moved += ((x7 - y7.round()).abs() > 1e-3) as usize;
            }
            have.b = want.b.clone();
        }
        moved += (want.m.ts != given.ts) as usize;
        if tags_sorted {
            want.m.tags.sort();
            have.m.tags.sort();
        }
        if want != have {
            return Err(format!("expected {want:?}\n     got {have:?}"));
        }
    }
    Ok(moved)
}

pub struct C28;
impl Prop for C28 {
    type Case = FineCase;
    const ID: &'static str = "C28";
    const RULE: &'static str = "An ordered stream whose coordinates are shifted by up to 100 nanodegrees in steps of an eighth and whose times are shifted by milliseconds, a header bounding box in steps of 1/16 nanodegree, and a way: sequential writer, parallel writer, dump, block copy of a file of granularity 1, or such a file through a dump back to PBF. Each coordinate read must be a multiple of 1e-7 degrees within half a step of the given one (up to 1e-5 of a step for floating point), each edge within half a nanodegree, each time the whole second, all else unchanged; writing what was read again must give exactly the same. Non-trivial: a value was not on its grid.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6000 } else { 200_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<FineCase> {
        let d = || prop_oneof![
            4 => -800i16..800,
            2 => (-5i16..=5).prop_map(|x| x * 100 + 400),
            1 => prop::sample::select(vec![399i16, 400, 401, -399, -400, -401, 0, 8, -8]),
        ];
        let off = prop::collection::vec((d(), d(), prop_oneof![0u16..1000, prop::sample::select(vec![0u16, 1, 499, 500, 999])]), 1..8);
        let edge = |max: i64| gen::nano(max).prop_flat_map(move |v| (-16i64..=16).prop_map(move |d| (v * 16 + d).clamp(-max * 16, max * 16)));
        let bbox = (edge(180_000_000_000), edge(90_000_000_000), edge(180_000_000_000), edge(90_000_000_000)).prop_map(|(a, b, c, d)| [a, b, c, d]);
        let how = prop_oneof![6 => Just(How::Sequential), 4 => Just(How::Parallel), 1 => Just(How::Dump), 4 => Just(How::BlockCopy), 1 => Just(How::Chain)];
        (gen::elements(Dom::Db, 24), off, prop::option::of(bbox), how, any::<bool>())
            .prop_map(|(els, off, bbox, how, zlib)| FineCase { els, off, bbox, how, zlib })
            .boxed()
    }
    fn run(c: &FineCase, ctx: &mut Ctx) -> R {
        ctx.label(format!("{:?}", c.how));
        let p = ctx.path("out.pbf");
        let n = c.els.len();
        let given = || (0..n).map(|i| c.given(i).0);
        let io = |e: std::io::Error| format!("harness: {e}");
        let lib = |what: &str, r: Result<Result<(), anyhow::Error>, String>| match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("{what} failed: {e:#}")),
            Err(p) => Err(format!("{what} panicked: {p}")),
        };
        // a source of granularity 1 for copies
        let source = || -> Result<std::path::PathBuf, String> {
            let mut blocks: Vec<EBlock> = vec![];
            for i in 0..n {
                let start = i == 0 || c.els[i].rank() != c.els[i - 1].rank() || mix(i as u64) % 5 == 0;
                if start {
                    let mut b = EBlock::plain(vec![], if c.zlib { Comp::Raw } else { Comp::Zlib(6) });
                    b.gran = Some(1);
                    b.date = Some(1);
                    blocks.push(b);
                }
                let (lat, lon, ts) = c.fine(i);
                let b = blocks.last_mut().unwrap();
                let mut one = EBlock::plain(vec![c.els[i].clone()], Comp::Raw);
                let mut g = one.groups.remove(0);
                g.els[0].e.m.ts = ts;
                if let Body::Node { lat: a, lon: o } = &mut g.els[0].e.b {
                    (*a, *o) = (lat / EIGHTHS, lon / EIGHTHS);
                }
                match b.groups.last_mut() {
                    Some(last) => last.els.append(&mut g.els),
                    None => b.groups.push(g),
                }
            }
            let mut f = EFile::plain(vec![], Comp::Raw);
            f.blocks = blocks;
            let s = ctx.path("source.pbf");
            std::fs::write(&s, f.bytes()).map_err(io)?;
            Ok(s)
        };
        let seq = |els: &mut dyn Iterator<Item = Element>, p: &std::path::Path| {
            lib("the sequential writer", catch(|| {
                let mut w = Writer::from_file_info(p.to_path_buf(), c.info(), comp(c.zlib))?;
                w.write_header()?;
                for e in els {
                    w.write_element(e)?;
                }
                w.close()
            }))
        };
        let dump = |els: &mut dyn Iterator<Item = Element>| -> Result<Vec<Element>, String> {
            let d = ctx.path("dump");
            lib("the dump writer", catch(|| {
                let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(d.clone(), 0)?;
                for e in els {
                    w.write_element(e)?;
                }
                w.close()
            }))?;
            let tmp = ctx.path("tmp");
            std::fs::create_dir_all(&tmp).map_err(io)?;
            check_dump_sentinels(&read_dump_lib(&d, &tmp)?)
        };
        let mut header = true;
        match c.how {
            How::Sequential => seq(&mut given(), &p)?,
            How::Parallel => lib("the parallel writer", catch(|| {
                let mut w = ParallelWriter::from_file_info(16, 5, p.clone(), c.info(), comp(c.zlib))?;
                w.write_header()?;
                for e in given() {
                    w.write_element(e)?;
                }
                w.close()
            }))?,
            How::Dump => {
                let got = dump(&mut given())?;
                let moved = check(c, &got, true).map_err(|e| format!("dump: {e}"))?;
                ctx.nontrivial(moved > 0);
                seq(&mut got.into_iter(), &p)?;
            }
            How::BlockCopy => {
                header = false;
                let s = source()?;
                lib("copying", catch(|| {
                    let r = Reader::new(&s)?;
                    let mut w = Writer::from_file_info(p.clone(), r.info().clone(), comp(c.zlib))?;
                    for b in r.blocks()? {
                        w.write_file_block(b)?;
                    }
                    w.close()
                }))?;
            }
            How::Chain => {
                let s = source()?;
                let (_, els) = read_seq(&s)?;
                let got = dump(&mut els.into_iter())?;
                seq(&mut got.into_iter(), &p)?;
            }
        }
        let (r, got) = read_seq(&p)?;
        let moved = check(c, &got, matches!(c.how, How::Dump | How::Chain)).map_err(|e| format!("{:?}: {e}", c.how))?;
        ctx.nontrivial(moved > 0);
        if let (true, Some(want)) = (header, c.bbox) {
            let Some(b) = r.info().bounding_box() else { return Err("the bounding box is gone".into()) };
            for (what, x, y) in [("left", want[0], b.left()), ("bottom", want[1], b.bottom()), ("right", want[2], b.right()), ("top", want[3], b.top())] {
                let (x9, y9) = (x as f64 / 16.0, y * NANO);
                if (y9 - y9.round()).abs() > 1e-3 || (x9 - y9.round()).abs() > 0.5 + 1e-3 {
                    return Err(format!("{what} edge of {x9} nanodegrees came back as {y9}"));
                }
                ctx.when(x % 16 != 0, "edge between nanodegrees");
                ctx.nontrivial(x % 16 != 0);
            }
        }
        // once more: nothing moves again
        let q = ctx.path("again.pbf");
        seq(&mut got.clone().into_iter(), &q)?;
        let (_, again) = read_seq(&q)?;
        let show = |v: &[Element]| -> Vec<String> { v.iter().map(|e| format!("{e:?}")).collect() };
        if show(&got) != show(&again) {
            return Err("writing again what was read changed it".into());
        }
        Ok(())
    }
}
