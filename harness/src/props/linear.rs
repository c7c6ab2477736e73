//! The work grows in proportion to the data.
use crate::driver::*;
use crate::enc::{frame, EFile};
use crate::wire::Comp;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape {
    Nodes,
    Ways,
    Relations,
    /// tags of one object, all different
    Tags,
    /// keys shared by many objects, values all different
    Strings,
    Refs,
    Members,
    /// members of a few roles
    Roles,
    Versions,
    Users,
    /// one user, as many changesets as elements
    Changesets,
    /// objects of all types, deleted ones among them
    Mixed,
    /// bytes of one string
    Text,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Write { zlib: bool, lists: bool },
    Read,
    Blocks,
    /// a file of many small blocks
    Small { copy: bool },
    /// blocks of a type to skip between few blocks of data
    Skip,
    ParWrite { lists: bool },
    /// with small blocks
    ParRead,
    Count,
    Bounds,
    WriteDump,
    ReadDump,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinearCase {
    pub shape: Shape,
    pub op: Op,
    /// per mille of the usual size
    pub size: u16,
    pub salt: u64,
}

const SHAPES: [Shape; 13] = {
    use Shape::*;
    [Nodes, Ways, Relations, Tags, Strings, Refs, Members, Roles, Versions, Users, Changesets, Mixed, Text]
};

fn make(shape: Shape, n: usize, salt: u64) -> Vec<El> {
    let h = |i: usize, k: u64| mix(salt ^ mix((i as u64) << 8 | k));
    let meta = |id: i64, i: usize| Meta { id, version: 1, ts: 1_500_000_000_000 + i as i64 * 1000, changeset: 7, uid: 3, user: "someone".into(), visible: true, tags: vec![] };
    let node = |m: Meta, i: usize| El { m, b: Body::Node { lat: (h(i, 1) % 1_800_000_001) as i64 * 100 - 90_000_000_000, lon: (h(i, 2) % 3_600_000_001) as i64 * 100 - 180_000_000_000 } };
    // of one type, or a third of each
    let any = |m: Meta, i: usize| match if salt % 4 < 3 { salt as usize % 4 } else { 3 * i / n } {
        0 => node(m, i),
        1 => El { m, b: Body::Way { refs: vec![h(i, 1) as u32 as i64] } },
        _ => El { m, b: Body::Rel { members: vec![((i % 3) as u8, h(i, 1) as u32 as i64, "role".into())] } },
    };
    // short, longer and long strings
    let text = |i: usize, k: u64| match h(i, k + 40) % 3 {
        0 => format!("{:x}", h(i, k)),
        1 => format!("{:040x}", h(i, k)),
        _ => format!("{:0>150}", h(i, k)),
    };
    // a large element between small ones
    let between = |e: El| {
        let small = |id: i64| {
            let b = match &e.b {
                Body::Node { .. } => Body::Node { lat: 1_000, lon: 2_000 },
                Body::Way { .. } => Body::Way { refs: vec![5, 6] },
                Body::Rel { .. } => Body::Rel { members: vec![(0, 5, "first".into()), (1, 6, "r1".into())] },
            };
            let mut m = meta(id, 0);
            m.tags = vec![("name".into(), "small".into())];
            El { m, b }
        };
        vec![small(1), small(2), e.clone(), small(4)]
    };
    let one = |f: &dyn Fn(&mut Meta)| {
        let mut m = meta(3, 0);
        f(&mut m);
        m
    };
    match shape {
        Shape::Nodes => (0..n).map(|i| node(meta(i as i64 + 1, i), i)).collect(),
        Shape::Ways => (0..n).map(|i| El { m: meta(i as i64 + 1, i), b: Body::Way { refs: vec![i as i64 + 1, h(i, 1) as u32 as i64] } }).collect(),
        Shape::Relations => (0..n).map(|i| El { m: meta(i as i64 + 1, i), b: Body::Rel { members: vec![((i % 3) as u8, h(i, 1) as u32 as i64, "role".into())] } }).collect(),
        Shape::Tags => between(node(one(&|m| m.tags = (0..n).map(|i| (format!("key {i} {}", text(i, 3)), text(i, 4))).collect()), 0)),
        Shape::Strings => (0..n / 20).map(|i| { let mut m = meta(i as i64 + 1, i); m.tags = (0..20).map(|t| (format!("key {t}"), text(i, 10 + t))).collect(); El { m, b: Body::Way { refs: vec![1] } } }).collect(),
        Shape::Refs => between(El { m: meta(3, 0), b: Body::Way { refs: (0..n).map(|i| (h(i, 5) >> 4) as i64).collect() } }),
        Shape::Members => between(El { m: meta(3, 0), b: Body::Rel { members: (0..n).map(|i| ((i % 3) as u8, (h(i, 5) >> 4) as i64, text(i, 6))).collect() } }),
        Shape::Roles => between(El { m: meta(3, 0), b: Body::Rel { members: (0..n).map(|i| ((i % 3) as u8, (h(i, 5) >> 4) as i64, format!("r{}", h(i, 6) % 5))).collect() } }),
        Shape::Versions => (0..n).map(|i| { let mut m = meta(1, i); m.version = i as i32 + 1; m.visible = h(i, 7) % 4 > 0; any(m, i) }).collect(),
        Shape::Users => (0..n).map(|i| { let mut m = meta(i as i64 + 1, i); m.changeset = i as i64 + 1; m.uid = i as i32 + 1; m.user = format!("user {i} {}", text(i, 9)); any(m, i) }).collect(),
        Shape::Changesets => (0..n).map(|i| { let mut m = meta(i as i64 + 1, i); m.changeset = (h(i, 8) >> 20) as i64; any(m, i) }).collect(),
        Shape::Mixed => {
            let mut v: Vec<El> = (0..n)
                .map(|i| {
                    let mut m = meta(i as i64 / 3 + 1, i);
                    m.visible = h(i, 7) % 5 > 0;
                    m.tags = (0..h(i, 8) % 3).map(|t| (format!("k{t}"), format!("v{}", h(i, 9) % 1000))).collect();
                    match i % 3 {
                        0 => node(m, i),
                        1 => El { m, b: Body::Way { refs: (0..5).map(|r| (h(i, 20 + r) >> 20) as i64).collect() } },
                        _ => El { m, b: Body::Rel { members: (0..3).map(|r| (r as u8, (h(i, 30 + r) >> 20) as i64, "x".into())).collect() } },
                    }
                })
                .collect();
            normalise(&mut v, Dom::Db);
            v
        }
        Shape::Text => between(node(one(&|m| m.tags = vec![("text".into(), (0..n).map(|i| char::from(32 + (h(i, 3) % 95) as u8)).collect())]), 0)),
    }
}

/// shapes with many elements, in an order to write them in
fn many(shape: Shape) -> bool {
    matches!(shape, Shape::Nodes | Shape::Ways | Shape::Relations | Shape::Versions | Shape::Mixed)
}
const MANY: [Op; 8] = [Op::Small { copy: false }, Op::Small { copy: true }, Op::Skip, Op::ParWrite { lists: false }, Op::ParWrite { lists: true }, Op::ParRead, Op::Count, Op::Bounds];

fn usual(shape: Shape) -> usize {
    match shape {
        Shape::Text => 1_000_000,
        Shape::Tags | Shape::Strings | Shape::Members | Shape::Roles | Shape::Refs => 10_000,
        _ => 5_000,
    }
}

/// CPU time of this thread, in seconds
fn cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// A dump is slow to write, which hides work that others do as they go.
fn slow(c: &LinearCase) -> bool {
    c.op == Op::WriteDump && matches!(c.shape, Shape::Users | Shape::Changesets | Shape::Versions)
}

impl LinearCase {
    /// so much more data …
    fn factor(&self) -> usize {
        if self.op.parallel() || slow(self) { 16 } else { 8 }
    }
    /// … may take so much more time. Quadratic work takes 256 or 64 times as long.
    fn allowed(&self) -> f64 {
        if self.op.parallel() { 64.0 } else if slow(self) { 52.0 } else { 26.0 }
    }
}

impl Op {
    fn parallel(self) -> bool {
        matches!(self, Op::ParWrite { .. } | Op::ParRead | Op::Count | Op::Bounds)
    }
    fn floor(self) -> f64 {
        if self.parallel() { 0.4 } else { 0.06 }
    }
}

/// CPU time, or the time that passes if work is done by other threads
fn clock(op: Op) -> f64 {
    if !op.parallel() {
        return cpu();
    }
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

/// The time an operation takes, or an error.
fn timed(op: Op, els: &[El], dir: &Path) -> Result<f64, String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = dir.join("a.osm.pbf");
    let io = |e: anyhow::Error| format!("{e:#}");
    let run = |f: &mut dyn FnMut() -> Result<(), anyhow::Error>| -> Result<f64, String> {
        let t = clock(op);
        catch(f).map_err(|p| format!("panic: {p}"))?.map_err(io)?;
        Ok(clock(op) - t)
    };
    match op {
        Op::Write { zlib, lists } => {
            let calls = calls_of(els, if lists { &[u16::MAX] } else { &[0] });
            let mut calls = Some(calls);
            run(&mut || {
                let mut w = Writer::from_file_info(path.clone(), Info::basic().to_lib(), comp(zlib))?;
                w.write_header()?;
                for c in calls.take().unwrap() {
                    match c {
                        Call::One(e) => w.write_element(e)?,
                        Call::Many(v) => w.write_elements(v)?,
                    }
                }
                w.close()
            })
        }
        Op::ParWrite { lists } => {
            let mut calls = Some(calls_of(els, if lists { &[50] } else { &[0] }));
            let t = run(&mut || {
                let mut w = ParallelWriter::from_file_info(1_000, 100, path.clone(), Info::basic().to_lib(), comp(false))?;
                w.write_header()?;
                for c in calls.take().unwrap() {
                    match c {
                        Call::One(e) => w.write_element(e)?,
                        Call::Many(v) => w.write_elements(v)?,
                    }
                }
                w.close()
            })?;
            let n = read_seq(&path)?.1.len();
            if n != els.len() {
                return Err(format!("{n} of {} elements written", els.len()));
            }
            Ok(t)
        }
        Op::ParRead | Op::Count | Op::Bounds => {
            EFile::plain(els.chunks(20).map(|c| c.to_vec()).collect(), Comp::Raw).write(&path, 0)?;
            let r = Reader::new(&path).map_err(io)?;
            let mut n = 0;
            let t = run(&mut || {
                match op {
                    Op::Count => {
                        let (a, b, c) = r.count_objects()?;
                        n = (a + b + c) as usize;
                    }
                    Op::Bounds => {
                        let bounds = BoundingBoxCalculator::new(&path).calc();
                        if els.iter().any(|e| matches!(e.b, Body::Node { .. })) {
                            bounds?;
                        }
                        n = els.len();
                    }
                    _ => {
                        let seen = Arc::new(AtomicUsize::new(0));
                        let s = seen.clone();
                        r.parallel_for_each(2, move |e| {
                            if !e.is_sentinel() {
                                s.fetch_add(1, Ordering::Relaxed);
                            }
                            Ok(())
                        })?;
                        n = seen.load(Ordering::SeqCst);
                    }
                }
                Ok(())
            })?;
            if n != els.len() {
                return Err(format!("{n} of {} elements", els.len()));
            }
            Ok(t)
        }
        Op::Read | Op::Blocks | Op::Small { .. } | Op::Skip => {
            match op {
                Op::Small { .. } => EFile::plain(els.chunks(4).map(|c| c.to_vec()).collect(), Comp::Raw).write(&path, 0)?,
                Op::Skip => {
                    write_seq(&path, &Info::basic(), els, &[0], false)?;
                    let mut bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
                    let skipped = frame("OSMOther", b"something", Comp::Raw, None, 0);
                    for _ in 0..els.len() * 2 {
                        bytes.extend(&skipped);
                    }
                    std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
                }
                _ => write_seq(&path, &Info::basic(), els, &[0], false)?,
            }
            let r = Reader::new(&path).map_err(io)?;
            let mut n = 0;
            let t = run(&mut || {
                if !matches!(op, Op::Blocks | Op::Small { copy: true }) {
                    n = r.elements()?.count();
                } else {
                    let mut w = Writer::from_file_info(dir.join("b.osm.pbf"), r.info().clone(), comp(false))?;
                    for b in r.blocks()? {
                        w.write_file_block(b)?;
                    }
                    w.close()?;
                    n = els.len();
                }
                Ok(())
            })?;
            if n != els.len() {
                return Err(format!("{n} of {} elements read", els.len()));
            }
            Ok(t)
        }
        Op::WriteDump => {
            let mut els: Option<Vec<Element>> = Some(els.iter().map(|e| e.to_lib()).collect());
            run(&mut || {
                let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(dir.join("dump"), 0)?;
                for e in els.take().unwrap() {
                    w.write_element(e)?;
                }
                w.close()
            })
        }
        Op::ReadDump => {
            write_dump(&dir.join("dump"), els)?;
            let r = open_dump(&dir.join("dump"), &dir.join("tmp")).map_err(io)?;
            let mut n = 0;
            let t = run(&mut || {
                n = r.elements()?.filter(|e| !e.is_sentinel()).count();
                Ok(())
            })?;
            if n != els.len() {
                return Err(format!("{n} of {} elements read", els.len()));
            }
            Ok(t)
        }
    }
}

pub struct C36;
impl Prop for C36 {
    type Case = LinearCase;
    const ID: &'static str = "C36";
    const SHARDS: u32 = 4;
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str = "Every operation (writing and reading PBF files, copying blocks, files of many small blocks or of many blocks to skip, writing and reading dumps; parallel writing, iteration, counting and bounding boxes) on data of 13 shapes (many elements of a type, many tags, references, members, roles, versions, users, changesets or different strings, a long text) of a generated size and of eight times that size (16 times for the parallel ones, and for dumps of many users, versions or changesets, which may take 52 times as long). Oracle: the CPU time of the calling thread may be 26 times as long plus 60 ms (linear: 8 times, quadratic: 64 times); for parallel operations the time that passes may be 64 times as long plus 400 ms (linear: 16 times, quadratic: 256 times); the least of up to six measurements of both. Non-trivial: the larger one takes at least 2 ms.";
    const ASSUMPTIONS: &'static [&'static str] = &["parallel operations are measured by the time that passes, as workers of the library's thread pools spin while they wait", "growth below the threshold of 26 for a factor of 8 (64 for a factor of 16) is not noticed"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 200 } else { 10_000 }
    }
    fn fixed(_: Tier) -> Vec<LinearCase> {
        let mut v = vec![];
        for shape in SHAPES {
            if many(shape) {
                for op in MANY {
                    v.push(LinearCase { shape, op, size: 1000, salt: 1 });
                }
            }
            for op in [Op::Write { zlib: false, lists: false }, Op::Write { zlib: true, lists: true }, Op::Read, Op::Blocks, Op::WriteDump, Op::ReadDump] {
                v.push(LinearCase { shape, op, size: 1000, salt: 3 });
            }
        }
        for shape in [Shape::Users, Shape::Changesets, Shape::Versions] {
            for salt in 0..3 {
                v.push(LinearCase { shape, op: Op::WriteDump, size: 1000, salt });
            }
        }
        v
    }
    fn strategy(_: Tier) -> BoxedStrategy<LinearCase> {
        let shape = prop::sample::select(SHAPES.to_vec());
        let op = prop_oneof![
            3 => (any::<bool>(), any::<bool>()).prop_map(|(zlib, lists)| Op::Write { zlib, lists }),
            2 => Just(Op::Read),
            1 => Just(Op::Blocks),
            2 => Just(Op::WriteDump),
            2 => Just(Op::ReadDump),
        ];
        let large = prop::sample::select(SHAPES.iter().copied().filter(|s| many(*s)).collect::<Vec<_>>());
        prop_oneof![
            4 => (shape, op),
            1 => (large, prop::sample::select(MANY.to_vec())),
        ]
        .prop_flat_map(|(shape, op)| (Just(shape), Just(op), 500u16..1001, any::<u64>()))
        .prop_map(|(shape, op, size, salt)| LinearCase { shape, op, size, salt }).boxed()
    }
    fn run(c: &LinearCase, ctx: &mut Ctx) -> R {
        let n = usual(c.shape) * c.size as usize / 1000 * if c.op.parallel() { 3 } else { 1 };
        let (few, many) = (make(c.shape, n, c.salt), make(c.shape, n * c.factor(), c.salt));
        let dir = ctx.path("d");
        let (mut a, mut b) = (f64::MAX, f64::MAX);
        for round in 0..6 {
            a = a.min(timed(c.op, &few, &dir)?);
            b = b.min(timed(c.op, &many, &dir)?);
            if b <= c.allowed() * a + c.op.floor() {
                ctx.label(format!("{:?} {}", c.shape, format!("{:?}", c.op).split(' ').next().unwrap()));
                ctx.when(round > 0, "measured more than once");
                ctx.nontrivial(b > 0.002);
                ctx.when(b > 12.0 * a + 0.005, "more than 12 times as long");
                if std::env::var_os("VERIF_TIMES").is_some() {
                    eprintln!("{:?} {:?} {n}: {:.1} ms, {:.1} ms: {:.1}", c.shape, c.op, a * 1e3, b * 1e3, b / a);
                }
                return Ok(());
            }
        }
        Err(format!("{:?} of {} and {} ({:?}): {:.0} ms and {:.0} ms of CPU time, which grows faster than the data", c.op, n, n * c.factor(), c.shape, a * 1e3, b * 1e3))
    }
}
