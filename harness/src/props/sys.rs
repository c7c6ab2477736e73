//! Reading and writing under system calls that do less than asked for, are interrupted, late, or fail.
use crate::driver::*;
use crate::gen::*;
use crate::io::*;
use crate::props::faults::{complete, pipeline, Kind};
use crate::props::par::{pfile, PFile};
use crate::sysfault::{arm, Class, Mode};
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Elements,
    Parallel(u8),
    Count,
    Bbox,
    /// block by block into another file
    Copy(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Write { kind: Kind, els: Seq, block: usize, slack: usize, zlib: bool, batching: Vec<u16> },
    Read { file: PFile, how: How },
    /// opening a dump and iterating over it
    Dump { els: Seq },
}

/// When the faults of a plan apply, for reading a dump.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Phase {
    Both,
    Opening,
    Iterating,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    /// what was read, or a digest of it
    Read(Vec<String>),
    /// a file or directory
    Written,
}

pub struct Done {
    pub out: Result<Out, String>,
    pub counts: [u64; 3],
    pub hits: u64,
}

fn shown(e: &Element) -> String {
    format!("{e:?}")
}

fn res<T>(what: &str, f: impl FnOnce() -> Result<T, anyhow::Error>) -> Result<T, String> {
    catch(f).map_err(|p| format!("{what} panicked: {p}"))?.map_err(|e| format!("{what}: {e:#}"))
}

impl Act {
    /// Make the input below `dir`.
    pub fn prepare(&self, dir: &Path) -> R {
        std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
        match self {
            Act::Write { .. } => Ok(()),
            Act::Read { file, .. } => std::fs::write(dir.join("a.osm.pbf"), file.file().bytes()).map_err(|e| e.to_string()),
            Act::Dump { els } => write_dump(&dir.join("dump"), &els.all(Dom::Db)),
        }
    }

    /// Inputs are below `input`, outputs and temporary files go below `out`; a plan applies to all of `root`.
    pub fn perform(&self, root: &Path, input: &Path, out: &Path, mode: Mode, phase: Phase) -> Done {
        std::fs::create_dir_all(out).expect("scratch directory");
        let (r, (counts, hits)) = match self {
            Act::Write { kind, els, block, slack, zlib, batching } => {
                let els = els.all(Dom::Db);
                let g = arm(root, mode);
                let r = pipeline(*kind, &out.join("o"), &els, *block, *slack, *zlib, batching, &mut |_| {});
                (r.map_or(Ok(Out::Written), Err), g.end())
            }
            Act::Read { how, .. } => {
                let p = input.join("a.osm.pbf");
                let g = arm(root, mode);
                let r = res("reading", || {
                    if let How::Bbox = how {
                        return Ok(Out::Read(vec![format!("{:?}", BoundingBoxCalculator::new(&p).calc()?)]));
                    }
                    let r = Reader::new(&p)?;
                    Ok(match how {
                        How::Elements => Out::Read(r.elements()?.map(|e| shown(&e)).collect()),
                        How::Parallel(tasks) => {
                            let all = Arc::new(Mutex::new(vec![]));
                            let all2 = all.clone();
                            r.parallel_for_each(*tasks as usize, move |e| {
                                let s = shown(&e);
                                all2.lock().unwrap().push(s);
                                Ok(())
                            })?;
                            let mut v = std::mem::take(&mut *all.lock().unwrap());
                            v.sort();
                            // a sentinel per block or thread: not part of the result here
                            v.retain(|s| s != "Sentinel");
                            Out::Read(v)
                        }
                        How::Count => Out::Read(vec![format!("{:?}", r.count_objects()?)]),
                        How::Copy(zlib) => {
                            let mut w = Writer::from_file_info(out.join("o"), r.info().clone(), comp(*zlib))?;
                            for b in r.blocks()? {
                                w.write_file_block(b)?;
                            }
                            w.close()?;
                            Out::Written
                        }
                        How::Bbox => unreachable!(),
                    })
                });
                (r, g.end())
            }
            Act::Dump { .. } => {
                let (open, iterate) = match phase {
                    Phase::Both => (mode, mode),
                    Phase::Opening => (mode, Mode::Count),
                    Phase::Iterating => (Mode::Count, mode),
                };
                // opening sorts: a dependency whose workers cannot report failures of their own files
                let which = if phase == Phase::Both { root } else { input };
                let g = arm(which, open);
                let r = res("opening the dump", || open_dump(&input.join("dump"), &out.join("tmp")));
                let (mut counts, mut hits) = g.end();
                let r = match r {
                    Err(e) => Err(e),
                    Ok(r) => {
                        let g = arm(root, iterate);
                        let v = res("elements of the dump", || Ok(Out::Read(r.elements()?.map(|e| shown(&e)).collect())));
                        let (c, h) = g.end();
                        match phase {
                            Phase::Both => (0..3).for_each(|i| counts[i] += c[i]),
                            Phase::Opening => (),
                            Phase::Iterating => counts = c,
                        }
                        hits += h;
                        v
                    }
                };
                (r, (counts, hits))
            }
        };
        Done { out: r, counts, hits }
    }

    /// Whether what was done is what an undisturbed run does.
    pub fn same(&self, undisturbed: &Path, got: &Path, a: &Out, b: &Out) -> R {
        match (a, b, self) {
            (Out::Written, Out::Written, Act::Write { kind, els, zlib, .. }) => complete(*kind, &got.join("o"), &undisturbed.join("o"), &els.all(Dom::Db), *zlib),
            (Out::Written, Out::Written, _) => {
                let read = |p: &Path| std::fs::read(p.join("o")).map_err(|e| e.to_string());
                if read(undisturbed)? != read(got)? {
                    return Err("the copy differs".into());
                }
                Ok(())
            }
            (Out::Read(a), Out::Read(b), _) => match a.iter().zip(b).position(|(a, b)| a != b) {
                Some(i) => Err(format!("item {i}: {} undisturbed, {}", a[i], b[i])),
                None if a.len() != b.len() => Err(format!("{} items undisturbed, {}", a.len(), b.len())),
                None => Ok(()),
            },
            _ => Err("harness: outcomes of different kinds".into()),
        }
    }

    /// Whether a failure has to be an error: iterators without one in their items can only panic.
    pub fn calm(&self, failing: Class) -> bool {
        match self {
            Act::Read { how: How::Elements, .. } | Act::Dump { .. } => false,
            Act::Read { how: How::Copy(_), .. } => failing == Class::Write,
            _ => true,
        }
    }

    pub fn name(&self) -> String {
        match self {
            Act::Write { kind, .. } => format!("write {kind:?}"),
            Act::Read { how, .. } => format!("read {}", format!("{how:?}").split('(').next().unwrap()),
            Act::Dump { .. } => "read dump".into(),
        }
    }
}

pub fn act(dumps: u32) -> BoxedStrategy<Act> {
    let kind = prop_oneof![Just(Kind::Seq), Just(Kind::Par), Just(Kind::Dump)];
    let block = prop_oneof![3 => 1usize..4, 3 => 4usize..20, 2 => Just(8000usize)];
    let how = prop_oneof![2 => Just(How::Elements), 3 => (1u8..9).prop_map(How::Parallel), 1 => Just(How::Count), 1 => Just(How::Bbox), 2 => any::<bool>().prop_map(How::Copy)];
    prop_oneof![
        6 => (kind, seq(Dom::Db, 20, 15, vec![100, 300, 1000]), block, 0usize..30, any::<bool>(), batching())
            .prop_map(|(kind, els, block, slack, zlib, batching)| Act::Write { kind, block: if els.bulk.is_empty() { block } else { block.max(20) }, els, slack, zlib, batching }),
        6 => (pfile(vec![3, 30, 300]), how).prop_map(|(file, how)| Act::Read { file, how }),
        dumps => seq(Dom::Db, 15, 12, vec![100, 300, 1000]).prop_map(|els| Act::Dump { els }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C35

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChaosCase {
    pub act: Act,
    pub seed: u64,
    pub delays: bool,
}

pub struct C35;
impl Prop for C35 {
    type Case = ChaosCase;
    const ID: &'static str = "C35";
    const SHARDS: u32 = 3;
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str = "Writing with each of the three writers, reading generated conforming PBF files in five ways, and reading dumps, once undisturbed and once with every open, read and write on the files involved subject to generated short transfers (down to one byte), interruptions by signals (EINTR) and delays. Oracle: nothing fails and the outcome is that of the undisturbed run. Non-trivial: at least three calls were disturbed.";
    const ASSUMPTIONS: &'static [&'static str] = &["short transfers, interruptions and delays are injected by stand-ins for the C library's open64, read, write, readv, writev, pread64 and pwrite64; access by memory mapping is not disturbed"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1_500 } else { 40_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ChaosCase> {
        (act(2), any::<u64>(), any::<bool>()).prop_map(|(act, seed, delays)| ChaosCase { act, seed, delays }).boxed()
    }
    fn run(c: &ChaosCase, ctx: &mut Ctx) -> R {
        let input = ctx.path("in");
        c.act.prepare(&input)?;
        let (plain, rough) = (ctx.path("plain"), ctx.path("rough"));
        let a = c.act.perform(&ctx.dir, &input, &plain, Mode::Count, Phase::Both);
        let a = match a.out {
            // a file without nodes has no bounding box
            Err(_) if matches!(c.act, Act::Read { how: How::Bbox, .. }) => return Ok(()),
            r => r.map_err(|e| format!("undisturbed run: {e}"))?,
        };
        let b = c.act.perform(&ctx.dir, &input, &rough, Mode::Chaos { seed: c.seed, delays: c.delays }, Phase::Both);
        ctx.label(c.act.name());
        ctx.nontrivial(b.hits >= 3);
        ctx.count("calls disturbed", b.hits);
        let out = b.out.map_err(|e| format!("with short and interrupted transfers ({} of {:?} calls disturbed): {e}", b.hits, b.counts))?;
        c.act.same(&plain, &rough, &a, &out).map_err(|e| format!("with short and interrupted transfers ({} of {:?} calls disturbed): {e}", b.hits, b.counts))
    }
}
