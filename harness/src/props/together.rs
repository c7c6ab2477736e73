//! Several readers and writers in one process.
use crate::driver::*;
use crate::enc::{diff_want, read_spoiled, spoiled, EFile, Want};
use crate::props::effects::spoiled_dump;
use crate::props::faults::{pipeline, Kind};
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::props::par::{decode_file, pfile, PFile};
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Barrier, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    SeqWrite { els: Seq, zlib: bool, batching: Vec<u16>, info: Info },
    ParWrite { els: Seq, zlib: bool, batching: Vec<u16>, info: Info, block: usize, slack: usize, swap: u64 },
    /// read the file under the chain's path if an earlier job wrote one, otherwise a file of its own
    Read { file: PFile, chunk: u8, reopen: bool },
    ReadPar { file: PFile, tasks: usize },
    Box { file: PFile },
    DumpWrite { els: Seq },
    DumpRead { els: Seq },
    /// collect elements in a thread-local accumulator
    Accumulate { n: u8, every: u8 },
    /// something that fails: reading a damaged file (0..5), writing to a full device (5..8), reading a damaged dump
    Fails { file: PFile, what: u8, how: u8, salt: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chain {
    pub jobs: Vec<Job>,
    /// give the last job up after so many steps: dropped without close
    pub abandon: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TogetherCase {
    pub chains: Vec<Chain>,
    pub threads: u8,
    /// order of steps within a thread; 0 = one chain after the other
    pub order: u64,
    /// readers of chains without a written file are clones of one reader of one file
    pub shared: Option<PFile>,
}

/// What a chain's path holds.
enum Content {
    Nothing,
    Written(Info, Vec<El>),
}

/// A job under way. Each step is one call.
enum Live {
    SeqW { w: Writer, calls: std::vec::IntoIter<Call> },
    ParW { w: Option<ParallelWriter>, calls: std::vec::IntoIter<Call> },
    Rd { r: Reader, it: Option<Box<dyn Iterator<Item = Element>>>, got: Vec<Element>, want: Expect, again: bool, info: Info },
    DumpW { w: osm_io::osm::apidb_dump::write::writer::Writer, els: std::vec::IntoIter<El> },
    DumpR { it: Box<dyn Iterator<Item = Element>>, got: Vec<Element>, want: Vec<El> },
    Acc { a: ThreadLocalAccumulator, i: u8, since: Vec<u8>, out: Vec<u8> },
}

#[derive(Clone)]
enum Expect {
    Els(Vec<El>),
    Wants(Vec<Want>),
}

impl Expect {
    fn diff(&self, got: &[Element]) -> Option<String> {
        match self {
            Expect::Els(v) => diff_seq(v, got),
            Expect::Wants(w) => diff_want(w, got),
        }
    }
}

struct Shared {
    given_up: Mutex<Vec<ParallelWriter>>,
    reader: Option<(Reader, Vec<Want>, Info)>,
}

struct Run {
    chain: Chain,
    k: usize,
    dir: PathBuf,
    content: Content,
    live: Option<Live>,
    steps: u32,
    done: bool,
    /// drop an abandoned parallel writer without ever closing it
    for_good: bool,
}

fn f<T>(what: &str, r: Result<T, anyhow::Error>) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e:#}"))
}

/// Order with elements at most `slack` too late.
fn mixed(els: Vec<El>, slack: usize, swap: u64) -> Vec<El> {
    let mut v: Vec<(usize, usize, El)> = els.into_iter().enumerate().map(|(i, e)| (i + (mix(swap ^ i as u64) % (slack as u64 + 1)) as usize, i, e)).collect();
    v.sort_by_key(|x| (x.0, x.1));
    v.into_iter().map(|x| x.2).collect()
}

impl Run {
    fn path(&self) -> PathBuf {
        self.dir.join("o.osm.pbf")
    }

    fn own_file(&self, file: &PFile, name: &str) -> Result<(PathBuf, EFile), String> {
        let e = file.file();
        let p = self.dir.join(name);
        std::fs::write(&p, e.bytes()).map_err(|e| e.to_string())?;
        Ok((p, e))
    }

    /// what there is to read: (path, expected elements, info)
    fn source(&self, file: &PFile) -> Result<(PathBuf, Expect, Info), String> {
        match &self.content {
            Content::Written(i, els) => Ok((self.path(), Expect::Els(els.clone()), i.clone())),
            Content::Nothing => {
                let (p, e) = self.own_file(file, &format!("in{}.osm.pbf", self.k))?;
                Ok((p, Expect::Wants(e.want()), e.info))
            }
        }
    }

    fn last(&self) -> bool {
        self.k + 1 == self.chain.jobs.len()
    }

    /// One call. Returns false when the chain is finished.
    fn step(&mut self, shared: &Shared) -> Result<bool, String> {
        if self.done {
            return Ok(false);
        }
        if self.last() {
            if let Some(a) = self.chain.abandon {
                if self.live.is_some() && self.steps > a as u32 {
                    match self.live.take() {
                        // its threads would spin until the process ends: closed when everything else is over
                        Some(Live::ParW { w: Some(w), .. }) if !self.for_good => shared.given_up.lock().unwrap().push(w),
                        l => drop(l),
                    }
                    self.done = true;
                    return Ok(false);
                }
            }
        }
        self.steps += 1;
        let job = self.chain.jobs[self.k].clone();
        let finished = match self.live.take() {
            None => self.begin(job, shared)?,
            Some(l) => self.go_on(job, l)?,
        };
        if finished {
            self.k += 1;
            self.steps = 0;
            if self.k == self.chain.jobs.len() {
                self.done = true;
            }
        }
        Ok(!self.done)
    }

    fn begin(&mut self, job: Job, shared: &Shared) -> Result<bool, String> {
        match job {
            Job::SeqWrite { els, zlib, batching, info } => {
                let mut w = f("creating a writer", Writer::from_file_info(self.path(), info.to_lib(), comp(zlib)))?;
                f("write_header", w.write_header())?;
                self.live = Some(Live::SeqW { w, calls: calls_of(&els.all(Dom::Db), &batching).into_iter() });
            }
            Job::ParWrite { els, zlib, batching, info, block, slack, swap } => {
                let v = els.all(Dom::Db);
                let block = if v.len() > 300 { block.max(20) } else { block };
                let mut w = f("creating a parallel writer", ParallelWriter::from_file_info(block + slack, block, self.path(), info.to_lib(), comp(zlib)))?;
                f("write_header", w.write_header())?;
                self.live = Some(Live::ParW { w: Some(w), calls: calls_of(&mixed(v, slack, swap), &batching).into_iter() });
            }
            Job::Read { file, reopen, .. } => {
                let (r, want, info) = match (&shared.reader, &self.content) {
                    (Some((r, w, i)), Content::Nothing) => (r.clone(), Expect::Wants(w.clone()), i.clone()),
                    _ => {
                        let (p, want, info) = self.source(&file)?;
                        (f("Reader::new", Reader::new(&p))?, want, info)
                    }
                };
                self.live = Some(Live::Rd { r, it: None, got: vec![], want, again: reopen, info });
            }
            Job::ReadPar { file, tasks } => {
                let (r, want, _) = match (&shared.reader, &self.content) {
                    (Some((r, w, i)), Content::Nothing) => (r.clone(), Expect::Wants(w.clone()), i.clone()),
                    _ => {
                        let (p, want, info) = self.source(&file)?;
                        (f("Reader::new", Reader::new(&p))?, want, info)
                    }
                };
                let log = Arc::new(Mutex::new(vec![]));
                let l2 = log.clone();
                f("parallel_for_each", r.parallel_for_each(tasks, move |e| {
                    if !e.is_sentinel() {
                        l2.lock().unwrap().push(e);
                    }
                    Ok(())
                }))?;
                let mut got = std::mem::take(&mut *log.lock().unwrap());
                // multiset comparison: order both by everything the expectation fixes
                let k = |e: &El| (e.key(), format!("{e:?}"));
                match want {
                    Expect::Els(mut w) => {
                        let mut g = els_of(&got)?;
                        g.sort_by_cached_key(k);
                        w.sort_by_cached_key(k);
                        if let Some(d) = diff_els(&w, &g) {
                            return Err(format!("parallel iteration: {d}"));
                        }
                    }
                    Expect::Wants(w) => {
                        // metadata may be unspecified: compare against a sequential reading instead
                        let mut s: Vec<Element> = f("elements", r.elements())?.collect();
                        if let Some(d) = diff_want(&w, &s) {
                            return Err(format!("reading: {d}"));
                        }
                        let k = |e: &Element| format!("{e:?}");
                        s.sort_by_cached_key(k);
                        got.sort_by_cached_key(k);
                        if format!("{s:?}") != format!("{got:?}") {
                            return Err(format!("parallel iteration delivers {} elements, sequential {}, or different ones", got.len(), s.len()));
                        }
                    }
                }
                return Ok(true);
            }
            Job::Box { file } => {
                let (p, want, _) = self.source(&file)?;
                let ns: Vec<(i64, i64)> = match &want {
                    Expect::Els(v) => v.iter().filter_map(|e| if let Body::Node { lat, lon } = e.b { Some((lat, lon)) } else { None }).collect(),
                    Expect::Wants(v) => v.iter().filter_map(|e| if let Body::Node { lat, lon } = e.el.b { Some((lat, lon)) } else { None }).collect(),
                };
                match (BoundingBoxCalculator::new(&p).calc(), ns.is_empty()) {
                    (Err(_), true) => {}
                    (Ok(b), false) => {
                        let w = [ns.iter().map(|x| x.1).min(), ns.iter().map(|x| x.0).min(), ns.iter().map(|x| x.1).max(), ns.iter().map(|x| x.0).max()];
                        for (g, w) in [b.left(), b.bottom(), b.right(), b.top()].iter().zip(w) {
                            if (g - w.unwrap() as f64 / NANO).abs() > 1e-11 {
                                return Err(format!("bounding box {b:?}, expected {w:?}"));
                            }
                        }
                    }
                    (r, _) => return Err(format!("bounding box of {} nodes: {r:?}", ns.len())),
                }
                return Ok(true);
            }
            Job::DumpWrite { els } => {
                let w = f("creating a dump writer", osm_io::osm::apidb_dump::write::writer::Writer::new(self.dir.join("dump"), 0))?;
                self.live = Some(Live::DumpW { w, els: els.all(Dom::Db).into_iter() });
            }
            Job::DumpRead { els } => {
                let v = els.all(Dom::Db);
                let d = self.dir.join(format!("dump{}", self.k));
                write_dump(&d, &v)?;
                let r = f("opening a dump", open_dump(&d, &self.dir.join(format!("tmp{}", self.k))))?;
                let it = f("dump elements", r.elements())?;
                self.live = Some(Live::DumpR { it: Box::new(it), got: vec![], want: sort_tags(v) });
            }
            Job::Accumulate { n, .. } => {
                self.live = Some(Live::Acc { a: ThreadLocalAccumulator::new(n as usize), i: 0, since: vec![], out: vec![] });
            }
            Job::Fails { file, what, how, salt } => {
                let io = |e: std::io::Error| format!("harness: {e}");
                let e = file.file();
                let p = self.dir.join(format!("fails{}", self.k));
                match what {
                    0..=4 => {
                        std::fs::write(&p, spoiled(&e, how, salt)).map_err(io)?;
                        read_spoiled(&p, what, salt as usize % 4 + 1)?;
                    }
                    5..=7 => {
                        let mut els: Vec<El> = e.want().into_iter().map(|w| w.el).collect();
                        normalise(&mut els, Dom::Pbf);
                        let kind = [Kind::Seq, Kind::Par, Kind::Dump][what as usize - 5];
                        if kind == Kind::Dump {
                            std::fs::create_dir(&p).map_err(io)?;
                            std::os::unix::fs::symlink("/dev/full", p.join(["4260.dat", "4290.dat", "toc.dat", "4222.dat"][how as usize % 4])).map_err(io)?;
                        } else {
                            std::os::unix::fs::symlink("/dev/full", &p).map_err(io)?;
                        }
                        pipeline(kind, &p, &els, 20, 0, salt & 1 == 0, &[0, 3], &mut |_| {});
                    }
                    _ => {
                        let mut els: Vec<El> = e.want().into_iter().map(|w| w.el).filter(|e| e.m.ts % 1000 == 0).take(50).collect();
                        normalise(&mut els, Dom::Db);
                        // files that the dump writer refuses are no matter here
                        if let Ok(()) = spoiled_dump(&p, &els, how, salt as u8) {
                            let t = self.dir.join(format!("fails-tmp{}", self.k));
                            let _ = catch(|| -> Result<(), anyhow::Error> { Ok(drop(open_dump(&p, &t)?.elements()?.count())) });
                        }
                    }
                }
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn go_on(&mut self, job: Job, l: Live) -> Result<bool, String> {
        match (l, job) {
            (Live::SeqW { mut w, mut calls }, Job::SeqWrite { els, info, zlib, .. }) => match calls.next() {
                Some(c) => {
                    match c {
                        Call::One(e) => f("write_element", w.write_element(e))?,
                        Call::Many(v) => f("write_elements", w.write_elements(v))?,
                    }
                    self.live = Some(Live::SeqW { w, calls });
                }
                None => {
                    f("close", w.close())?;
                    drop(w);
                    return self.written(info, els.all(Dom::Db), zlib).map(|_| true);
                }
            },
            (Live::ParW { w, mut calls }, Job::ParWrite { els, info, zlib, .. }) => {
                let mut w = w.unwrap();
                match calls.next() {
                    Some(c) => {
                        match c {
                            Call::One(e) => f("write_element", w.write_element(e))?,
                            Call::Many(v) => f("write_elements", w.write_elements(v))?,
                        }
                        self.live = Some(Live::ParW { w: Some(w), calls });
                    }
                    None => {
                        f("close", w.close())?;
                        drop(w);
                        return self.written(info, els.all(Dom::Db), zlib).map(|_| true);
                    }
                }
            }
            (Live::Rd { r, it, mut got, want, again, info }, Job::Read { chunk, .. }) => {
                let mut it = match it {
                    Some(it) => it,
                    None => Box::new(f("elements", r.elements())?) as Box<dyn Iterator<Item = Element>>,
                };
                let mut end = false;
                for _ in 0..(chunk as usize).max(1) * (got.len() / 200 + 1) {
                    match it.next() {
                        Some(e) => got.push(e),
                        None => {
                            end = true;
                            break;
                        }
                    }
                }
                if !end {
                    self.live = Some(Live::Rd { r, it: Some(it), got, want, again, info });
                    return Ok(false);
                }
                if let Some(d) = want.diff(&got) {
                    return Err(format!("reading: {d}"));
                }
                if let Some(d) = info.diff(r.info()) {
                    return Err(format!("reading: {d}"));
                }
                if again {
                    self.live = Some(Live::Rd { r, it: None, got: vec![], want, again: false, info });
                    return Ok(false);
                }
                return Ok(true);
            }
            (Live::DumpW { mut w, mut els }, Job::DumpWrite { els: all }) => match els.next() {
                Some(e) => {
                    f("dump write_element", w.write_element(e.to_lib()))?;
                    self.live = Some(Live::DumpW { w, els });
                }
                None => {
                    f("dump close", w.close())?;
                    drop(w);
                    let v = all.all(Dom::Db);
                    let d = crate::copy::read_dump(&self.dir.join("dump"))?;
                    for (rows, cols) in [(crate::copy::history_rows(&v), crate::copy::HISTORY), (crate::copy::current_rows(&v), crate::copy::CURRENT)] {
                        for (t, c) in cols {
                            if let Some(m) = crate::copy::diff_rows(t, &rows[t], &d.rows(t, c)?) {
                                return Err(format!("dump: {m}"));
                            }
                        }
                    }
                    return Ok(true);
                }
            },
            (Live::DumpR { mut it, mut got, want }, _) => {
                for _ in 0..got.len() / 100 + 1 {
                    match it.next() {
                        Some(e) => got.push(e),
                        None => {
                            let got = check_dump_sentinels(&got)?;
                            return match diff_els(&want, &lib_sorted_tags(&got)?) {
                                None => Ok(true),
                                Some(d) => Err(format!("reading a dump: {d}")),
                            };
                        }
                    }
                }
                self.live = Some(Live::DumpR { it, got, want });
            }
            (Live::Acc { a, i, mut since, mut out }, Job::Accumulate { n, every }) => {
                let take = |since: &mut Vec<u8>, out: &mut Vec<u8>| -> R {
                    let got: Vec<u8> = a.elements().iter().map(|e| key_lib(e).2 as u8).collect();
                    if got != *since {
                        return Err(format!("accumulator returns {got:?} instead of {since:?}"));
                    }
                    out.append(since);
                    Ok(())
                };
                if i < n {
                    let m = Meta { id: 1, version: i as i32, ts: 0, changeset: 1, uid: 1, user: String::new(), visible: true, tags: vec![] };
                    a.add(El { m, b: Body::Way { refs: vec![] } }.to_lib());
                    since.push(i);
                    if every > 0 && i % every == every - 1 {
                        take(&mut since, &mut out)?;
                    }
                    self.live = Some(Live::Acc { a, i: i + 1, since, out });
                } else {
                    take(&mut since, &mut out)?;
                    return Ok(true);
                }
            }
            _ => return Err("harness: job changed".into()),
        }
        Ok(false)
    }

    fn written(&mut self, info: Info, els: Vec<El>, zlib: bool) -> R {
        let (i, got) = decode_file(&self.path(), zlib)?;
        if i != info {
            return Err(format!("header of the output is {i:?} instead of {info:?}"));
        }
        if let Some(d) = diff_els(&els, &got) {
            return Err(format!("output: {d}"));
        }
        self.content = Content::Written(info, els);
        Ok(())
    }
}

static ABANDONED: AtomicU32 = AtomicU32::new(0);

fn run_thread(mut runs: Vec<Run>, order: u64, shared: &Shared) -> R {
    let mut n = 0u64;
    while !runs.is_empty() {
        let i = if order == 0 { 0 } else { mix(order ^ n) as usize % runs.len() };
        // a burst of steps now and then
        let burst = if order == 0 { 1 } else { 1 + mix(order.wrapping_add(n)) % 4 };
        n += 1;
        for _ in 0..burst {
            let job = runs[i].chain.jobs.get(runs[i].k).map(name).unwrap_or("");
            let step = catch(|| runs[i].step(shared)).unwrap_or_else(|p| Err(format!("panicked: {p} {:?}", panics())));
            match step {
                Err(e) => {
                    let k = runs[i].k;
                    // end what is still going on so that no thread spins for ever
                    for r in runs.iter_mut() {
                        if let Some(Live::ParW { w: Some(w), .. }) = &mut r.live {
                            let _ = catch(|| w.close());
                        }
                    }
                    return Err(format!("job {k} ({job}) of {}: {e}", runs[i].dir.file_name().unwrap_or_default().to_string_lossy()));
                }
                Ok(true) => {}
                Ok(false) => {
                    runs.remove(i);
                    break;
                }
            }
        }
    }
    Ok(())
}

fn name(j: &Job) -> &'static str {
    match j {
        Job::SeqWrite { .. } => "sequential writer",
        Job::ParWrite { .. } => "parallel writer",
        Job::Read { .. } => "reader",
        Job::ReadPar { .. } => "parallel iteration",
        Job::Box { .. } => "bounding box",
        Job::DumpWrite { .. } => "dump writer",
        Job::DumpRead { .. } => "dump reader",
        Job::Accumulate { .. } => "accumulator",
        Job::Fails { what: 0..=4, .. } => "damaged file",
        Job::Fails { what: 5..=7, .. } => "writer that fails",
        Job::Fails { .. } => "damaged dump",
    }
}

pub struct C23;
impl Prop for C23 {
    type Case = TogetherCase;
    const ID: &'static str = "C23";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "One to six chains of jobs (sequential and parallel PBF writers, sequential and parallel readers, bounding boxes, dump writers and readers, accumulators, and jobs that fail: damaged files and dumps, full devices), each with data of its own; the jobs of a chain follow each other on one path (so that files are overwritten by other content and reopened), the chains run in 1 to 5 threads and interleave call by call within a thread, or run one after the other; readers may be clones of one reader; some jobs are given up half-way without close. Every finished output is decoded independently and compared with the job's own elements, every reading with its own file. Non-trivial: at least two chains or a chain of at least two jobs.";
    const ASSUMPTIONS: &'static [&'static str] = &["interleavings between threads are sampled; interleavings of calls within a thread are generated", "dump readers that run at the same time have temporary directories of their own"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1_500 } else { 40_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<TogetherCase> {
        let els = || seq(Dom::Db, 20, 8, vec![50, 300, 1500]);
        let inf = || prop_oneof![3 => Just(Info::basic()), 1 => info()];
        let file = || pfile(vec![3, 20, 100]);
        let block = || prop_oneof![3 => 1usize..4, 3 => 4usize..20, 2 => Just(8000usize)];
        let job = prop_oneof![
            4 => (els(), any::<bool>(), batching(), inf()).prop_map(|(els, zlib, batching, info)| Job::SeqWrite { els, zlib, batching, info }),
            5 => (els(), any::<bool>(), batching(), inf(), block(), 0usize..20, any::<u64>()).prop_map(|(els, zlib, batching, info, block, slack, swap)| Job::ParWrite { els, zlib, batching, info, block, slack, swap }),
            4 => (file(), 1u8..20, any::<bool>()).prop_map(|(file, chunk, reopen)| Job::Read { file, chunk, reopen }),
            2 => (file(), 1usize..5).prop_map(|(file, tasks)| Job::ReadPar { file, tasks }),
            1 => file().prop_map(|file| Job::Box { file }),
            2 => els().prop_map(|els| Job::DumpWrite { els }),
            1 => els().prop_map(|els| Job::DumpRead { els }),
            1 => (0u8..40, 0u8..6).prop_map(|(n, every)| Job::Accumulate { n, every }),
            3 => (file(), prop_oneof![6 => 0u8..5, 2 => 5u8..8, 1 => Just(8u8)], 0u8..11, any::<u64>()).prop_map(|(file, what, how, salt)| Job::Fails { file, what, how, salt }),
        ];
        let chain = (prop::collection::vec(job, 1..4), prop::option::weighted(0.15, 0u8..12)).prop_map(|(jobs, abandon)| Chain { jobs, abandon });
        (prop::collection::vec(chain, 1..7), 1u8..6, prop_oneof![1 => Just(0u64), 4 => 1u64..], prop::option::weighted(0.3, file()))
            .prop_map(|(chains, threads, order, shared)| TogetherCase { chains, threads, order, shared })
            .boxed()
    }
    fn run(c: &TogetherCase, ctx: &mut Ctx) -> R {
        ctx.nontrivial(c.chains.len() >= 2 || c.chains[0].jobs.len() >= 2);
        ctx.when(c.order == 0, "one chain after the other");
        for ch in &c.chains {
            for j in &ch.jobs {
                ctx.label(name(j));
            }
        }
        let shared = Arc::new(Shared {
            given_up: Mutex::new(vec![]),
            reader: match &c.shared {
                None => None,
                Some(p) => {
                    let e = p.file();
                    let path = ctx.path("shared.osm.pbf");
                    std::fs::write(&path, e.bytes()).map_err(|e| e.to_string())?;
                    Some((f("Reader::new", Reader::new(&path))?, e.want(), e.info))
                }
            },
        });
        let nt = (c.threads as usize).min(c.chains.len()).max(1);
        ctx.when(nt > 1, "several threads");
        let mut per: Vec<Vec<(Chain, PathBuf, bool)>> = (0..nt).map(|_| vec![]).collect();
        for (i, ch) in c.chains.iter().enumerate() {
            let chain = ch.clone();
            let mut for_good = false;
            if chain.abandon.is_some() {
                ctx.label("abandoned job");
                if matches!(chain.jobs.last(), Some(Job::ParWrite { .. })) {
                    for_good = ctx.tier == Tier::Thorough && ABANDONED.fetch_add(1, Ordering::Relaxed) == 500;
                }
            }
            let dir = ctx.path(&format!("chain{i}"));
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            per[i % nt].push((chain, dir, for_good));
        }
        let bar = Arc::new(Barrier::new(nt));
        let hs: Vec<_> = per
            .into_iter()
            .enumerate()
            .map(|(t, runs)| {
                let (bar, shared, order) = (bar.clone(), shared.clone(), if c.order == 0 { 0 } else { c.order ^ t as u64 | 1 });
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        let runs = runs.into_iter().map(|(chain, dir, for_good)| Run { chain, k: 0, dir, content: Content::Nothing, live: None, steps: 0, done: false, for_good }).collect();
                        bar.wait();
                        run_thread(runs, order, &shared)
                    })
                    .expect("spawn")
            })
            .collect();
        let mut out = Ok(());
        for h in hs {
            let r = h.join().unwrap_or_else(|_| Err("thread panicked".into()));
            if out.is_ok() {
                out = r;
            }
        }
        for mut w in shared.given_up.lock().unwrap().drain(..) {
            let _ = catch(|| w.close());
        }
        out
    }
}

