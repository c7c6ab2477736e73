//! Pipelines as the documentation shows them: reading, filtering, writing, one after the other.
use crate::driver::*;
use crate::enc::{EBlock, EFile};
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::props::par::{block_for, decode_file, jitter};
use crate::wire::Comp;
use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// What a pipeline does with each element, by the accessors of the library's model.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Filter {
    Keep,
    Nothing,
    /// only elements of one type
    Kind(u8),
    /// not the elements with a tag of a key as long as that (0..8 bytes)
    Tag(u8),
    /// by a hash of type, id and version: so many of 8 pass
    Hash(u64, u8),
    /// only elements that are not deleted
    Visible,
    /// only elements that refer to others
    Refers,
    /// the tags are taken from the elements
    Untag,
    /// the user names are taken from the elements
    Anonymous,
}

fn kept(f: Filter, key: (u8, i64, i32), tag_lens: &[usize], visible: bool, parts: usize) -> bool {
    match f {
        Filter::Keep | Filter::Untag | Filter::Anonymous => true,
        Filter::Nothing => false,
        Filter::Kind(k) => key.0 == k % 3,
        Filter::Tag(n) => !tag_lens.contains(&(n as usize)),
        Filter::Hash(s, n) => mix(s ^ mix(key.1 as u64 ^ mix((key.0 as u64) << 32 | key.2 as u32 as u64))) % 8 < n as u64,
        Filter::Visible => visible,
        Filter::Refers => parts > 0,
    }
}

impl Filter {
    /// None: filtered out
    fn lib(self, mut e: Element) -> Option<Element> {
        let lens = |t: &Vec<osm_io::osm::model::tag::Tag>| t.iter().map(|t| t.k().len()).collect::<Vec<_>>();
        let (l, v, p) = match &e {
            Element::Node { node } => (lens(node.tags()), node.visible(), 0),
            Element::Way { way } => (lens(way.tags()), way.visible(), way.refs().len()),
            Element::Relation { relation } => (lens(relation.tags()), relation.visible(), relation.members().len()),
            Element::Sentinel => return None,
        };
        if !kept(self, key_lib(&e), &l, v, p) {
            return None;
        }
        match (self, &mut e) {
            (Filter::Untag, Element::Node { node }) => drop(node.take_tags()),
            (Filter::Untag, Element::Way { way }) => drop(way.take_tags()),
            (Filter::Untag, Element::Relation { relation }) => drop(relation.take_tags()),
            (Filter::Anonymous, Element::Node { node }) => drop(node.take_user()),
            (Filter::Anonymous, Element::Way { way }) => drop(way.take_user()),
            (Filter::Anonymous, Element::Relation { relation }) => drop(relation.take_user()),
            _ => {}
        }
        Some(e)
    }

    fn model(self, e: &El) -> Option<El> {
        let lens: Vec<usize> = e.m.tags.iter().map(|t| t.0.len()).collect();
        let parts = match &e.b {
            Body::Node { .. } => 0,
            Body::Way { refs } => refs.len(),
            Body::Rel { members } => members.len(),
        };
        kept(self, e.key(), &lens, e.m.visible, parts).then(|| {
            let mut e = e.clone();
            if self == Filter::Untag {
                e.m.tags.clear();
            }
            if self == Filter::Anonymous {
                e.m.user.clear();
            }
            e
        })
    }
}

/// Where the header of the output comes from.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Head {
    /// the input's, with another writing program
    Input(String),
    /// the default, with another writing program
    Default(String),
    /// the default or the input's, with every field set
    Set(bool, Info),
}

impl Head {
    fn lib(&self, r: Option<&Reader>) -> FileInfo {
        match self {
            Head::Input(p) => {
                let mut i = r.map_or_else(FileInfo::default, |r| r.info().clone());
                i.with_writingprogram_str(p);
                i
            }
            Head::Default(p) => {
                let mut i = FileInfo::default();
                i.with_writingprogram_str(p);
                i
            }
            Head::Set(input, to) => {
                let mut i = match r {
                    Some(r) if *input => r.info().clone(),
                    _ => FileInfo::default(),
                };
                let t = to.to_lib();
                i.with_osmosis_replication_base_url(t.osmosis_replication_base_url());
                i.with_bounding_box(t.bounding_box());
                i.with_required_features(t.required_features());
                i.with_writingprogram(t.writingprogram());
                i.with_source(t.source());
                i.with_optional_features(t.optional_features());
                i.with_osmosis_replication_sequence_number(t.osmosis_replication_sequence_number());
                i.with_osmosis_replication_timestamp(t.osmosis_replication_timestamp());
                i
            }
        }
    }
    fn model(&self, input: Option<&Info>) -> Info {
        let dflt = || Info { program: None, ..Info::basic() };
        match self {
            Head::Input(p) => Info { program: Some(p.clone()), ..input.cloned().unwrap_or_else(dflt) },
            Head::Default(p) => Info { program: Some(p.clone()), ..dflt() },
            Head::Set(_, i) => i.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Par {
    pub tasks: usize,
    /// ordering buffer = block + slack; none: it holds all elements
    pub slack: Option<usize>,
    pub block: usize,
    /// capacity of a thread-local accumulator; none: each element is written by itself
    pub acc: Option<usize>,
    /// the sentinels are written as well
    pub sentinels: bool,
    /// the callback fails at this call
    pub fail_at: Option<u16>,
    pub delay: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Stage {
    /// examples/pbf-io.rs; lists of so many elements if not 0, sentinels written as well
    Seq { filter: Filter, head: Head, zlib: bool, list: u16, sentinels: bool },
    /// examples/parallel-pbf-io.rs
    Par { filter: Filter, head: Head, zlib: bool, par: Par },
    /// examples/pbf-to-apidb.rs, then examples/apidb-to-pbf.rs
    Dump { filter: Filter, head: Head, zlib: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PipeCase {
    pub seq: Seq,
    /// lengths of the source's blocks, repeated
    pub blocks: Vec<u16>,
    pub comp: Comp,
    pub info: Info,
    pub stages: Vec<Stage>,
}

fn source(els: &[El], blocks: &[u16], comp: Comp, info: &Info) -> EFile {
    let mut out = vec![];
    let (mut i, mut k) = (0, 0);
    while i < els.len() {
        let mut n = blocks.get(k % blocks.len().max(1)).map_or(8000, |n| *n as usize);
        if els.len() > 2000 {
            n = n.max(50);
        }
        // an empty block now and then, but not for ever
        if n == 0 && k > 8 {
            n = 1;
        }
        let j = (i + n).min(els.len());
        out.push(EBlock::plain(els[i..j].to_vec(), comp));
        i = j;
        k += 1;
    }
    EFile { info: info.clone(), head_comp: comp, blocks: out, salt: 0 }
}

fn seq_stage(from: &Path, to: &Path, filter: Filter, head: &Head, zlib: bool, list: u16, sentinels: bool) -> Result<(), anyhow::Error> {
    let reader = Reader::new(from)?;
    let mut writer = Writer::from_file_info(to.to_path_buf(), head.lib(Some(&reader)), comp(zlib))?;
    writer.write_header()?;
    let mut pending = vec![];
    for element in reader.elements()? {
        let e = if element.is_sentinel() {
            if !sentinels {
                continue;
            }
            element
        } else {
            match filter.lib(element) {
                Some(e) => e,
                None => continue,
            }
        };
        if list == 0 {
            writer.write_element(e)?;
        } else {
            pending.push(e);
            if pending.len() >= list as usize {
                writer.write_elements(std::mem::take(&mut pending))?;
            }
        }
    }
    writer.write_elements(pending)?;
    writer.close()
}

struct ParResult {
    iteration: Result<(), String>,
    close: Result<(), String>,
    /// nodes, ways, relations, tags, sentinels delivered
    counts: [u64; 5],
    /// the callback that was to fail was reached
    failed: bool,
}

fn par_stage(from: &Path, to: &Path, filter: Filter, head: &Head, zlib: bool, p: &Par, buffer: usize, block: usize) -> Result<ParResult, anyhow::Error> {
    let reader = Reader::new(from)?;
    let writer = Arc::new(Mutex::new(ParallelWriter::from_file_info(buffer, block, to.to_path_buf(), head.lib(Some(&reader)), comp(zlib))?));
    let writer_clone = writer.clone();
    let acc = p.acc.map(ThreadLocalAccumulator::new);
    writer.lock().unwrap().write_header()?;
    let counts: Arc<[AtomicU64; 5]> = Arc::new(Default::default());
    let counts_clone = counts.clone();
    let calls = Arc::new(AtomicUsize::new(0));
    let calls_clone = calls.clone();
    let (fail_at, delay, sentinels) = (p.fail_at.map(|f| f as usize), p.delay, p.sentinels);
    let iteration = reader.parallel_for_each(p.tasks, move |element| {
        let n = calls.fetch_add(1, Ordering::SeqCst);
        if delay != 0 {
            jitter(mix(delay ^ n as u64));
        }
        if fail_at == Some(n) {
            return Err(anyhow::anyhow!("the callback fails"));
        }
        let (k, tags) = match &element {
            Element::Node { node } => (0, node.tags().len()),
            Element::Way { way } => (1, way.tags().len()),
            Element::Relation { relation } => (2, relation.tags().len()),
            Element::Sentinel => (4, 0),
        };
        counts[k].fetch_add(1, Ordering::SeqCst);
        counts[3].fetch_add(tags as u64, Ordering::SeqCst);
        if element.is_sentinel() {
            if let Some(acc) = &acc {
                let mut v = acc.elements();
                if sentinels {
                    v.push(element);
                }
                writer.lock().unwrap().write_elements(v)?;
            } else if sentinels {
                writer.lock().unwrap().write_element(element)?;
            }
            return Ok(());
        }
        if let Some(e) = filter.lib(element) {
            match &acc {
                Some(acc) => acc.add(e),
                None => writer.lock().unwrap().write_element(e)?,
            }
        }
        Ok(())
    });
    let iteration = iteration.map_err(|e| format!("{e:#}"));
    let close = catch(|| writer_clone.lock().unwrap_or_else(|p| p.into_inner()).close());
    let close = match close {
        Ok(r) => r.map_err(|e| format!("{e:#}")),
        Err(p) => Err(format!("close panicked: {p}")),
    };
    let failed = fail_at.is_some_and(|f| calls_clone.load(Ordering::SeqCst) > f);
    let counts = std::array::from_fn(|i| counts_clone[i].load(Ordering::SeqCst));
    Ok(ParResult { iteration, close, counts, failed })
}

fn to_dump(from: &Path, dump: &Path, filter: Filter) -> Result<(), anyhow::Error> {
    let reader = Reader::new(from)?;
    let mut writer = DumpWriter::new(dump.to_path_buf(), 0)?;
    for element in reader.elements()? {
        if let Some(e) = filter.lib(element) {
            writer.write_element(e)?;
        }
    }
    writer.close()
}

fn from_dump(dump: &Path, tmp: &Path, to: &Path, head: &Head, zlib: bool) -> Result<(), anyhow::Error> {
    let reader = open_dump(dump, tmp)?;
    let mut writer = Writer::from_file_info(to.to_path_buf(), head.lib(None), comp(zlib))?;
    writer.write_header()?;
    for element in reader.elements()? {
        writer.write_element(element)?;
    }
    writer.close()
}

fn ok(what: &str, r: Result<Result<(), anyhow::Error>, String>) -> R {
    r.map_err(|p| format!("{what} panicked: {p} {:?}", panics()))?.map_err(|e| format!("{what} failed: {e:#}"))
}

fn check(to: &Path, zlib: bool, info: &Info, els: &[El], sorted_tags: bool) -> R {
    let (i, got) = decode_file(to, zlib)?;
    if i != *info {
        return Err(format!("the output's header is {i:?} instead of {info:?}"));
    }
    let d = if sorted_tags { diff_els(els, &sort_tags(got)) } else { diff_els(els, &got) };
    d.map_or(Ok(()), Err)
}

pub struct C29;
impl Prop for C29 {
    type Case = PipeCase;
    const ID: &'static str = "C29";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "Sorted files of independently encoded blocks of varied lengths through chains of one to three of the documented pipelines: sequential filter, parallel filter (accumulator or single elements, any tasks, buffers and capacities, delays, failing callbacks), conversion to a dump and back; with filters by type, tag, visibility, hash and ones that strip tags or users, headers cloned, defaulted or set field by field. Every intermediate file is decoded independently. Non-trivial: elements of at least two blocks pass a filter that drops some, or there are two stages.";
    const ASSUMPTIONS: &'static [&'static str] = &["thread schedules are sampled", "chains with a dump keep to the database's domain (C12)"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 2500 } else { 50_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<PipeCase> {
        (prop::bool::weighted(0.8), stages()).prop_flat_map(|(pbf, stages)| {
            let stages = if pbf && stages.iter().any(|s| !matches!(s, Stage::Dump { .. })) {
                stages.into_iter().filter(|s| !matches!(s, Stage::Dump { .. })).collect::<Vec<_>>()
            } else {
                stages
            };
            let dom = if stages.iter().any(|s| matches!(s, Stage::Dump { .. })) { Dom::Db } else { Dom::Pbf };
            let sizes = if dom == Dom::Db { vec![40, 200] } else { vec![40, 300, 2000, 9000] };
            let blocks = prop_oneof![
                3 => prop::collection::vec(prop_oneof![1 => Just(0u16), 4 => 1u16..6, 2 => 6u16..200], 1..6),
                1 => Just(vec![8000u16]),
            ];
            (seq(dom, 40, 15, sizes), blocks, crate::enc::comp(), prop_oneof![Just(Info::basic()), info()])
                .prop_map(move |(seq, blocks, comp, info)| PipeCase { seq, blocks, comp, info, stages: stages.clone() })
        })
        .boxed()
    }
    fn run(c: &PipeCase, ctx: &mut Ctx) -> R {
        let dump = c.stages.iter().any(|s| matches!(s, Stage::Dump { .. }));
        let mut els = c.seq.all(if dump { Dom::Db } else { Dom::Pbf });
        let mut info = c.info.clone();
        let mut from = ctx.path("0.osm.pbf");
        let src = source(&els, &c.blocks, c.comp, &c.info);
        let mut nblocks = Some(src.blocks.len());
        src.write(&from, 0)?;
        let mut sorted_tags = false;
        ctx.nontrivial(c.stages.len() > 1);
        for (k, s) in c.stages.iter().enumerate() {
            let to = ctx.path(&format!("{}.osm.pbf", k + 1));
            let filter = match s {
                Stage::Seq { filter, .. } | Stage::Par { filter, .. } | Stage::Dump { filter, .. } => *filter,
            };
            let pass: Vec<El> = els.iter().filter_map(|e| filter.model(e)).collect();
            ctx.nontrivial(nblocks.is_some_and(|n| n > 1) && pass.len() > 1 && pass.len() < els.len());
            ctx.when(pass.is_empty() && !els.is_empty(), "nothing passes");
            let at = |e: String| format!("stage {k}: {e}");
            match s {
                Stage::Seq { head, zlib, list, sentinels, .. } => {
                    ctx.label("sequential");
                    ok("sequential pipeline", catch(|| seq_stage(&from, &to, filter, head, *zlib, *list, *sentinels))).map_err(at)?;
                    info = head.model(Some(&info));
                    check(&to, *zlib, &info, &pass, sorted_tags).map_err(at)?;
                }
                Stage::Par { head, zlib, par, .. } => {
                    let block = block_for(els.len(), par.block);
                    let buffer = block + par.slack.unwrap_or(els.len());
                    ctx.label("parallel");
                    let r = catch(|| par_stage(&from, &to, filter, head, *zlib, par, buffer, block))
                        .map_err(|p| format!("stage {k}: parallel pipeline panicked: {p} {:?}", panics()))?
                        .map_err(|e| format!("stage {k}: parallel pipeline failed: {e:#}"))?;
                    info = head.model(Some(&info));
                    if r.failed {
                        ctx.label("callback fails");
                        let e = match r.iteration {
                            Ok(()) => return Err(at("parallel_for_each succeeded although the callback failed".into())),
                            Err(e) => e,
                        };
                        let _ = e;
                        // what was written by then is in the file, if closing succeeded
                        if r.close.is_ok() {
                            let (i, got) = decode_file(&to, *zlib).map_err(|e| at(format!("after a failed callback: {e}")))?;
                            if i != info {
                                return Err(at(format!("after a failed callback the header is {i:?} instead of {info:?}")));
                            }
                            let mut rest = pass.iter();
                            for g in &got {
                                let g = if sorted_tags { sort_tags(vec![g.clone()]).remove(0) } else { g.clone() };
                                if !rest.any(|e| *e == g) {
                                    return Err(at(format!("after a failed callback the output has {:?}, which is out of order or was not written", g.key())));
                                }
                            }
                        }
                        return Ok(());
                    }
                    // the elements arrive no later than all of them
                    let enough = buffer - block >= pass.len();
                    match (&r.iteration, &r.close) {
                        (Ok(()), Ok(())) => {
                            let n = |k: u8| els.iter().filter(|e| e.rank() == k).count() as u64;
                            let tags = els.iter().map(|e| e.m.tags.len() as u64).sum::<u64>();
                            if r.counts[..4] != [n(0), n(1), n(2), tags] {
                                return Err(at(format!("callbacks counted {:?}, the input has {:?}", &r.counts[..4], [n(0), n(1), n(2), tags])));
                            }
                            if nblocks.is_some_and(|b| b as u64 != r.counts[4]) {
                                return Err(at(format!("{} sentinels for {nblocks:?} blocks", r.counts[4])));
                            }
                            ctx.when(enough, "buffer holds all");
                            ctx.when(!enough, "smaller buffer, complete");
                            check(&to, *zlib, &info, &pass, sorted_tags).map_err(at)?;
                        }
                        (i, c) if enough => return Err(at(format!("the buffer of {buffer} for blocks of {block} holds all {} elements, but: iteration {i:?}, close {c:?}", pass.len()))),
                        _ => {
                            ctx.label("smaller buffer, failure");
                            return Ok(());
                        }
                    }
                }
                Stage::Dump { head, zlib, .. } => {
                    ctx.label("through a dump");
                    let d = ctx.path(&format!("{k}-dump"));
                    ok("conversion to a dump", catch(|| to_dump(&from, &d, filter))).map_err(at)?;
                    ok("conversion from a dump", catch(|| from_dump(&d, &ctx.path(&format!("{k}-tmp")), &to, head, *zlib))).map_err(at)?;
                    info = head.model(None);
                    sorted_tags = true;
                    check(&to, *zlib, &info, &sort_tags(pass.clone()), true).map_err(at)?;
                }
            }
            els = if sorted_tags { sort_tags(pass) } else { pass };
            nblocks = None;
            // what the reader says of the file
            let r = catch(|| Reader::new(&to)).map_err(|p| format!("stage {k}: opening the output panicked: {p}"))?.map_err(|e| format!("stage {k}: opening the output failed: {e:#}"))?;
            if let Some(d) = info.diff(r.info()) {
                return Err(at(d));
            }
            for f in info.required.iter().chain(&info.optional).map(|s| s.as_str()).chain(["", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"]) {
                let want = (info.required.iter().any(|x| x == f), info.optional.iter().any(|x| x == f));
                if (r.info().required(f), r.info().optional(f)) != want {
                    return Err(at(format!("feature {f:?}: required and optional are {:?} instead of {want:?}", (r.info().required(f), r.info().optional(f)))));
                }
            }
            from = to;
        }
        Ok(())
    }
}

fn filter() -> BoxedStrategy<Filter> {
    prop_oneof![
        2 => Just(Filter::Keep),
        1 => Just(Filter::Nothing),
        2 => (0u8..3).prop_map(Filter::Kind),
        2 => (0u8..8).prop_map(Filter::Tag),
        4 => (any::<u64>(), 1u8..8).prop_map(|(s, n)| Filter::Hash(s, n)),
        1 => Just(Filter::Visible),
        1 => Just(Filter::Refers),
        1 => Just(Filter::Untag),
        1 => Just(Filter::Anonymous),
    ]
    .boxed()
}

fn head() -> BoxedStrategy<Head> {
    prop_oneof![
        3 => text(Dom::Pbf).prop_map(Head::Input),
        1 => text(Dom::Pbf).prop_map(Head::Default),
        1 => (any::<bool>(), info()).prop_map(|(b, i)| Head::Set(b, i)),
    ]
    .boxed()
}

fn stage() -> BoxedStrategy<Stage> {
    let tasks = prop_oneof![1 => Just(1usize), 2 => Just(2usize), 4 => 3usize..9, 1 => 9usize..20];
    let slack = prop_oneof![3 => Just(None), 1 => (0usize..6).prop_map(Some), 1 => (6usize..300).prop_map(Some)];
    let block = prop_oneof![2 => 1usize..4, 3 => 4usize..30, 2 => prop::sample::select(vec![100usize, 1000, 8000])];
    let acc = prop_oneof![1 => Just(None), 3 => prop::sample::select(vec![0usize, 1, 7, 8000]).prop_map(Some)];
    let fail = prop_oneof![6 => Just(None), 1 => (0u16..60).prop_map(Some)];
    let par = (tasks, slack, block, acc, prop::bool::weighted(0.3), fail, prop_oneof![2 => Just(0u64), 1 => 1u64..])
        .prop_map(|(tasks, slack, block, acc, sentinels, fail_at, delay)| Par { tasks, slack, block, acc, sentinels, fail_at, delay });
    prop_oneof![
        2 => (filter(), head(), any::<bool>(), prop_oneof![2 => Just(0u16), 1 => 1u16..50], any::<bool>()).prop_map(|(filter, head, zlib, list, sentinels)| Stage::Seq { filter, head, zlib, list, sentinels }),
        5 => (filter(), head(), any::<bool>(), par).prop_map(|(filter, head, zlib, par)| Stage::Par { filter, head, zlib, par }),
        2 => (filter(), head(), any::<bool>()).prop_map(|(filter, head, zlib)| Stage::Dump { filter, head, zlib }),
    ]
    .boxed()
}

fn stages() -> BoxedStrategy<Vec<Stage>> {
    prop_oneof![2 => stage().prop_map(|s| vec![s]), 1 => prop::collection::vec(stage(), 2..4)].boxed()
}
