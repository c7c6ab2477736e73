//! Properties of parallel iteration, the parallel writer, bounding boxes and accumulators.
use crate::driver::*;
use crate::enc::{diff_want, efile, joined, EBlock, EFile};
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::props::pbf::under_load;
use crate::wire::{self, Comp};
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::Path;
use std::str::FromStr;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;

fn canon(e: &Element) -> String {
    match from_lib(e) {
        Ok(f) => format!("{:?} {:?}", f.el, f.raw),
        Err(m) => format!("?{m} {e:?}"),
    }
}

/// A short deterministic delay decided by a hash: usually none.
pub fn jitter(h: u64) {
    match h % 64 {
        0 => std::thread::sleep(std::time::Duration::from_micros(200)),
        1..=3 => std::thread::yield_now(),
        4 => {
            let mut x = h;
            for _ in 0..3000 {
                x = mix(x);
            }
            std::hint::black_box(x);
        }
        _ => {}
    }
}

/// File contents for parallel reading: arbitrary conforming files, or many small blocks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PFile {
    Any(EFile),
    Many { blocks: u32, per: u8, salt: u64 },
}

impl PFile {
    pub fn file(&self) -> EFile {
        match self {
            PFile::Any(f) => f.clone(),
            PFile::Many { blocks, per, salt } => {
                let mut v = vec![];
                let kind_of = |b: u32| (b as u64 * 3 / (*blocks).max(1) as u64) as u8;
                for b in 0..*blocks {
                    let n = if *per == 0 { 0 } else { (mix(*salt ^ b as u64) % (*per as u64 + 1)) as usize };
                    let els = expand(&Bulk { kind: kind_of(b), n, start: 1 + b as i64 * 100, step: 1, salt: salt ^ b as u64, vocab: 5, versions: 1, heavy: 0, wide: false });
                    v.push(els);
                }
                EFile::plain(v, Comp::Raw)
            }
        }
    }
}

pub fn pfile(many: Vec<u32>) -> BoxedStrategy<PFile> {
    prop_oneof![
        4 => joined(efile(1500, false)).prop_map(PFile::Any),
        1 => (prop::sample::select(many), 0u8..4, any::<u64>(), 0u32..9).prop_map(|(b, per, salt, j)| PFile::Many { blocks: b + j, per, salt }),
    ]
    .boxed()
}

pub fn tasks() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 3 => Just(2usize), 4 => 3usize..9, 1 => 9usize..24, 1 => Just(40usize)].boxed()
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IterCase {
    pub file: PFile,
    pub tasks: Vec<usize>,
    pub delay: u64,
    /// run the iterations at the same time on one reader
    pub together: bool,
    /// so many 32 MiB blocks of an unknown type before every block, as holes in the file
    #[serde(default)]
    pub far: u32,
}

#[derive(Default)]
struct Log {
    by_thread: HashMap<ThreadId, Vec<Element>>,
}

fn par_log(r: &Reader, tasks: usize, delay: u64) -> Result<HashMap<ThreadId, Vec<Element>>, String> {
    let log = Arc::new(Mutex::new(Log::default()));
    let inside = Arc::new(AtomicI64::new(0));
    let (l2, i2) = (log.clone(), inside.clone());
    let k = AtomicUsize::new(0);
    catch(|| {
        r.parallel_for_each(tasks, move |e| {
            i2.fetch_add(1, Ordering::SeqCst);
            let n = k.fetch_add(1, Ordering::Relaxed) as u64;
            if delay != 0 {
                jitter(mix(delay ^ n));
            }
            l2.lock().unwrap().by_thread.entry(std::thread::current().id()).or_default().push(e);
            if delay != 0 {
                jitter(mix(delay ^ !n));
            }
            i2.fetch_sub(1, Ordering::SeqCst);
            Ok(())
        })
    })
    .map_err(|p| format!("parallel_for_each panicked: {p}"))?
    .map_err(|e| format!("parallel_for_each failed: {e:#}"))?;
    let n = inside.load(Ordering::SeqCst);
    if n != 0 {
        return Err(format!("parallel_for_each returned while {n} callbacks were running"));
    }
    let g = std::mem::take(&mut log.lock().unwrap().by_thread);
    Ok(g)
}

fn check_log(log: &HashMap<ThreadId, Vec<Element>>, seq: &[Element], sizes: &[usize]) -> R {
    let mut want: Vec<String> = seq.iter().map(canon).collect();
    let mut got: Vec<String> = log.values().flatten().filter(|e| !e.is_sentinel()).map(canon).collect();
    let blocks_want: Option<Vec<Vec<String>>> = (sizes.iter().sum::<usize>() == want.len()).then(|| {
        let mut i = 0;
        sizes
            .iter()
            .map(|n| {
                let mut v = want[i..i + n].to_vec();
                i += n;
                v.sort();
                v
            })
            .collect()
    });
    want.sort();
    got.sort();
    if want != got {
        let miss = want.iter().find(|w| got.binary_search(w).is_err());
        let extra = got.iter().find(|w| want.binary_search(w).is_err());
        return Err(format!(
            "parallel iteration delivered {} elements, sequential {}; missing e.g. {miss:?}, surplus e.g. {extra:?}",
            got.len(),
            want.len()
        ));
    }
    let mut chunks: Vec<Vec<String>> = vec![];
    for v in log.values() {
        let mut cur = vec![];
        for e in v {
            if e.is_sentinel() {
                cur.sort();
                chunks.push(std::mem::take(&mut cur));
            } else {
                cur.push(canon(e));
            }
        }
        if !cur.is_empty() {
            return Err(format!("{} elements on a thread are not followed by a sentinel", cur.len()));
        }
    }
    if chunks.len() != sizes.len() {
        return Err(format!("{} sentinels for {} data blocks", chunks.len(), sizes.len()));
    }
    if let Some(mut b) = blocks_want {
        b.sort();
        chunks.sort();
        if b != chunks {
            return Err("the elements between sentinels on a thread are not those of a data block".into());
        }
    }
    Ok(())
}

pub struct C05;
impl Prop for C05 {
    type Case = IterCase;
    const ID: &'static str = "C05";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "Independently encoded conforming files (mixed, empty and unknown blocks, runs of empty blocks, and files of up to thousands of small blocks, more than the 1024-entry work queue) x lists of task counts from 1 to 40 run one after the other or at the same time on one reader, with pseudo-random delays inside the callback. Non-trivial: at least two data blocks and two tasks.";
    const ASSUMPTIONS: &'static [&'static str] = &["thread schedules are sampled: OS scheduling plus random delays in the callback, not enumerated"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 900 } else { 15_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<IterCase> {
        let many = if t == Tier::Quick { vec![3, 30, 300, 1020, 1200] } else { vec![3, 30, 300, 1020, 1024, 1200, 5000] };
        (pfile(many), prop::collection::vec(tasks(), 1..3), prop_oneof![1 => Just(0u64), 2 => 1u64..], prop::bool::weighted(0.2))
            .prop_map(|(file, tasks, delay, together)| IterCase { file, tasks, delay, together, far: 0 })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<IterCase> {
        vec![
            IterCase { file: PFile::Any(crate::props::pbf::far_file(Comp::Raw)), tasks: vec![3], delay: 0, together: false, far: 70 },
            IterCase { file: PFile::Many { blocks: 20_000, per: 1, salt: 5 }, tasks: vec![4], delay: 0, together: false, far: 0 },
        ]
    }
    fn run(c: &IterCase, ctx: &mut Ctx) -> R {
        let f = c.file.file();
        let p = ctx.path("a.osm.pbf");
        f.write(&p, c.far)?;
        ctx.when(c.far > 0, "blocks beyond 4 GiB");
        let mut sizes = vec![];
        for b in f.blocks.iter().filter(|b| b.unknown.is_none()) {
            let n = b.groups.iter().map(|g| g.els.len()).sum::<usize>();
            sizes.extend(std::iter::repeat(n).take(b.repeat as usize));
        }
        ctx.when(sizes.len() > 1024, "more blocks than the work queue holds");
        ctx.when(c.tasks.iter().any(|t| *t > sizes.len()), "more tasks than blocks");
        ctx.when(sizes.contains(&0), "has empty data block");
        ctx.when(c.tasks.contains(&1), "one task");
        ctx.when(c.together && c.tasks.len() > 1, "two iterations at once");
        ctx.nontrivial(sizes.len() >= 2 && c.tasks.iter().any(|t| *t >= 2));
        let (r, seq) = read_seq(&p)?;
        let one = |r: &Reader, t: usize| -> R {
            let log = par_log(r, t, c.delay)?;
            check_log(&log, &seq, &sizes).map_err(|e| format!("{t} tasks: {e}"))
        };
        if c.together {
            std::thread::scope(|s| {
                let hs: Vec<_> = c.tasks.iter().map(|t| { let r = r.clone(); s.spawn(move || one(&r, *t)) }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect::<R>()
            })?;
        } else {
            for t in &c.tasks {
                one(&r, *t)?;
            }
        }
        let n = catch(|| r.count_objects()).map_err(|p| format!("count_objects panicked: {p}"))?.map_err(|e| format!("count_objects failed: {e:#}"))?;
        let cnt = |k: u8| seq.iter().filter(|e| key_lib(e).0 == k).count() as i64;
        let want = (cnt(0), cnt(1), cnt(2));
        if n != want {
            return Err(format!("count_objects reports {n:?}, sequential reading yields {want:?}"));
        }
        let again = catch(|| r.elements().map(|it| it.count())).map_err(|p| format!("second sequential reading panicked: {p}"))?.map_err(|e| e.to_string())?;
        if again != seq.len() {
            return Err(format!("second sequential reading yields {again} elements instead of {}", seq.len()));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C06 / C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Disorder {
    /// sort by position + random displacement up to the bound
    Jitter(u64),
    /// each run of bound+1 elements reversed
    Reversed,
    /// elements at a stride arrive exactly as late as allowed
    Late { stride: u16, first: u16 },
    /// runs (as blocks read in parallel) interleaved: run i of length r is emitted by one of t workers
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParCase {
    pub seq: Seq,
    pub block: usize,
    /// ordering buffer = block + slack
    pub slack: usize,
    pub disorder: Disorder,
    pub batching: Vec<u16>,
    /// positions (mod length+1) of sentinels in the stream
    pub sentinels: Vec<u16>,
    pub zlib: bool,
    pub info: Info,
    pub load: u8,
    pub delay: u64,
}

/// Arrival order: a permutation of 0..n in which every element has at most `bound` larger ones before it.
fn arrival(n: usize, bound: usize, d: &Disorder) -> Vec<usize> {
    match d {
        Disorder::None => (0..n).collect(),
        Disorder::Jitter(s) => {
            let mut v: Vec<(usize, usize)> = (0..n).map(|i| (i + (mix(s ^ i as u64) % (bound as u64 + 1)) as usize, i)).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        }
        Disorder::Reversed => {
            let mut v: Vec<usize> = (0..n).collect();
            for c in v.chunks_mut(bound + 1) {
                c.reverse();
            }
            v
        }
        Disorder::Late { stride, first } => {
            let stride = (*stride as usize).max(1);
            let first = *first as usize % n.max(1);
            let mut v: Vec<(usize, u8, usize)> = (0..n)
                .map(|i| if i >= first && (i - first) % stride == 0 { (i + bound, 1, i) } else { (i, 0, i) })
                .collect();
            v.sort();
            v.into_iter().map(|x| x.2).collect()
        }
    }
}

/// largest number of larger elements before an element
fn lateness(order: &[usize]) -> usize {
    // Fenwick tree over positions seen
    let n = order.len();
    let mut t = vec![0usize; n + 1];
    let mut worst = 0;
    for (seen, &x) in order.iter().enumerate() {
        let mut i = x + 1;
        let mut le = 0;
        while i > 0 {
            le += t[i];
            i &= i - 1;
        }
        worst = worst.max(seen - le);
        let mut i = x + 1;
        while i <= n {
            t[i] += 1;
            i += i & i.wrapping_neg();
        }
    }
    worst
}

/// Calls with sentinels inserted.
fn calls_with_sentinels(els: &[El], batching: &[u16], sentinels: &[u16]) -> Vec<Call> {
    let mut v: Vec<Element> = els.iter().map(|e| e.to_lib()).collect();
    let mut at: Vec<usize> = sentinels.iter().map(|s| *s as usize % (els.len() + 1)).collect();
    at.sort();
    for p in at.into_iter().rev() {
        v.insert(p, Element::Sentinel);
    }
    split(batching, v.len())
        .into_iter()
        .map(|(single, r)| if single { Call::One(v[r.start].clone()) } else { Call::Many(v[r].to_vec()) })
        .collect()
}

fn delayed(calls: Vec<Call>, delay: u64) -> impl Iterator<Item = Call> {
    calls.into_iter().enumerate().map(move |(i, c)| {
        if delay != 0 {
            jitter(mix(delay ^ i as u64));
        }
        c
    })
}

/// Decode a file with the independent decoder.
pub fn decode_file(p: &Path, zlib: bool) -> Result<(Info, Vec<El>), String> {
    let b = std::fs::read(p).map_err(|e| format!("reading the output: {e}"))?;
    let blocks = wire::split_file(&b)?;
    let mut info = None;
    let mut els = vec![];
    for (i, b) in blocks.iter().enumerate() {
        if (b.comp == "zlib") != zlib {
            return Err(format!("block {i} is stored {} although zlib={zlib}", b.comp));
        }
        match b.ty.as_str() {
            "OSMHeader" if i == 0 => info = Some(wire::decode_header(&b.payload)?),
            "OSMData" if i > 0 => els.extend(wire::decode_data(&b.payload).map_err(|e| format!("block {i}: {e}"))?.groups.into_iter().flatten()),
            t => return Err(format!("block {i} of type {t:?}")),
        }
    }
    Ok((info.ok_or("no header block")?, els))
}

/// A parallel writer's domain keeps small blocks for small inputs only.
pub fn block_for(n: usize, block: usize) -> usize {
    if n > 3000 {
        block.max(100)
    } else if n > 300 {
        block.max(5)
    } else {
        block
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = ParCase;
    const ID: &'static str = "C06";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "Sorted element sequences permuted so that no element comes after more than (buffer - block) larger ones (random jitter, reversed runs, single elements exactly as late as allowed), cut into write_element/write_elements calls, with sentinels inserted, for block sizes 1..8000+ and buffers from the block size up, with random delays between calls and busy threads. Non-trivial: the order really differs from the sorted one and more than one block results.";
    const ASSUMPTIONS: &'static [&'static str] = &["interleavings of the ordering, encoding and writing threads are sampled, not enumerated"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3000 } else { 50_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ParCase> {
        par_case()
    }
    fn run(c: &ParCase, ctx: &mut Ctx) -> R {
        let els = c.seq.all(Dom::Pbf);
        let block = block_for(els.len(), c.block);
        let order = arrival(els.len(), c.slack, &c.disorder);
        let late = lateness(&order);
        if late > c.slack {
            return Err(format!("harness: lateness {late} above {}", c.slack));
        }
        ctx.when(late > 0, "not in order");
        ctx.when(late > 0 && late == c.slack, "as late as the buffer allows");
        ctx.when(c.slack == 0, "buffer equals block");
        ctx.when(!c.sentinels.is_empty(), "sentinels in the stream");
        ctx.when(els.len() > block + c.slack, "more elements than the buffer");
        ctx.when(block > 8000, "block size above 8000");
        ctx.nontrivial(late > 0 && els.len() > block);
        let stream: Vec<El> = order.iter().map(|i| els[*i].clone()).collect();
        let calls = calls_with_sentinels(&stream, &c.batching, &c.sentinels);
        let p = ctx.path("o.osm.pbf");
        under_load(c.load, || write_par(&p, &c.info, block + c.slack, block, c.zlib, delayed(calls, c.delay)))?;
        let (i, got) = decode_file(&p, c.zlib)?;
        if i != c.info {
            return Err(format!("header {i:?} instead of {:?}", c.info));
        }
        match diff_els(&els, &got) {
            None => Ok(()),
            Some(d) => Err(d),
        }
    }
}

fn par_case() -> BoxedStrategy<ParCase> {
    let block = prop_oneof![3 => 1usize..4, 3 => 4usize..20, 2 => prop::sample::select(vec![50usize, 100, 1000, 7999, 8000]), 1 => prop::sample::select(vec![8001usize, 20_000])];
    let slack = prop_oneof![2 => Just(0usize), 4 => 1usize..6, 3 => 6usize..60, 1 => 60usize..4000];
    let disorder = prop_oneof![
        4 => any::<u64>().prop_map(Disorder::Jitter),
        2 => Just(Disorder::Reversed),
        3 => (1u16..30, any::<u16>()).prop_map(|(stride, first)| Disorder::Late { stride, first }),
        1 => Just(Disorder::None),
    ];
    (
        (seq(Dom::Pbf, 40, 25, vec![30, 60, 120, 500, 2000, 9000]), block, slack, disorder),
        (batching(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..6)], any::<bool>()),
        (prop_oneof![3 => Just(Info::basic()), 1 => info()], prop_oneof![5 => Just(0u8), 1 => 1u8..5], prop_oneof![2 => Just(0u64), 1 => 1u64..]),
    )
        .prop_map(|((seq, block, slack, disorder), (batching, sentinels, zlib), (info, load, delay))| ParCase { seq, block, slack, disorder, batching, sentinels, zlib, info, load, delay })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WildCase {
    pub seq: Seq,
    pub block: usize,
    pub buffer: usize,
    /// None: shuffled with this seed; otherwise displacement up to the given bound
    pub shuffle: u64,
    pub bound: Option<usize>,
    /// give every element that many copies (equal keys)
    pub copies: u8,
    pub batching: Vec<u16>,
    pub sentinels: Vec<u16>,
    pub zlib: bool,
    pub delay: u64,
}

pub struct C07;
impl Prop for C07 {
    type Case = WildCase;
    const ID: &'static str = "C07";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "Element sequences in arbitrary order (full shuffles and displacements around the limit of the buffer), with repeated keys, any batching, buffers from 0 and blocks from 1 up. Success must mean a complete sorted file; otherwise some call must fail. Non-trivial: the order cannot have been sorted from the start and there are more elements than the buffer holds.";
    const ASSUMPTIONS: &'static [&'static str] = &["interleavings of the internal threads are sampled, not enumerated"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3000 } else { 50_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<WildCase> {
        let buffer = prop_oneof![2 => Just(0usize), 3 => 1usize..8, 3 => 8usize..80, 1 => 80usize..5000];
        let block = prop_oneof![3 => 1usize..4, 3 => 4usize..20, 2 => prop::sample::select(vec![50usize, 1000, 8000])];
        (
            (seq(Dom::Pbf, 30, 25, vec![10, 30, 100, 500, 3000]), block, buffer, any::<u64>(), prop::option::weighted(0.75, prop_oneof![2 => 0usize..6, 2 => 6usize..100, 1 => 100usize..3000])),
            (prop_oneof![4 => Just(1u8), 1 => 2u8..4], batching(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..6)], any::<bool>(), prop_oneof![2 => Just(0u64), 1 => 1u64..]),
        )
            .prop_map(|((seq, block, buffer, shuffle, bound), (copies, batching, sentinels, zlib, delay))| WildCase { seq, block, buffer, shuffle, bound, copies, batching, sentinels, zlib, delay })
            .boxed()
    }
    fn run(c: &WildCase, ctx: &mut Ctx) -> R {
        let base = c.seq.all(Dom::Pbf);
        let mut els = vec![];
        for e in &base {
            for k in 0..c.copies {
                let mut e = e.clone();
                e.m.changeset = e.m.changeset.wrapping_add(k as i64);
                els.push(e);
            }
        }
        let block = block_for(els.len(), c.block);
        let order: Vec<usize> = match c.bound {
            Some(b) => arrival(els.len(), b, &Disorder::Jitter(c.shuffle)),
            None => {
                let mut v: Vec<usize> = (0..els.len()).collect();
                v.sort_by_key(|i| mix(c.shuffle ^ *i as u64));
                v
            }
        };
        let late = lateness(&order);
        ctx.nontrivial(late > 0 && els.len() > c.buffer);
        let stream: Vec<El> = order.iter().map(|i| els[*i].clone()).collect();
        let calls = calls_with_sentinels(&stream, &c.batching, &c.sentinels);
        let p = ctx.path("o.osm.pbf");
        match write_par(&p, &Info::basic(), c.buffer, block, c.zlib, delayed(calls, c.delay)) {
            Err(_) => {
                ctx.label("a failure was reported");
                Ok(())
            }
            Ok(()) => {
                ctx.label(if late > 0 { "order restored" } else { "arrived in order" });
                let (_, got) = decode_file(&p, c.zlib).map_err(|e| format!("every call succeeded but {e}"))?;
                if let Some(w) = got.windows(2).find(|w| w[0].key() > w[1].key()) {
                    return Err(format!("every call succeeded but {:?} stands before {:?} in the file", w[0].key(), w[1].key()));
                }
                let mut a: Vec<String> = els.iter().map(|e| format!("{e:?}")).collect();
                let mut b: Vec<String> = got.iter().map(|e| format!("{e:?}")).collect();
                a.sort();
                b.sort();
                if a != b {
                    return Err(format!("every call succeeded but the file holds {} elements instead of {}, or different ones", b.len(), a.len()));
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BoxCase {
    File { file: PFile },
    /// nodes laid out in blocks, an extreme at a chosen place
    Nodes { blocks: Vec<Vec<(i64, i64)>>, ways: bool },
    Merge { pts: Vec<(f64, f64)>, perm: u64, tree: Vec<u8> },
    Parse { s: String },
}

fn box_bits(b: &BoundingBox) -> [f64; 4] {
    [b.left(), b.bottom(), b.right(), b.top()]
}

fn same(a: [f64; 4], b: [f64; 4]) -> bool {
    a.iter().zip(&b).all(|(x, y)| x == y)
}

fn number() -> BoxedStrategy<String> {
    let space = || prop::sample::select(vec!["", "", "", " ", "  ", "\t", "\n", "\u{a0}", " \t "]);
    let core = prop_oneof![
        6 => (-180_0000000i64..=180_0000000).prop_map(|v| format!("{}", v as f64 / 1e7)),
        4 => (-90_0000000i64..=90_0000000).prop_map(|v| format!("{}", v as f64 / 1e7)),
        3 => prop::sample::select(vec!["180", "-180", "180.0", "90", "-90", "90.0", "0", "-0", "-0.0", "1e1", "+5", ".5", "5.", "180.0000001", "-180.0000001", "90.0000001", "-90.0000001", "90.00000000000001", "181", "91", "1e308"]).prop_map(String::from),
        1 => prop::sample::select(vec!["", "nan", "NaN", "inf", "-inf", "infinity", "x", "1 2", "0x10", "1_0", "--1", "1,", "1;2", "١", "1e", "-", "+", "."]).prop_map(String::from),
    ];
    (space(), core, space()).prop_map(|(a, c, b)| format!("{a}{c}{b}")).boxed()
}

/// The documented grammar, written independently.
fn parse_box(s: &str) -> Option<[f64; 4]> {
    let p: Vec<&str> = s.split(',').collect();
    if p.len() != 4 {
        return None;
    }
    let mut v = [0f64; 4];
    for (i, x) in p.iter().enumerate() {
        let t = x.trim();
        let f: f64 = t.parse().ok()?;
        let lim = if i % 2 == 0 { 180.0 } else { 90.0 };
        if !(f >= -lim && f <= lim) {
            return None;
        }
        v[i] = f;
    }
    Some(v)
}

pub struct C11;
impl Prop for C11 {
    type Case = BoxCase;
    const ID: &'static str = "C11";
    const SHARDS: u32 = 3;
    const RULE: &'static str = "Three kinds of case: files (arbitrary conforming ones, many-block ones, and plain layouts of explicit coordinates on each side of equator and meridian) given to the calculator and compared with the extremes of sequential reading and of the encoder's own coordinates; merge trees over points in random order and association compared with componentwise min/max; strings from a grammar around valid boxes and arbitrary strings compared with an independent parser. Non-trivial: at least two nodes/points, or a string with three commas.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 8_000 } else { 120_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<BoxCase> {
        let f = || prop_oneof![4 => -180.0f64..180.0, 1 => prop::sample::select(vec![0.0, -0.0, 180.0, -180.0, 90.0, -90.0, 1e-9, -1e-9])];
        let pt = (lat(), lon());
        let near = (prop_oneof![Just(1i64), Just(-1)], prop_oneof![Just(1i64), Just(-1)], prop::collection::vec(prop::collection::vec((1i64..900_000_000, 1i64..1_800_000_000), 0..5), 0..6))
            .prop_map(|(sa, so, v)| v.into_iter().map(|b| b.into_iter().map(|(a, o)| (sa * a * 100, so * o * 100)).collect()).collect::<Vec<Vec<(i64, i64)>>>());
        // where axes, poles and the date line meet
        let edge = (prop::sample::select(vec![0i64, 0, 0, 90, -90]), prop::sample::select(vec![0i64, 0, 0, 180, -180])).prop_map(|(a, o)| (a * 1_000_000_000, o * 1_000_000_000));
        let some_edges = prop::collection::vec(prop::collection::vec(prop_oneof![1 => edge, 2 => (-2i64..3, -2i64..3).prop_map(|(a, o)| (a * 100, o * 100)), 2 => (lat(), lon())], 0..4), 0..5);
        let any_nodes = prop::collection::vec(prop::collection::vec(pt, 0..6), 0..7);
        prop_oneof![
            2 => pfile(vec![2, 10, 100]).prop_map(|file| BoxCase::File { file }),
            3 => (prop_oneof![any_nodes.boxed(), near.boxed(), some_edges.boxed()], any::<bool>()).prop_map(|(blocks, ways)| BoxCase::Nodes { blocks, ways }),
            5 => (prop::collection::vec((f(), f()), 1..12), any::<u64>(), prop::collection::vec(any::<u8>(), 12)).prop_map(|(pts, perm, tree)| BoxCase::Merge { pts, perm, tree }),
            8 => prop_oneof![
                6 => prop::collection::vec(number(), 4).prop_map(|v| v.join(",")),
                2 => prop::collection::vec(number(), 0..7).prop_map(|v| v.join(",")),
                1 => any::<String>(),
            ].prop_map(|s| BoxCase::Parse { s }),
        ]
        .boxed()
    }
    fn run(c: &BoxCase, ctx: &mut Ctx) -> R {
        match c {
            BoxCase::File { file } => {
                ctx.label("file");
                bbox_file(&file.file(), ctx)
            }
            BoxCase::Nodes { blocks, ways } => {
                ctx.label("node layout");
                let mut id = 0;
                let mut v: Vec<EBlock> = vec![];
                for (i, b) in blocks.iter().enumerate() {
                    let els: Vec<El> = b
                        .iter()
                        .map(|(lat, lon)| {
                            id += 1;
                            El { m: Meta { id, version: 1, ts: 0, changeset: 1, uid: 1, user: "u".into(), visible: true, tags: vec![] }, b: Body::Node { lat: *lat, lon: *lon } }
                        })
                        .collect();
                    v.push(EBlock::plain(els, if i % 2 == 0 { Comp::Raw } else { Comp::Zlib(1) }));
                    if *ways {
                        id += 1;
                        v.push(EBlock::plain(vec![El { m: Meta { id, version: 1, ts: 0, changeset: 1, uid: 1, user: "u".into(), visible: true, tags: vec![] }, b: Body::Way { refs: vec![1] } }], Comp::Raw));
                    }
                }
                let mut f = EFile::plain(vec![], Comp::Raw);
                f.blocks = v;
                bbox_file(&f, ctx)
            }
            BoxCase::Merge { pts, perm, tree } => {
                ctx.label("merge");
                ctx.nontrivial(pts.len() >= 2);
                let want = pts.iter().fold([f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY], |a, p| [a[0].min(p.1), a[1].min(p.0), a[2].max(p.1), a[3].max(p.0)]);
                let mut order: Vec<usize> = (0..pts.len()).collect();
                order.sort_by_key(|i| mix(perm ^ *i as u64));
                // build boxes by merging points, then boxes
                let mut boxes: Vec<BoundingBox> = vec![];
                for (k, i) in order.iter().enumerate() {
                    let co = Coordinate::new(pts[*i].0, pts[*i].1);
                    let t = tree[k % tree.len()];
                    match boxes.last_mut() {
                        Some(b) if t % 3 == 0 => b.merge_point(&co),
                        Some(b) if t % 3 == 1 => b.merge_bounding_box(&BoundingBox::from_point(&co)),
                        _ => boxes.push(BoundingBox::from_point(&co)),
                    }
                }
                while boxes.len() > 1 {
                    let i = tree[boxes.len() % tree.len()] as usize % boxes.len();
                    let b = boxes.remove(i);
                    let j = tree[(boxes.len() + 5) % tree.len()] as usize % boxes.len();
                    boxes[j].merge_bounding_box(&b);
                }
                let got = box_bits(&boxes[0]);
                if !same(got, want) {
                    return Err(format!("merging gives {got:?} instead of {want:?}"));
                }
                // merging something inside changes nothing
                let mut b = boxes[0].clone();
                b.merge_point(&Coordinate::new(pts[0].0, pts[0].1));
                b.merge_bounding_box(&boxes[0]);
                if !same(box_bits(&b), want) {
                    return Err("merging a contained point changes the box".into());
                }
                Ok(())
            }
            BoxCase::Parse { s } => {
                ctx.label("parse");
                ctx.nontrivial(s.matches(',').count() == 3);
                let want = parse_box(s);
                ctx.when(want.is_some(), "parse: accepted");
                let got = catch(|| BoundingBox::from_str(s)).map_err(|p| format!("parsing {s:?} panicked: {p}"))?;
                match (want, got) {
                    (None, Err(_)) => Ok(()),
                    (Some(w), Ok(g)) if same(w, box_bits(&g)) => Ok(()),
                    (w, g) => Err(format!("parsing {s:?} gives {:?}, expected {w:?}", g.map(|g| box_bits(&g)).map_err(|e| e.to_string()))),
                }
            }
        }
    }
}

fn bbox_file(f: &EFile, ctx: &mut Ctx) -> R {
    let p = ctx.path("b.osm.pbf");
    std::fs::write(&p, f.bytes()).map_err(|e| e.to_string())?;
    let (_, els) = read_seq(&p)?;
    let mut want: Option<[f64; 4]> = None;
    let mut n = 0;
    for e in &els {
        if let Element::Node { node } = e {
            n += 1;
            let (a, o) = (node.coordinate().lat(), node.coordinate().lon());
            let w = want.get_or_insert([o, a, o, a]);
            *w = [w[0].min(o), w[1].min(a), w[2].max(o), w[3].max(a)];
        }
    }
    ctx.nontrivial(n >= 2);
    ctx.when(n == 0, "file without nodes");
    let got = catch(|| BoundingBoxCalculator::new(&p).calc()).map_err(|p| format!("calc panicked: {p}"))?;
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(b)) => Err(format!("a file without nodes has bounding box {:?}", box_bits(&b))),
        (Some(_), Err(e)) => Err(format!("calc failed: {e:#}")),
        (Some(w), Ok(b)) => {
            if !same(w, box_bits(&b)) {
                return Err(format!("calculated {:?}, extremes of the nodes {w:?}", box_bits(&b)));
            }
            // against the encoder's own nanodegrees
            let ws = f.want();
            if diff_want(&ws, &els).is_none() {
                let mut m = [i64::MAX, i64::MAX, i64::MIN, i64::MIN];
                for x in &ws {
                    if let Body::Node { lat, lon } = x.el.b {
                        m = [m[0].min(lon), m[1].min(lat), m[2].max(lon), m[3].max(lat)];
                    }
                }
                for (g, m) in box_bits(&b).iter().zip(&m) {
                    if (g - *m as f64 / NANO).abs() > 1e-11 {
                        return Err(format!("calculated {:?}, encoded extremes {m:?} nanodegrees", box_bits(&b)));
                    }
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AccOp {
    Add(u8),
    Take(u8),
    /// replace the accumulator by a new one (only in lockstep)
    New(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AccCase {
    pub caps: Vec<u16>,
    /// (thread, operation) in lockstep order
    pub ops: Vec<(u8, AccOp)>,
    pub threads: u8,
    /// run the threads' programs freely instead of in lockstep
    pub free: bool,
}

pub struct C20;

/// An accumulator with a number of its own, so that the model can tell replaced ones apart.
struct Acc {
    gen: usize,
    acc: ThreadLocalAccumulator,
}

impl Acc {
    fn new(capacity: usize) -> Acc {
        static GEN: AtomicUsize = AtomicUsize::new(0);
        Acc { gen: GEN.fetch_add(1, Ordering::SeqCst), acc: ThreadLocalAccumulator::new(capacity) }
    }
}

fn acc_el(n: i64, th: usize, acc: usize) -> Element {
    let m = Meta { id: n, version: th as i32 + 1, ts: 0, changeset: acc as i64, uid: 1, user: format!("{n}"), visible: true, tags: vec![] };
    let b = match n % 4 {
        0 => Body::Way { refs: vec![n] },
        1 => Body::Rel { members: vec![(1, n, "r".into())] },
        _ => Body::Node { lat: 0, lon: 0 },
    };
    if n % 7 == 6 {
        return Element::Sentinel;
    }
    El { m, b }.to_lib()
}

impl Prop for C20 {
    type Case = AccCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Histories of add, retrieve and replace-by-a-new-accumulator operations on 1 to 5 accumulators from 1 to 5 real threads, run in an enforced order or freely, against a model with one list per (thread, accumulator); capacities from 0. Non-trivial: at least two accumulators or threads, an add and a retrieval.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6_000 } else { 200_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<AccCase> {
        let op = prop_oneof![8 => (0u8..5).prop_map(AccOp::Add), 3 => (0u8..5).prop_map(AccOp::Take), 1 => (0u8..5, 0u16..20).prop_map(|(a, c)| AccOp::New(a, c))];
        (prop::collection::vec(prop_oneof![3 => 0u16..5, 1 => Just(0u16), 1 => 5u16..9000], 1..6), 1u8..6, any::<bool>(), prop_oneof![4 => prop::collection::vec((0u8..5, op.clone()), 0..60), 1 => prop::collection::vec((0u8..5, op), 60..300)])
            .prop_map(|(caps, threads, free, ops)| AccCase { caps, ops, threads, free })
            .boxed()
    }
    fn run(c: &AccCase, ctx: &mut Ctx) -> R {
        let nt = c.threads.max(1) as usize;
        let na = c.caps.len();
        let adds = c.ops.iter().filter(|o| matches!(o.1, AccOp::Add(_))).count();
        let takes = c.ops.iter().filter(|o| matches!(o.1, AccOp::Take(_))).count();
        ctx.nontrivial((nt > 1 || na > 1) && adds > 0 && takes > 0);
        ctx.label(if c.free { "free running" } else { "lockstep" });
        ctx.when(c.ops.iter().any(|o| matches!(o.1, AccOp::New(..))), "accumulator replaced");
        let accs: Arc<Vec<Mutex<Arc<Acc>>>> =
            Arc::new(c.caps.iter().map(|n| Mutex::new(Arc::new(Acc::new(*n as usize)))).collect());
        // what each thread does: (sequence number, op); in lockstep a turn counter orders them
        let turn = Arc::new((Mutex::new(0usize), std::sync::Condvar::new()));
        let mut progs: Vec<Vec<(usize, AccOp)>> = vec![vec![]; nt];
        for (i, (t, o)) in c.ops.iter().enumerate() {
            progs[*t as usize % nt].push((i, o.clone()));
        }
        let free = c.free;
        let hs: Vec<_> = progs
            .into_iter()
            .enumerate()
            .map(|(th, prog)| {
                let (accs, turn) = (accs.clone(), turn.clone());
                std::thread::spawn(move || -> R {
                    // model of this thread: generation of the accumulator and its expected content
                    let mut model: HashMap<(usize, usize), Vec<String>> = HashMap::new();
                    let mut err = None;
                    for (i, op) in prog {
                        if !free {
                            let mut g = turn.0.lock().unwrap();
                            while *g != i {
                                g = turn.1.wait(g).unwrap();
                            }
                        }
                        if err.is_none() {
                            err = catch(|| step(&accs, &mut model, th, na, i, &op, free)).unwrap_or_else(|p| Err(format!("panicked: {p}"))).err().map(|e| format!("operation {i} ({op:?}) on thread {th}: {e}"));
                        }
                        if !free {
                            *turn.0.lock().unwrap() += 1;
                            turn.1.notify_all();
                        }
                    }
                    // what remains
                    if err.is_none() {
                        for a in 0..na {
                            let acc = accs[a].lock().unwrap().clone();
                            let got: Vec<String> = acc.acc.elements().iter().map(|e| format!("{e:?}")).collect();
                            let want = model.remove(&(a, acc.gen)).unwrap_or_default();
                            if got != want {
                                return Err(format!("at the end accumulator {a} on thread {th} returns {got:?} instead of {want:?}"));
                            }
                        }
                    }
                    err.map_or(Ok(()), Err)
                })
            })
            .collect();
        let mut out = Ok(());
        for h in hs {
            let r = h.join().unwrap_or_else(|_| Err("thread panicked".into()));
            if out.is_ok() {
                out = r;
            }
        }
        // a thread that never used them sees nothing
        for a in accs.iter() {
            let n = a.lock().unwrap().acc.elements().len();
            if n != 0 && out.is_ok() {
                out = Err(format!("a thread that added nothing retrieves {n} elements"));
            }
        }
        out
    }
}


fn step(accs: &[Mutex<Arc<Acc>>], model: &mut HashMap<(usize, usize), Vec<String>>, th: usize, na: usize, i: usize, op: &AccOp, free: bool) -> R {
    match op {
        AccOp::Add(a) => {
            let a = *a as usize % na;
            let acc = accs[a].lock().unwrap().clone();
            let e = acc_el(i as i64, th, a);
            model.entry((a, acc.gen)).or_default().push(format!("{e:?}"));
            acc.acc.add(e);
        }
        AccOp::Take(a) => {
            let a = *a as usize % na;
            let acc = accs[a].lock().unwrap().clone();
            let got: Vec<String> = acc.acc.elements().iter().map(|e| format!("{e:?}")).collect();
            let want = model.remove(&(a, acc.gen)).unwrap_or_default();
            if got != want {
                return Err(format!("returned {got:?} instead of {want:?}"));
            }
            let again = acc.acc.elements().len();
            if again != 0 {
                return Err(format!("{again} elements left after retrieval"));
            }
        }
        AccOp::New(a, cap) => {
            if free {
                return Ok(());
            }
            let a = *a as usize % na;
            let fresh = Arc::new(Acc::new(*cap as usize));
            let old = std::mem::replace(&mut *accs[a].lock().unwrap(), fresh.clone());
            drop(old);
            if !fresh.acc.elements().is_empty() {
                return Err("a new accumulator is not empty".into());
            }
        }
    }
    Ok(())
}
