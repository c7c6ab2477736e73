//! Heap use: bounded by blocks, buffers and queues, not by the amount of data.
use super::damage::alloc::peak;
use crate::driver::*;
use crate::enc::{EBlock, EFile};
use crate::wire::Comp;
use crate::gen::{mix, Info};
use crate::io::*;
use crate::model::*;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum What {
    /// iterate over the elements
    Elements,
    /// iterate over the blocks
    Blocks,
    /// blocks to a writer
    CopyBlocks,
    /// elements of a file to a sequential writer
    Rewrite,
    /// sequential writer, elements made one by one
    Write,
    /// the same, the elements in lists of this length
    WriteLists(u16),
    WriteDump,
    /// iterate over the elements of an opened dump
    ReadDump,
    /// (tasks)
    Parallel(u8),
    Count,
    BoundingBox,
    /// (buffer, block, list length; 0: single elements)
    ParWrite(u16, u16, u16),
    /// the same to a pipe that is not read before the writer takes no more elements
    ParStall(u16, u16, u16),
    /// so many short lived readers and writers one after the other
    Repeat(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    pub what: What,
    /// 0 nodes, 1 ways, 2 relations, 3 all
    pub kinds: u8,
    /// bytes of text per element; also governs refs and members
    pub text: u16,
    /// elements per block of an input file
    pub block: u16,
    pub zlib: bool,
    pub salt: u64,
}

/// Element i of n: all of a kind are of the same size; ids rise within a kind.
fn element(c: &MemCase, i: usize, n: usize) -> El {
    let kind = match c.kinds {
        3 => (i * 3 / n.max(1)) as u8,
        k => k,
    };
    let h = mix(c.salt ^ i as u64);
    let changeset = 1 + (h % 50) as i64;
    let uid = 1 + (changeset % 13) as i32;
    // few different texts compress well and keep the time low
    let t = (c.text as usize).max(8);
    let m = Meta {
        id: 1_000_000 + i as i64,
        version: 1,
        ts: (1_300_000_000 + (h >> 40) as i64) * 1000,
        changeset,
        uid,
        user: format!("user {uid:02}"),
        visible: true,
        tags: vec![("text".into(), format!("{:08x}{}", h as u32, "abcdefgh ".repeat(t / 9)))],
    };
    let b = match kind {
        0 => Body::Node { lat: (h % 900_000_000) as i64 * 100, lon: -((h >> 30) as i64 % 1_800_000_000) * 100 },
        1 => Body::Way { refs: (0..t as i64 / 16).map(|j| 1_000_000 + (i as i64 * 7 + j)).collect() },
        _ => Body::Rel { members: (0..t as i64 / 50).map(|j| ((j % 3) as u8, 1_000_000 + j, "member".into())).collect() },
    };
    El { m, b }
}

/// Elements made fast, of text that compresses badly: of one size, ids rising within a kind.
struct Fast {
    n: usize,
    kinds: u8,
    variants: Vec<(Vec<Tag>, Vec<i64>, Vec<Member>)>,
}

impl Fast {
    fn new(c: &MemCase, n: usize) -> Fast {
        let t = (c.text as usize).max(8);
        let variants = (0..16u64)
            .map(|v| {
                let mut h = mix(c.salt ^ v << 32);
                let mut byte = || {
                    h = mix(h);
                    (33 + h % 90) as u8 as char
                };
                let tags = vec![Tag::new("text".into(), (0..t).map(|_| byte()).collect())];
                let refs = (0..t as i64 / 16).map(|j| mix(c.salt ^ v << 40 ^ j as u64) as i64 >> 30).collect();
                let members = (0..t as i64 / 50)
                    .map(|j| Member::Way { member: MemberData::new(mix(c.salt ^ v << 40 ^ j as u64) as i64 >> 30, "member".into()) })
                    .collect();
                (tags, refs, members)
            })
            .collect();
        Fast { n, kinds: c.kinds, variants }
    }
    fn get(&self, i: usize) -> Element {
        let kind = match self.kinds {
            3 => (i * 3 / self.n.max(1)) as u8,
            k => k,
        };
        let (tags, refs, members) = &self.variants[i % 16];
        let id = 1_000_000 + i as i64;
        let user = "user".to_string();
        match kind {
            0 => {
                let at = Coordinate::new((i % 1_700_000) as f64 / 1e4 - 85.0, (i % 3_500_000) as f64 / 1e4 - 175.0);
                Element::Node { node: Node::new(id, 1, at, 1_300_000_000_000, 7, 8, user, true, tags.clone()) }
            }
            1 => Element::Way { way: Way::new(id, 1, 1_300_000_000_000, 7, 8, user, true, refs.clone(), tags.clone()) },
            _ => Element::Relation { relation: Relation::new(id, 1, 1_300_000_000_000, 7, 8, user, true, members.clone(), tags.clone()) },
        }
    }
}

/// Reads the pipe to its end, but not before the number of elements taken by the writer has not
/// changed for a while, or all have been.
fn late_reader(p: std::path::PathBuf, taken: Arc<AtomicUsize>, n: usize) -> std::thread::JoinHandle<std::io::Result<u64>> {
    std::thread::spawn(move || {
        use std::io::Read;
        let mut f = std::fs::File::open(p)?;
        let mut last = (usize::MAX, std::time::Instant::now());
        loop {
            let now = taken.load(Ordering::SeqCst);
            if now != last.0 {
                last = (now, std::time::Instant::now());
            }
            if now >= n || (now > 0 && last.1.elapsed().as_millis() > 400) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        let mut buffer = vec![0u8; 1 << 16];
        let mut read = 0;
        loop {
            match f.read(&mut buffer)? {
                0 => return Ok(read),
                k => read += k as u64,
            }
        }
    })
}

fn write_file(c: &MemCase, p: &Path, n: usize) -> Result<(), String> {
    use std::io::Write;
    let io = |e: std::io::Error| format!("harness: {e}");
    let how = if c.zlib { Comp::Zlib(1) } else { Comp::Raw };
    let mut f = std::io::BufWriter::new(std::fs::File::create(p).map_err(io)?);
    f.write_all(&EFile::plain(vec![], how).bytes()).map_err(io)?;
    let mut i = 0;
    while i < n {
        let mut els = vec![];
        while i < n && els.len() < c.block.max(1) as usize {
            els.push(element(c, i, n));
            i += 1;
        }
        f.write_all(&EBlock::plain(els, how).bytes()).map_err(io)?;
    }
    f.flush().map_err(io)
}

fn seq_writer(c: &MemCase, p: &Path) -> Result<Writer, anyhow::Error> {
    let mut w = Writer::from_file_info(p.to_path_buf(), Info::basic().to_lib(), comp(c.zlib))?;
    w.write_header()?;
    Ok(w)
}

/// Run the operation over n elements; the additional heap it used at most.
fn use_of(c: &MemCase, ctx: &Ctx, n: usize, what: What) -> Result<i64, String> {
    let input = ctx.path("in.pbf");
    let output = ctx.path("out.pbf");
    let _ = std::fs::remove_file(&output);
    let expect = |got: usize| if got == n { Ok(()) } else { Err(format!("{what:?} delivered {got} of {n} elements")) };
    let res = |r: Result<Result<(), anyhow::Error>, String>| match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{what:?} failed: {e:#}")),
        Err(p) => Err(format!("{what:?} panicked: {p}")),
    };
    match what {
        What::Elements | What::Blocks | What::CopyBlocks | What::Rewrite | What::Parallel(_) | What::Count | What::BoundingBox => {
            write_file(c, &input, n)?;
            let seen = Arc::new(AtomicUsize::new(0));
            let s2 = seen.clone();
            let (r, peak, _) = peak(|| {
                catch(|| -> Result<(), anyhow::Error> {
                    match what {
                        What::BoundingBox => {
                            let b = BoundingBoxCalculator::new(&input).calc();
                            // no nodes: an error
                            if c.kinds == 0 || c.kinds == 3 {
                                b?;
                            }
                            s2.store(n, Ordering::SeqCst);
                            return Ok(());
                        }
                        _ => {}
                    }
                    let r = Reader::new(&input)?;
                    match what {
                        What::Elements => {
                            for e in r.elements()? {
                                s2.fetch_add(!e.is_sentinel() as usize, Ordering::Relaxed);
                            }
                        }
                        What::Rewrite => {
                            let mut w = seq_writer(c, &output)?;
                            for e in r.elements()? {
                                if !e.is_sentinel() {
                                    s2.fetch_add(1, Ordering::Relaxed);
                                    w.write_element(e)?;
                                }
                            }
                            w.close()?;
                        }
                        What::Blocks => {
                            for b in r.blocks()? {
                                std::hint::black_box(&b);
                            }
                            s2.store(n, Ordering::SeqCst);
                        }
                        What::CopyBlocks => {
                            let mut w = Writer::from_file_info(output.clone(), Info::basic().to_lib(), comp(c.zlib))?;
                            for b in r.blocks()? {
                                w.write_file_block(b)?;
                            }
                            w.close()?;
                            s2.store(n, Ordering::SeqCst);
                        }
                        What::Parallel(t) => {
                            let s3 = s2.clone();
                            r.parallel_for_each(t.max(1) as usize, move |e| {
                                s3.fetch_add(!e.is_sentinel() as usize, Ordering::Relaxed);
                                Ok(())
                            })?;
                        }
                        _ => {
                            let (a, b, d) = r.count_objects()?;
                            s2.store((a + b + d) as usize, Ordering::SeqCst);
                        }
                    }
                    Ok(())
                })
            });
            res(r)?;
            expect(seen.load(Ordering::SeqCst))?;
            Ok(peak)
        }
        What::Write | What::WriteLists(_) => {
            let (r, peak, _) = peak(|| {
                catch(|| -> Result<(), anyhow::Error> {
                    let mut w = seq_writer(c, &output)?;
                    match what {
                        What::WriteLists(k) => {
                            let mut i = 0;
                            while i < n {
                                let j = (i + k.max(1) as usize).min(n);
                                w.write_elements((i..j).map(|i| element(c, i, n).to_lib()).collect())?;
                                i = j;
                            }
                        }
                        _ => {
                            for i in 0..n {
                                w.write_element(element(c, i, n).to_lib())?;
                            }
                        }
                    }
                    w.close()
                })
            });
            res(r)?;
            Ok(peak)
        }
        What::ParWrite(buffer, block, list) | What::ParStall(buffer, block, list) => {
            let stall = matches!(what, What::ParStall(..));
            let fast = Fast::new(c, n);
            let taken = Arc::new(AtomicUsize::new(0));
            let mut reader = None;
            if stall {
                let path = std::ffi::CString::new(output.to_str().unwrap()).unwrap();
                if unsafe { libc::mkfifo(path.as_ptr(), 0o600) } != 0 {
                    return Err("harness: mkfifo".into());
                }
                reader = Some(late_reader(output.clone(), taken.clone(), n));
            }
            let (r, peak, _) = peak(|| {
                catch(|| -> Result<(), anyhow::Error> {
                    let mut w = ParallelWriter::from_file_info(buffer as usize, block.max(1) as usize, output.clone(), Info::basic().to_lib(), comp(c.zlib))?;
                    w.write_header()?;
                    if list == 0 {
                        for i in 0..n {
                            w.write_element(fast.get(i))?;
                            taken.store(i + 1, Ordering::SeqCst);
                        }
                    } else {
                        let mut i = 0;
                        while i < n {
                            let j = (i + list as usize).min(n);
                            w.write_elements((i..j).map(|i| fast.get(i)).collect())?;
                            i = j;
                            taken.store(i, Ordering::SeqCst);
                        }
                    }
                    w.close()
                })
            });
            res(r)?;
            if let Some(reader) = reader {
                let read = reader.join().map_err(|_| "harness: reader of the pipe")?.map_err(|e| format!("harness: {e}"))?;
                if read < n as u64 {
                    return Err(format!("{what:?}: {read} bytes for {n} elements"));
                }
            }
            Ok(peak)
        }
        What::WriteDump | What::ReadDump => {
            let d = ctx.path(&format!("dump{n}"));
            std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            let (r, peak_w, _) = peak(|| {
                catch(|| -> Result<(), anyhow::Error> {
                    let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(d.clone(), 0)?;
                    for i in 0..n {
                        w.write_element(element(c, i, n).to_lib())?;
                    }
                    w.close()
                })
            });
            res(r)?;
            if what == What::WriteDump {
                let _ = std::fs::remove_dir_all(&d);
                return Ok(peak_w);
            }
            let tmp = ctx.path("tmp");
            std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
            let r = catch(|| open_dump(&d, &tmp)).map_err(|p| format!("opening panicked: {p}"))?.map_err(|e| format!("opening failed: {e:#}"))?;
            let (got, peak, _) = peak(|| {
                catch(|| -> Result<usize, anyhow::Error> {
                    let mut got = 0;
                    for e in r.elements()? {
                        got += !e.is_sentinel() as usize;
                    }
                    Ok(got)
                })
            });
            drop(r);
            let _ = std::fs::remove_dir_all(&d);
            let _ = std::fs::remove_dir_all(&tmp);
            match got {
                Ok(Ok(g)) => expect(g)?,
                Ok(Err(e)) => return Err(format!("{what:?} failed: {e:#}")),
                Err(p) => return Err(format!("{what:?} panicked: {p}")),
            }
            Ok(peak)
        }
        What::Repeat(_) => {
            // n elements per use, as many uses as said by the caller
            unreachable!()
        }
    }
}

fn repeat(c: &MemCase, ctx: &Ctx, uses: usize, n: usize) -> Result<i64, String> {
    let els: Vec<El> = (0..n).map(|i| element(c, i, n)).collect();
    let info = Info::basic();
    let (r, peak, _) = peak(|| -> Result<(), String> {
        for u in 0..uses {
            let p = ctx.path(if u % 2 == 0 { "a.pbf" } else { "b.pbf" });
            if u % 4 < 2 {
                write_seq(&p, &info, &els, &[0], c.zlib)?;
            } else {
                write_par(&p, &info, 50, 20, c.zlib, calls_of(&els, &[7]))?;
            }
            let (r, got) = read_seq(&p)?;
            if got.iter().filter(|e| !e.is_sentinel()).count() != n {
                return Err(format!("{} elements of {n} read", got.len()));
            }
            drop(got);
            let seen = Arc::new(AtomicUsize::new(0));
            let s2 = seen.clone();
            let acc = Arc::new(osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator::new(n + 1));
            let a2 = acc.clone();
            catch(|| {
                r.parallel_for_each(2, move |e| {
                    if e.is_sentinel() {
                        s2.fetch_add(a2.elements().len(), Ordering::SeqCst);
                    } else {
                        a2.add(e);
                    }
                    Ok(())
                })
            })
            .map_err(|p| format!("parallel iteration panicked: {p}"))?
            .map_err(|e| format!("parallel iteration failed: {e:#}"))?;
            let _ = seen;
        }
        Ok(())
    });
    r?;
    Ok(peak)
}

/// heap bytes of one element as the library holds it
fn size(c: &MemCase, n: usize) -> i64 {
    let ((), p, _) = peak(|| {
        let v: Vec<Element> = (0..200).map(|k| element(c, k * (n / 200).max(1), n).to_lib()).collect();
        drop(v);
    });
    p / 200
}

const MB: i64 = 1 << 20;

/// Repeat a run that is over the bound: one thread that was not scheduled may have let the others
/// run ahead, which is no defect.
fn lowest(bound: i64, mut f: impl FnMut() -> Result<i64, String>) -> Result<i64, String> {
    let mut p = f()?;
    for _ in 0..4 {
        if p <= bound {
            break;
        }
        p = p.min(f()?);
    }
    Ok(p)
}

pub struct C26;
impl Prop for C26 {
    type Case = MemCase;
    const ID: &'static str = "C26";
    const RULE: &'static str = "An operation (reading elements or blocks, copying blocks, rewriting, writing single elements or lists, parallel reading with 1 to 6 tasks, counting, bounding box, parallel writing (to a file, or to a pipe that is not read until the writer takes no more), writing a dump, reading an opened dump, many short-lived readers and writers in sequence), element kinds, element size (60 bytes to some kilobytes), block, buffer and list lengths are generated; elements are made one by one while they are written. A counting allocator measures the most heap in use in addition. Serial operations run on n and on 4n elements, at least 8 MB apart: the two peaks must agree up to 768 KB and 5 percent. Parallel ones must stay below a bound computed from block, buffer and queue lengths and the size of an element (one of up to five runs), while the data are two to three times that bound. Non-trivial: the data meet these minimum sizes.";
    const SHARDS: u32 = 3;
    const ASSUMPTIONS: &'static [&'static str] = &["the heap is what Rust's global allocator hands out (zlib's own allocations in miniz_oxide included); memory maps of the index files of the dump are not counted"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 90 } else { 6000 }
    }
    fn fixed(_: Tier) -> Vec<MemCase> {
        let m = |what, kinds, text, block| MemCase { what, kinds, text, block, zlib: true, salt: 5 };
        vec![
            m(What::Elements, 3, 400, 100),
            m(What::Blocks, 3, 400, 100),
            m(What::CopyBlocks, 0, 400, 100),
            m(What::Rewrite, 0, 60, 500),
            m(What::Write, 3, 60, 0),
            m(What::WriteLists(3000), 1, 60, 0),
            m(What::WriteDump, 3, 300, 0),
            m(What::ReadDump, 3, 300, 0),
            m(What::Parallel(3), 3, 300, 60),
            m(What::Count, 1, 300, 60),
            m(What::BoundingBox, 0, 300, 60),
            m(What::ParWrite(40, 20, 0), 0, 300, 0),
            m(What::ParWrite(40, 10, 50), 3, 300, 0),
            m(What::ParStall(40, 20, 0), 0, 300, 0),
            m(What::ParStall(5, 3, 30), 3, 300, 0),
            m(What::Repeat(40), 3, 300, 0),
        ]
    }
    fn strategy(_: Tier) -> BoxedStrategy<MemCase> {
        let what = prop_oneof![
            3 => Just(What::Elements),
            2 => Just(What::Blocks),
            2 => Just(What::CopyBlocks),
            2 => Just(What::Rewrite),
            2 => Just(What::Write),
            2 => prop_oneof![1u16..100, 7000u16..9000, Just(8000), Just(20000)].prop_map(What::WriteLists),
            3 => Just(What::WriteDump),
            2 => Just(What::ReadDump),
            4 => (1u8..7).prop_map(What::Parallel),
            1 => Just(What::Count),
            2 => Just(What::BoundingBox),
            6 => (0u16..200, 1u16..40, prop_oneof![Just(0u16), 1u16..10, 1u16..80]).prop_map(|(b, l, k)| What::ParWrite(b, l, k)),
            3 => (0u16..200, 1u16..40, prop_oneof![Just(0u16), 1u16..10, 1u16..80]).prop_map(|(b, l, k)| What::ParStall(b, l, k)),
            1 => (20u16..60).prop_map(What::Repeat),
        ];
        (what, 0u8..4, prop_oneof![3 => 30u16..400, 1 => 400u16..4000], 20u16..300, prop::bool::weighted(0.8), any::<u64>())
            .prop_map(|(what, kinds, text, block, zlib, salt)| {
                // blocks of the sequential writer hold 8000 elements
                let text = match what {
                    What::Write | What::WriteLists(_) | What::Rewrite => text % 170,
                    // (a block must be small beside the data)
                    What::Parallel(_) | What::Count | What::BoundingBox => text.min(600),
                    _ => text,
                };
                MemCase { what, kinds, text, block, zlib, salt }
            })
            .boxed()
    }
    fn run(c: &MemCase, ctx: &mut Ctx) -> R {
        ctx.label(format!("{:?}", c.what).split('(').next().unwrap().to_string());
        // warm up what is allocated once per process
        let small = MemCase { what: c.what, ..c.clone() };
        let s = size(c, 600).max(1);
        let kb = |v: i64| v / 1024;
        match c.what {
            What::Parallel(_) | What::Count | What::BoundingBox => {
                let t = match c.what {
                    What::Parallel(t) => t.max(1) as i64,
                    _ => std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).max(8) as i64,
                };
                // one block at a time
                let one = use_of(&small, ctx, 20 * c.block.max(1) as usize, What::Elements)?;
                let bound = (t + 2) * one + 2 * MB;
                let n = (2 * bound / s) as usize;
                if n > 400_000 {
                    ctx.label("left out: block too large beside the data");
                    return Ok(());
                }
                ctx.nontrivial(true);
                let p = lowest(bound, || use_of(c, ctx, n, c.what))?;
                if p > bound {
                    return Err(format!("{:?} of {n} elements of {s} bytes in blocks of {} held {} KB at once; one block at a time needs {} KB, {t} tasks should stay below {} KB", c.what, c.block, kb(p), kb(one), kb(bound)));
                }
            }
            What::ParWrite(buffer, block, list) | What::ParStall(buffer, block, list) => {
                let s = {
                    let fast = Fast::new(c, 600);
                    let ((), p, _) = peak(|| {
                        let v: Vec<Element> = (0..600).map(|k| fast.get(k)).collect();
                        drop(v);
                    });
                    (p / 600).max(1)
                };
                let (b, l, k) = (buffer as i64, block.max(1) as i64, list.max(1) as i64);
                // lists queued and in hand, the buffer and what is sorted, blocks queued and in
                // work, finished ones that wait to be written; each block in work reserves lists of
                // 8000 ways and relations
                let held = 262 * k + 2 * (b + k) + 290 * l + 290 * l;
                let bound = s * held * 3 / 2 + 14 * MB;
                let n = (5 * bound / (2 * s)) as usize;
                if n > 400_000 {
                    ctx.label("left out: queues too large beside the data");
                    return Ok(());
                }
                ctx.nontrivial(true);
                let p = lowest(bound, || use_of(c, ctx, n, c.what))?;
                if p > bound {
                    return Err(format!("{:?} of {n} elements of {s} bytes held {} KB at once; buffer, blocks and queues hold {held} elements, {} KB", c.what, kb(p), kb(bound)));
                }
            }
            What::Repeat(u) => {
                let n = 300;
                let p1 = repeat(c, ctx, u as usize, n)?;
                // how much the threads of a use hold at once depends on the schedule
                let bound = p1 + (p1 / 3 + MB).max(3 * u as i64 * n as i64 * s / 16);
                let p4 = lowest(bound, || repeat(c, ctx, 4 * u as usize, n))?;
                ctx.nontrivial(true);
                if p4 > bound {
                    return Err(format!("{u} uses of readers and writers with {n} elements of {s} bytes held {} KB at once, {} uses {} KB", kb(p1), 4 * u, kb(p4)));
                }
            }
            _ => {
                let per_type = matches!(c.what, What::Write | What::WriteLists(_) | What::Rewrite);
                // the sequential writer's full blocks, and full lists, must occur in both runs
                let list = if let What::WriteLists(k) = c.what { k as i64 } else { 0 };
                let base = if per_type { 16_100.max(3 * list) } else { (4 * c.block.max(1) as i64).max(1500) } * if c.kinds == 3 { 3 } else { 1 };
                let n = base.max(8 * MB / s / 3 + 1) as usize;
                let p1 = use_of(c, ctx, n, c.what)?;
                let bound = p1 + p1 / 20 + 768 * 1024;
                let p4 = lowest(bound, || use_of(c, ctx, 4 * n, c.what))?;
                ctx.nontrivial(3 * n as i64 * s >= 8 * MB);
                if p4 > bound {
                    return Err(format!("{:?} of {n} elements of {s} bytes held {} KB at once, of {} elements {} KB", c.what, kb(p1), 4 * n, kb(p4)));
                }
                ctx.count("KB apart", (3 * n as i64 * s / 1024) as u64);
            }
        }
        Ok(())
    }
}
