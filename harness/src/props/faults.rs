//! Failures of callbacks and of output.
use crate::driver::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::props::par::{decode_file, pfile, tasks, PFile};
use crate::props::pbf::diff_dumps;
use crate::props::sys::{act, Act, How, Phase};
use crate::sysfault::{Class, Mode};
use anyhow::anyhow;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type DumpWriter = osm_io::osm::apidb_dump::write::writer::Writer;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Seq,
    Par,
    Dump,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Trap {
    /// the directory of the output does not exist (for a dump: its parent is a regular file)
    MissingDir,
    /// the output is a directory (for a dump: a regular file)
    WrongType,
    /// a regular file where the path needs a directory
    UnderFile,
    /// a link into a directory that does not exist
    Dangling,
    /// a link to /dev/full
    Full,
    /// a link to itself
    Loop,
    /// a name longer than the file system allows
    LongName,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FaultCase {
    /// the callback fails at the given invocations (counted over all threads)
    Callback { file: PFile, tasks: usize, at: Vec<u32>, panics: bool, twice: bool },
    Create { kind: Kind, trap: Trap, table: u8, els: Seq },
    /// no file may grow beyond a limit from one call until another
    Limit { kind: Kind, els: Seq, block: usize, slack: usize, zlib: bool, batching: Vec<u16>, limit: u16, near: Option<i8>, from: u16, to: Option<u16> },
    /// one call that opens, reads or writes a file fails, or all from there on; negative numbers count from the end
    Call { act: Act, class: Class, at: i32, errno: u8, sticky: bool, short: bool, opening: bool },
}

/// A limit on the size of files of this process; a write beyond it fails with EFBIG.
pub struct FileLimit(libc::rlimit);

impl FileLimit {
    pub fn set(bytes: u64) -> FileLimit {
        unsafe {
            // without this the process is killed instead
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
            let new = libc::rlimit { rlim_cur: bytes.min(old.rlim_max), rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
            FileLimit(old)
        }
    }
}

impl Drop for FileLimit {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

enum W {
    Seq(Writer),
    Par(ParallelWriter),
    Dump(DumpWriter),
}

impl W {
    fn create(kind: Kind, path: &Path, block: usize, slack: usize, zlib: bool) -> Result<W, anyhow::Error> {
        let info = Info::basic().to_lib();
        Ok(match kind {
            Kind::Seq => W::Seq(Writer::from_file_info(path.to_path_buf(), info, comp(zlib))?),
            Kind::Par => W::Par(ParallelWriter::from_file_info(block + slack, block, path.to_path_buf(), info, comp(zlib))?),
            Kind::Dump => W::Dump(DumpWriter::new(path.to_path_buf(), 0)?),
        })
    }
    fn header(&mut self) -> Result<(), anyhow::Error> {
        match self {
            W::Seq(w) => w.write_header(),
            W::Par(w) => w.write_header(),
            W::Dump(_) => Ok(()),
        }
    }
    fn call(&mut self, c: Call) -> Result<(), anyhow::Error> {
        match (self, c) {
            (W::Seq(w), Call::One(e)) => w.write_element(e),
            (W::Seq(w), Call::Many(v)) => w.write_elements(v),
            (W::Par(w), Call::One(e)) => w.write_element(e),
            (W::Par(w), Call::Many(v)) => w.write_elements(v),
            (W::Dump(w), Call::One(e)) => w.write_element(e),
            (W::Dump(w), Call::Many(v)) => v.into_iter().try_for_each(|e| w.write_element(e)),
        }
    }
    fn close(&mut self) -> Result<(), anyhow::Error> {
        match self {
            W::Seq(w) => w.close(),
            W::Par(w) => w.close(),
            W::Dump(w) => w.close(),
        }
    }
}

/// Run a whole pipeline. Every call is made even after a failure (a caller may ignore errors until
/// close only at the price of its own output, but no call may hang); the first failure is returned.
pub fn pipeline(kind: Kind, path: &Path, els: &[El], block: usize, slack: usize, zlib: bool, batching: &[u16], at: &mut dyn FnMut(usize)) -> Option<String> {
    let mut first: Option<String> = None;
    let mut note = |what: &str, r: Result<Result<(), anyhow::Error>, String>| -> bool {
        match r {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                first.get_or_insert(format!("{what}: {e:#}"));
                true
            }
            Err(p) => {
                first.get_or_insert(format!("{what} panicked: {p}"));
                false
            }
        }
    };
    at(0);
    let mut w = match catch(|| W::create(kind, path, block, slack, zlib)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Some(format!("creation: {e:#}")),
        Err(p) => return Some(format!("creation panicked: {p}")),
    };
    at(1);
    let mut alive = note("header", catch(|| w.header()));
    let mut n = 2;
    for c in calls_of(els, batching) {
        if !alive {
            break;
        }
        at(n);
        n += 1;
        alive = note("write", catch(|| w.call(c)));
    }
    at(n);
    if alive || kind == Kind::Par {
        // a parallel writer is closed in any case: its threads would spin for ever
        note("close", catch(|| w.close()));
    }
    let gone = note("drop", catch(move || { drop(w); Ok(()) }));
    let _ = gone;
    first
}

fn sizes(kind: Kind, path: &Path) -> Result<Vec<(PathBuf, u64)>, String> {
    if kind != Kind::Dump {
        return Ok(vec![(path.to_path_buf(), std::fs::metadata(path).map_err(|e| e.to_string())?.len())]);
    }
    let mut v = vec![];
    for e in std::fs::read_dir(path).map_err(|e| e.to_string())? {
        let e = e.map_err(|e| e.to_string())?;
        v.push((e.path(), e.metadata().map_err(|e| e.to_string())?.len()));
    }
    v.sort();
    Ok(v)
}

pub fn complete(kind: Kind, path: &Path, reference: &Path, els: &[El], zlib: bool) -> R {
    if kind == Kind::Dump {
        return diff_dumps(reference, path);
    }
    let (i, got) = decode_file(path, zlib)?;
    if i != Info::basic() {
        return Err(format!("header {i:?}"));
    }
    diff_els(els, &got).map_or(Ok(()), Err)
}

/// Names of a dump's files, from a dump made by the library.
fn dump_files(dir: &Path) -> Result<Vec<String>, String> {
    write_dump(dir, &[])?;
    let mut v: Vec<String> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    v.sort();
    let _ = std::fs::remove_dir_all(dir);
    Ok(v)
}

fn set_trap(kind: Kind, trap: Trap, table: u8, ctx: &Ctx) -> Result<(PathBuf, PathBuf), String> {
    let io = |r: std::io::Result<()>| r.map_err(|e| format!("harness: {e}"));
    use std::os::unix::fs::symlink;
    let place = |p: &Path| -> R {
        match trap {
            Trap::WrongType => io(std::fs::create_dir(p)),
            Trap::Dangling => io(symlink(ctx.path("nowhere/x"), p)),
            Trap::Full => io(symlink("/dev/full", p)),
            Trap::Loop => io(symlink(p, p)),
            _ => Ok(()),
        }
    };
    if kind == Kind::Dump && matches!(trap, Trap::WrongType | Trap::Full | Trap::Dangling | Trap::Loop) && table % 8 != 7 {
        // one of the dump's files
        let names = dump_files(&ctx.path("names"))?;
        let d = ctx.path("dump");
        io(std::fs::create_dir(&d))?;
        let f = d.join(&names[(table as usize / 8 * 7 + table as usize % 8) % names.len()]);
        place(&f)?;
        return Ok((d, f));
    }
    let p = match trap {
        Trap::MissingDir if kind == Kind::Dump => {
            io(std::fs::write(ctx.path("f"), b"x"))?;
            ctx.path("f").join("d").join("dump")
        }
        Trap::MissingDir => ctx.path("no/such/dir/o.osm.pbf"),
        Trap::UnderFile => {
            io(std::fs::write(ctx.path("f"), b"x"))?;
            ctx.path("f").join("o.osm.pbf")
        }
        Trap::WrongType if kind == Kind::Dump => {
            io(std::fs::write(ctx.path("o"), b"x"))?;
            ctx.path("o")
        }
        Trap::LongName => ctx.dir.join("n".repeat(300)),
        _ => {
            place(&ctx.path("o"))?;
            ctx.path("o")
        }
    };
    Ok((p.clone(), p))
}

pub struct C18;
impl Prop for C18 {
    type Case = FaultCase;
    const ID: &'static str = "C18";
    const SHARDS: u32 = 3;
    const LEVEL: &'static str = "exploration";
    const RULE: &'static str = "Four kinds of case: parallel iteration over generated files with 1 to 40 tasks whose callback fails (error or panic) at chosen invocations, sentinels included; outputs that cannot be created (missing directory, wrong type, dangling or looping link, link to /dev/full, overlong name) for both PBF writers and each single file of a dump; a size limit on every file of the process (RLIMIT_FSIZE, so that writes fail or are cut short at a generated byte offset) in force from one call to another or for good, also one that lets nothing be written for a while; a single generated call that opens, reads or writes a file failing, or all from there on, while writing, reading or copying in any way. Oracle: the fault must be reported by some call up to close, by an error and not by a panic unless the call is to an iterator, no call may hang, and success of every call means output equal to that of an undisturbed run. Non-trivial: the fault really takes effect.";
    const ASSUMPTIONS: &'static [&'static str] = &["write failures are those the kernel produces for RLIMIT_FSIZE and /dev/full, other failures those of open, read and write", "a panic in the caller counts as a reported failure only for the iterators over elements and blocks, whose items cannot carry an error"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3_500 } else { 60_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<FaultCase> {
        let kind = || prop_oneof![2 => Just(Kind::Seq), 3 => Just(Kind::Par), 2 => Just(Kind::Dump)];
        let trap = prop::sample::select(vec![Trap::MissingDir, Trap::WrongType, Trap::UnderFile, Trap::Dangling, Trap::Full, Trap::Full, Trap::Full, Trap::Loop, Trap::LongName]);
        let block = prop_oneof![3 => 1usize..4, 3 => 4usize..20, 2 => Just(8000usize)];
        prop_oneof![
            4 => (pfile(vec![3, 30, 300, 1100]), tasks(), prop::collection::vec(prop_oneof![2 => 0u32..4, 3 => any::<u32>()], 0..4), any::<bool>(), any::<bool>())
                .prop_map(|(file, tasks, at, panics, twice)| FaultCase::Callback { file, tasks, at, panics, twice }),
            3 => (kind(), trap, any::<u8>(), seq(Dom::Db, 8, 0, vec![])).prop_map(|(kind, trap, table, els)| FaultCase::Create { kind, trap, table, els }),
            5 => ((kind(), seq(Dom::Db, 25, 15, vec![100, 1000, 3000]), block, 0usize..30), (any::<bool>(), batching()), (any::<u16>(), prop::option::weighted(0.5, -3i8..4), prop_oneof![3 => Just(0u16), 2 => 1u16..40, 1 => any::<u16>()], prop::option::weighted(0.25, 0u16..60)))
                .prop_map(|((kind, els, block, slack), (zlib, batching), (limit, near, from, to))| FaultCase::Limit { kind, els, block, slack, zlib, batching, limit, near, from, to }),
            // any single write of a long dump fails once
            3 => (prop::collection::vec((0u8..3, prop::sample::select(vec![1usize, 2, 300, 1000]), any::<bool>(), any::<u64>()), 1..3), any::<i32>(), any::<u8>()).prop_map(|(runs, at, errno)| FaultCase::Call {
                act: Act::Write {
                    kind: Kind::Dump,
                    els: Seq { els: vec![], bulk: runs.into_iter().map(|(kind, n, wide, salt)| Bulk { kind, n, start: 1, step: 1, salt, vocab: 40, versions: 1, heavy: if kind == 0 || n > 2 { 0 } else { 2000 }, wide }).collect() },
                    block: 1, slack: 0, zlib: false, batching: vec![0],
                },
                class: Class::Write, at, errno, sticky: false, short: false, opening: false,
            }),
            // nothing can be written for a while
            2 => (prop_oneof![1 => Just(Kind::Seq), 1 => Just(Kind::Par), 4 => Just(Kind::Dump)], seq(Dom::Db, 25, 15, vec![300, 1000, 3000]), 1usize..100, any::<bool>(), any::<u16>(), 0u16..400)
                .prop_map(|(kind, els, block, zlib, from, to)| FaultCase::Limit { kind, els, block, slack: 0, zlib, batching: vec![0], limit: 0, near: None, from, to: Some(to) }),
            5 => (act(2), prop::sample::select(vec![Class::Read, Class::Write, Class::Open]), prop_oneof![1 => 0i32..4, 1 => -4i32..0, 3 => any::<i32>()], any::<u8>(), any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(act, class, at, errno, sticky, short, opening)| FaultCase::Call {
                    class: match &act {
                        // nothing else happens there
                        Act::Write { .. } if class == Class::Read => Class::Write,
                        Act::Read { how: How::Copy(_), .. } => class,
                        Act::Read { .. } | Act::Dump { .. } if class == Class::Write => Class::Read,
                        _ => class,
                    },
                    act, at, errno, sticky, short, opening,
                }),
        ]
        .boxed()
    }
    fn fixed(_: Tier) -> Vec<FaultCase> {
        // blocks of 27 MiB, and ones that are longer than the format allows
        let heavy = |kind, n, heavy| Seq { els: vec![], bulk: vec![Bulk { kind, n, start: 1, step: 1, salt: 7, vocab: 3, versions: 1, heavy, wide: false }] };
        let case = |kind, els, block| FaultCase::Limit { kind, els, block, slack: 0, zlib: false, batching: vec![0], limit: u16::MAX, near: None, from: u16::MAX, to: None };
        let mut v = vec![];
        for kind in [Kind::Seq, Kind::Par] {
            v.push(case(kind, heavy(1, 27, 1_000_000), 27));
            v.push(case(kind, heavy(0, 50, 1_000_000), 8000));
        }
        // every file of a dump
        let els = Seq { els: vec![], bulk: (0..3).map(|kind| Bulk { kind, n: 3, start: 1, step: 1, salt: 7, vocab: 3, versions: 1, heavy: 0, wide: false }).collect() };
        for i in 0..54u8 {
            v.push(FaultCase::Create { kind: Kind::Dump, trap: Trap::Full, table: i / 7 * 8 + i % 7, els: els.clone() });
        }
        v
    }
    fn run(c: &FaultCase, ctx: &mut Ctx) -> R {
        match c {
            FaultCase::Call { act, class, at, errno, sticky, short, opening } => {
                let input = ctx.path("in");
                act.prepare(&input)?;
                let phase = if *opening { Phase::Opening } else { Phase::Iterating };
                let (plain, rough) = (ctx.path("plain"), ctx.path("rough"));
                let a = act.perform(&ctx.dir, &input, &plain, Mode::Count, phase);
                let undisturbed = match a.out {
                    // a file without nodes has no bounding box
                    Err(_) if matches!(act, Act::Read { how: How::Bbox, .. }) => return Ok(()),
                    r => r.map_err(|e| format!("undisturbed run: {e}"))?,
                };
                let total = a.counts[*class as usize];
                if total == 0 {
                    ctx.label("no call of this kind");
                    return Ok(());
                }
                let at = (*at as i64).rem_euclid(total as i64) as u64;
                let list: &[i32] = match class {
                    Class::Read => &[libc::EIO, libc::ESTALE, libc::ENOMEM],
                    Class::Write => &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG],
                    Class::Open => &[libc::EMFILE, libc::ENFILE, libc::EACCES, libc::EIO],
                };
                let errno = list[*errno as usize % list.len()];
                let b = act.perform(&ctx.dir, &input, &rough, Mode::Fail { class: *class, at, errno, sticky: *sticky, short: *short }, phase);
                let what = format!("{class:?} call {at} of {total}{} failing with errno {errno}", if *sticky { " and all later ones" } else { "" });
                ctx.nontrivial(b.hits > 0);
                ctx.label(format!("{class:?} fails: {}{}", act.name(), if b.out.is_ok() { " (no difference)" } else { "" }));
                match b.out {
                    Err(e) if b.hits == 0 => Err(format!("failed although no call was disturbed: {e}")),
                    // a caller is told by an error, not by a panic
                    Err(e) if e.contains("panicked: ") && act.calm(*class) => Err(format!("{what}: {e}")),
                    Err(_) => Ok(()),
                    Ok(o) => act.same(&plain, &rough, &undisturbed, &o).map_err(|e| format!("success was reported with {what}, but {e}")),
                }
            }
            FaultCase::Callback { file, tasks, at, panics, twice } => {
                let f = file.file();
                let p = ctx.path("a.osm.pbf");
                std::fs::write(&p, f.bytes()).map_err(|e| e.to_string())?;
                let data: usize = f.blocks.iter().filter(|b| b.unknown.is_none()).map(|b| b.repeat as usize).sum();
                let total = f.want().len() + data;
                let at: Vec<usize> = if total == 0 { vec![] } else { at.iter().map(|a| *a as usize % total).collect() };
                ctx.label(format!("callback {}", if at.is_empty() { "never fails" } else if *panics { "panics" } else { "returns an error" }));
                ctx.nontrivial(!at.is_empty());
                let r = catch(|| Reader::new(&p)).map_err(|p| format!("Reader::new panicked: {p}"))?.map_err(|e| format!("Reader::new failed: {e:#}"))?;
                for round in 0..if *twice { 2 } else { 1 } {
                    // the second time round the same reader must work again
                    let at = if round == 0 { at.clone() } else { vec![] };
                    let n = Arc::new(AtomicUsize::new(0));
                    let failed = Arc::new(AtomicUsize::new(0));
                    let (n2, f2, at2, panics) = (n.clone(), failed.clone(), at.clone(), *panics);
                    let res = catch(|| {
                        r.parallel_for_each(*tasks, move |_e: Element| {
                            let i = n2.fetch_add(1, Ordering::SeqCst);
                            if at2.contains(&i) {
                                f2.fetch_add(1, Ordering::SeqCst);
                                if panics {
                                    panic!("injected");
                                }
                                return Err(anyhow!("injected"));
                            }
                            Ok(())
                        })
                    });
                    let failed = failed.load(Ordering::SeqCst);
                    match res {
                        Ok(Ok(())) if failed > 0 => return Err(format!("{failed} of the callback's invocations failed, parallel_for_each({tasks}) returned Ok")),
                        Ok(Ok(())) => {
                            let n = n.load(Ordering::SeqCst);
                            if n != total {
                                return Err(format!("parallel_for_each returned Ok after {n} of {total} callback invocations"));
                            }
                        }
                        Ok(Err(e)) if failed == 0 => return Err(format!("parallel_for_each failed although no callback did (round {round}): {e:#}")),
                        Err(p) => return Err(format!("parallel_for_each panicked, {failed} invocations of the callback failed (round {round}): {p}")),
                        _ => {}
                    }
                }
                Ok(())
            }
            FaultCase::Create { kind, trap, table, els } => {
                let els = els.all(Dom::Db);
                let (path, trapped) = set_trap(*kind, *trap, *table, ctx)?;
                ctx.label(format!("create {kind:?} {trap:?}{}", if path != trapped { " (table file)" } else { "" }));
                ctx.nontrivial(true);
                let r = pipeline(*kind, &path, &els, 10, 0, false, &[0], &mut |_| {});
                match r {
                    Some(e) if e.contains("panicked: ") => Err(format!("{} cannot be written ({trap:?}): {e}", trapped.strip_prefix(&ctx.dir).unwrap_or(&trapped).display())),
                    Some(_) => Ok(()),
                    None => Err(format!("every call succeeded although {} could not be written ({trap:?})", trapped.strip_prefix(&ctx.dir).unwrap_or(&trapped).display())),
                }
            }
            FaultCase::Limit { kind, els, block, slack, zlib, batching, limit, near, from, to } => {
                let els = els.all(Dom::Db);
                let block = if els.len() > 300 { (*block).max(20) } else { *block };
                let reference = ctx.path("ref");
                if let Some(e) = pipeline(*kind, &reference, &els, block, *slack, *zlib, batching, &mut |_| {}) {
                    return Err(format!("undisturbed run: {e}"));
                }
                complete(*kind, &reference, &reference, &els, *zlib).map_err(|e| format!("undisturbed run: {e}"))?;
                let all = sizes(*kind, &reference)?;
                let max = all.iter().map(|x| x.1).max().unwrap_or(0);
                // what is written after creation: for a dump all but the table of contents
                let later = all.iter().filter(|x| *kind != Kind::Dump || !x.0.ends_with("toc.dat")).map(|x| x.1).max().unwrap_or(0);
                let toc_too = *kind == Kind::Dump && *from == 0 && *limit % 4 == 0;
                // a byte offset in the output, or one near the size of one of the files
                let lim = match near {
                    Some(d) => {
                        let s = all[*limit as usize % all.len()].1;
                        // the size of a table without rows limits every table: rarely interesting
                        let s = if s <= 3 || (s > later && !toc_too) { later } else { s };
                        s.saturating_add_signed(*d as i64)
                    }
                    None => (*limit as u64 * (if toc_too { max } else { later } + 1)) >> 16,
                };
                let ncalls = calls_of(&els, batching).len() + 3;
                let from = if *kind == Kind::Dump && !toc_too && *from == 0 { 1 } else { *from as usize % ncalls };
                let to = to.map(|t| from + 1 + t as usize).filter(|t| *t < ncalls);
                let out = ctx.path("out");
                let mut guard: Option<FileLimit> = None;
                let r = pipeline(*kind, &out, &els, block, *slack, *zlib, batching, &mut |i| {
                    if i == from {
                        guard = Some(FileLimit::set(lim));
                    }
                    if Some(i) == to {
                        guard = None;
                    }
                });
                drop(guard);
                let over = lim < if from == 0 { max } else { later };
                let must = to.is_none() && (over && from == 0 || lim < later && from == 1 && *kind == Kind::Dump);
                ctx.label(format!("limit {kind:?}: {}", if must { "must fail" } else if over { "may fail" } else { "not reached" }));
                ctx.nontrivial(r.is_some());
                if let Some(e) = &r {
                    ctx.label(format!("reported at {}", e.split(':').next().unwrap_or("").chars().take(20).collect::<String>()));
                }
                match r {
                    Some(e) if e.contains("panicked: ") => Err(format!("no file could exceed {lim} bytes (calls {from}..{to:?} of {ncalls}): {e}")),
                    Some(e) if !over && *kind != Kind::Dump => Err(format!("failed although no file needs more than {lim} bytes: {e}")),
                    Some(_) => Ok(()),
                    None if must => Err(format!("every call succeeded although the output needs a file of {max} bytes (after creation {later}) and no file could exceed {lim} bytes")),
                    None => complete(*kind, &out, &reference, &els, *zlib).map_err(|e| format!("every call succeeded (limit {lim} of {max} bytes, calls {from}..{to:?} of {ncalls}) but the output is not complete: {e}")),
                }
            }
        }
    }
}
