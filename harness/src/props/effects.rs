//! Side effects: inputs stay as they are, only targets and the given temporary directory change,
//! nothing stays open, and what a reader was used for before makes no difference.
use crate::driver::*;
use crate::enc::{read_spoiled, spoiled, EFile, SPOILS};
use crate::gen::{self, Dom, Info};
use crate::io::*;
use crate::model::*;
use crate::wire::Comp;
use osm_io::osm::apidb_dump::read::reader::Reader as DumpReader;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// How the path of a file or directory is spelled.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Spell {
    Absolute,
    /// relative to the current directory
    Relative,
    /// with . and .. in it
    Dotted,
    /// a symbolic link
    Link,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum POp {
    Info,
    /// all elements, or so many and the iterator is dropped
    Elements(Option<u16>),
    /// two iterators, alternately
    Two,
    Blocks(Option<u16>),
    Parallel(u8),
    /// the callback returns an error at this call
    Fails(u8, u16),
    Count,
    Bbox,
    /// go on with a clone; the original is dropped
    Clone,
    Reopen,
    /// a file of other elements is renamed over the input, or written in its place, which is
    /// opened again
    Replace(bool),
    /// another file, damaged, is read in between: kind of damage, place, way of reading
    Damaged(u8, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum DOp {
    Elements(Option<u16>),
    Two,
    /// another reader of the dump: the same temporary directory, or another
    Reopen(bool),
    /// a dump of other elements takes its place and is opened with the same temporary directory
    Replace,
    /// another dump, one of whose files is damaged, is read in between: file, kind of damage, with the same temporary
    /// directory or another
    Damaged(u8, u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Use {
    Pbf { ops: Vec<POp>, zlib: bool, block: u8 },
    Dump { ops: Vec<DOp> },
    /// 0 sequential, 1 parallel, 2 dump; what was there before: 0 nothing, 1 something shorter, 2
    /// something longer, 3 an earlier output of more elements
    Write { how: u8, before: u8, zlib: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EffCase {
    pub els: Vec<El>,
    /// bytes of the names of directory and file
    pub dir: Vec<u8>,
    pub name: Vec<u8>,
    pub spell: Spell,
    pub uses: Vec<Use>,
}

fn name() -> BoxedStrategy<Vec<u8>> {
    let word = prop_oneof![
        3 => Just("data".to_string()),
        1 => "[a-zA-Z0-9_-]{1,12}",
        1 => Just(" ".to_string()),
        1 => Just(".osm.pbf".to_string()),
        1 => Just(".dat".to_string()),
        1 => Just("sorted-".to_string()),
        1 => Just("ünïcødé 地図".to_string()),
        1 => Just("%41%2F".to_string()),
        1 => Just("a\\b".to_string()),
        1 => Just("\"quoted\" 'name'".to_string()),
        1 => Just("line\nbreak".to_string()),
        1 => Just("tab\t".to_string()),
        1 => Just("*?[x]{y}$HOME~".to_string()),
        1 => Just("-".to_string()),
        1 => Just("..x".to_string()),
        1 => "\\PC{1,6}",
        1 => "y{100}",
    ];
    let bytes = prop::collection::vec(word, 1..4).prop_map(|w| w.concat().into_bytes());
    let raw = (prop::collection::vec(1u8..=255, 1..10)).prop_map(|mut v| {
        v.iter_mut().filter(|b| **b == b'/').for_each(|b| *b = b'_');
        v
    });
    prop_oneof![6 => bytes, 1 => raw]
        .prop_map(|mut v| {
            v.retain(|b| *b != b'/' && *b != 0);
            v.truncate(200);
            if v.is_empty() || v == b"." || v == b".." {
                v.push(b'x');
            }
            v
        })
        .boxed()
}

fn os(v: &[u8]) -> OsString {
    OsString::from_vec(v.to_vec())
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Entry {
    kind: char,
    inode: u64,
    mode: u32,
    len: u64,
    mtime: (i64, i64),
    content: u64,
}

/// Everything below a directory, except what is in one of the given subdirectories.
fn snapshot(root: &Path, skip: &[PathBuf]) -> BTreeMap<PathBuf, Entry> {
    fn walk(p: &Path, skip: &[PathBuf], out: &mut BTreeMap<PathBuf, Entry>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let dir = m.is_dir();
            let content = if m.is_file() {
                let b = std::fs::read(&p).unwrap_or_default();
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                b.hash(&mut h);
                h.finish()
            } else {
                0
            };
            let kind = if m.is_symlink() { 'l' } else if dir { 'd' } else { 'f' };
            let skipped = skip.contains(&p);
            // the times of a directory change with its entries, which are compared themselves
            let (len, mtime) = if dir { (0, (0, 0)) } else { (m.len(), (m.mtime(), m.mtime_nsec())) };
            out.insert(p.clone(), Entry { kind, inode: m.ino(), mode: m.mode(), len, mtime, content });
            if dir && !skipped {
                walk(&p, skip, out);
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, skip, &mut out);
    out
}

fn diff(before: &BTreeMap<PathBuf, Entry>, after: &BTreeMap<PathBuf, Entry>, may_change: &[PathBuf]) -> Option<String> {
    for (p, e) in before {
        if may_change.contains(p) {
            continue;
        }
        match after.get(p) {
            None => return Some(format!("{p:?} is gone")),
            Some(a) if a != e => return Some(format!("{p:?} was changed: {e:?} -> {a:?}")),
            _ => {}
        }
    }
    after.keys().find(|p| !before.contains_key(*p) && !may_change.contains(*p)).map(|p| format!("{p:?} was created"))
}

/// open files other than those of the harness, and threads
fn held() -> (Vec<String>, usize) {
    let mut fds: Vec<String> = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|p| p.to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    fds.retain(|f| !f.ends_with("/fd") && !f.contains("/proc/"));
    fds.sort();
    let threads = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
    (fds, threads)
}

struct BackTo(PathBuf);
impl Drop for BackTo {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

struct Place {
    root: PathBuf,
    /// what is given to the library
    given: PathBuf,
    /// the same, for the harness
    real: PathBuf,
}

/// root/<dir>/<name>, spelled as said, with neighbours
fn place(c: &EffCase, root: &Path, sub: &str) -> Result<Place, String> {
    let io = |e: std::io::Error| format!("harness: {e}");
    let root = root.join(sub);
    let d = root.join(os(&c.dir));
    std::fs::create_dir_all(&d).map_err(io)?;
    std::fs::create_dir_all(root.join("other")).map_err(io)?;
    for n in ["neighbour", "toc.dat", "4260.dat", "sorted-public.nodes.dat"] {
        std::fs::write(root.join("other").join(n), n).map_err(io)?;
    }
    std::fs::write(root.join("neighbour.osm.pbf"), "neighbour").map_err(io)?;
    let real = d.join(os(&c.name));
    let given = match c.spell {
        Spell::Absolute => real.clone(),
        Spell::Relative => {
            // the current directory of a case is ctx.dir/cwd
            PathBuf::from("..").join(root.file_name().unwrap()).join(os(&c.dir)).join(os(&c.name))
        }
        Spell::Dotted => root.join(".").join("other").join("..").join(os(&c.dir)).join(os(&c.name)),
        Spell::Link => {
            let l = root.join("link");
            std::os::unix::fs::symlink(&real, &l).map_err(io)?;
            l
        }
    };
    Ok(Place { root, given, real })
}

fn ok<T>(what: &str, r: Result<Result<T, anyhow::Error>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{what} failed: {e:#}")),
        Err(p) => Err(format!("{what} panicked: {p}")),
    }
}

/// All, or the first k, elements of an iterator are the first expected ones.
fn prefix(what: &str, want: &[El], got: &[Element], all: bool) -> R {
    if all || got.len() > want.len() {
        return diff_seq(want, got).map_or(Ok(()), |d| Err(format!("{what}: {d}")));
    }
    diff_seq(&want[..got.len()], got).map_or(Ok(()), |d| Err(format!("{what}, the first {}: {d}", got.len())))
}

/// Other elements: some are missing, all have other users, changesets and tags.
fn others(els: &[El], round: usize) -> Vec<El> {
    let keep = |i: &usize| (i + round) % 3 != 0 || els.len() < 3;
    let mut v: Vec<El> = els.iter().enumerate().filter(|(i, _)| keep(i)).map(|(_, e)| e.clone()).collect();
    for e in &mut v {
        e.m.user = format!("replaced {round}");
        e.m.uid = 1_000_000 + round as i32;
        e.m.changeset += 1;
        e.m.tags = vec![("replaced".into(), format!("{round}"))];
        match &mut e.b {
            Body::Node { lat, .. } => *lat = -*lat,
            Body::Way { refs } => refs.reverse(),
            Body::Rel { members } => members.reverse(),
        }
    }
    v
}

fn use_pbf(c: &EffCase, ops: &[POp], zlib: bool, block: usize, ctx: &mut Ctx, dir: &str) -> R {
    let at = place(c, &ctx.dir, dir)?;
    let how = if zlib { Comp::Zlib(6) } else { Comp::Raw };
    // a block holds elements of one type
    let file_of = |els: &[El], block: usize| {
        let mut blocks: Vec<Vec<El>> = vec![];
        for e in els {
            match blocks.last_mut() {
                Some(b) if b.len() < block.max(1) && b[0].key().0 == e.key().0 => b.push(e.clone()),
                _ => blocks.push(vec![e.clone()]),
            }
        }
        (blocks.len(), EFile::plain(blocks, how))
    };
    let mut els = c.els.clone();
    let (mut nblocks, mut file) = file_of(&els, block);
    std::fs::write(&at.real, file.bytes()).map_err(|e| format!("harness: {e}"))?;
    let mut before = snapshot(&at.root, &[]);
    let mut rounds = 0;
    let open = || ok("Reader::new", catch(|| Reader::new(&at.given)));
    let mut r = open()?;
    for op in ops {
        ctx.label(format!("pbf: {op:?}").split('(').next().unwrap().to_string());
        match op {
            POp::Info => {
                if let Some(d) = file.info.diff(r.info()) {
                    return Err(format!("{op:?}: header: {d}"));
                }
            }
            POp::Elements(k) => {
                let got: Vec<Element> = ok("elements", catch(|| Ok(r.elements()?.take(k.map_or(usize::MAX, |k| k as usize)).collect())))?;
                let expected = k.map_or(els.len(), |k| (k as usize).min(els.len()));
                if got.len() != expected {
                    return Err(format!("{op:?}: {} elements instead of {expected}", got.len()));
                }
                prefix(&format!("{op:?}"), &els, &got, k.is_none())?;
            }
            POp::Two => {
                let (a, b) = ok("two iterators", catch(|| {
                    let (mut x, mut y) = (r.elements()?, r.elements()?);
                    let (mut a, mut b) = (vec![], vec![]);
                    loop {
                        let (e, f) = (x.next(), y.next());
                        if e.is_none() && f.is_none() {
                            return Ok((a, b));
                        }
                        a.extend(e);
                        b.extend(f);
                    }
                }))?;
                prefix("the first of two iterators", &els, &a, true)?;
                prefix("the second of two iterators", &els, &b, true)?;
            }
            POp::Blocks(k) => {
                let n = ok("blocks", catch(|| Ok(r.blocks()?.take(k.map_or(usize::MAX, |k| k as usize)).count())))?;
                let expected = k.map_or(nblocks + 1, |k| (k as usize).min(nblocks + 1));
                if n != expected {
                    return Err(format!("{op:?}: {n} blocks instead of {expected}"));
                }
            }
            POp::Parallel(t) => {
                let seen = Arc::new(Mutex::new(vec![]));
                let s = seen.clone();
                ok("parallel iteration", catch(|| {
                    r.parallel_for_each((*t).max(1) as usize, move |e| {
                        if !e.is_sentinel() {
                            s.lock().unwrap().push(e);
                        }
                        Ok(())
                    })
                }))?;
                let mut got = std::mem::take(&mut *seen.lock().unwrap());
                got.sort_by_key(key_lib);
                prefix(&format!("{op:?}"), &els, &got, true)?;
            }
            POp::Fails(t, k) => {
                let calls = Arc::new(AtomicUsize::new(0));
                let s = calls.clone();
                let k = *k as usize;
                let res = catch(|| {
                    r.parallel_for_each((*t).max(1) as usize, move |_| {
                        if s.fetch_add(1, Ordering::SeqCst) == k {
                            anyhow::bail!("intended");
                        }
                        Ok(())
                    })
                });
                let total = els.len() + nblocks;
                if matches!(res, Ok(Ok(()))) != (k >= total) {
                    return Err(format!("{op:?} of {total} calls gave {:?}", res.map(|r| r.map_err(|e| format!("{e:#}")))));
                }
            }
            POp::Count => {
                let n = |k| els.iter().filter(|e| e.key().0 == k).count() as i64;
                let got = ok("count_objects", catch(|| r.count_objects()))?;
                if got != (n(0), n(1), n(2)) {
                    return Err(format!("{op:?}: {got:?} instead of {:?}", (n(0), n(1), n(2))));
                }
            }
            POp::Bbox => {
                let nodes = els.iter().any(|e| e.key().0 == 0);
                let got = catch(|| BoundingBoxCalculator::new(&at.given).calc());
                if matches!(got, Ok(Ok(_))) != nodes {
                    return Err(format!("{op:?} of a file {} nodes: {:?}", if nodes { "with" } else { "without" }, got.map(|r| r.map_err(|e| format!("{e:#}")))));
                }
            }
            POp::Clone => r = r.clone(),
            POp::Reopen => r = open()?,
            POp::Replace(rename) => {
                let io = |e: std::io::Error| format!("harness: {e}");
                if let Some(d) = diff(&before, &snapshot(&at.root, &[]), &[]) {
                    return Err(format!("reading a PBF file, {ops:?}: {d}"));
                }
                rounds += 1;
                els = others(&els, rounds);
                (nblocks, file) = file_of(&els, block + rounds);
                if *rename {
                    let beside = at.root.join("next");
                    std::fs::write(&beside, file.bytes()).map_err(io)?;
                    std::fs::rename(&beside, &at.real).map_err(io)?;
                } else {
                    std::fs::write(&at.real, file.bytes()).map_err(io)?;
                }
                before = snapshot(&at.root, &[]);
                r = open()?;
            }
            POp::Damaged(how, place, way) => {
                let p = ctx.path("damaged.osm.pbf");
                let other = file_of(&others(&els, 99), block).1;
                std::fs::write(&p, spoiled(&other, *how, *place as u64)).map_err(|e| format!("harness: {e}"))?;
                read_spoiled(&p, *way, *place as usize % 4 + 1).map_err(|e| format!("{op:?}: {e}"))?;
            }
        }
    }
    drop(r);
    diff(&before, &snapshot(&at.root, &[]), &[]).map_or(Ok(()), |d| Err(format!("reading a PBF file, {ops:?}: {d}")))
}

/// A dump with a damaged file.
pub fn spoiled_dump(p: &Path, els: &[El], file: u8, how: u8) -> R {
    let io = |e: std::io::Error| format!("harness: {e}");
    write_dump(p, els)?;
    let names = ["4260.dat", "4259.dat", "4294.dat", "4292.dat", "4293.dat", "4279.dat", "4277.dat", "4278.dat", "4222.dat", "4290.dat", "toc.dat"];
    let f = p.join(names[file as usize % names.len()]);
    let mut b = std::fs::read(&f).map_err(io)?;
    match how % 4 {
        0 => b.truncate(b.len() / 2),
        1 => {
            let mut v = b"no number\t\\N\n".to_vec();
            v.append(&mut b);
            b = v;
        }
        2 => {
            // a row in the middle is cut
            if let Some(i) = b.iter().position(|c| *c == b'\t') {
                b.remove(i);
            }
        }
        _ => return std::fs::remove_file(&f).map_err(io),
    }
    std::fs::write(&f, b).map_err(io)
}

fn use_dump(c: &EffCase, ops: &[DOp], ctx: &mut Ctx, dir: &str) -> R {
    let at = place(c, &ctx.dir, dir)?;
    write_dump(&at.real, &c.els)?;
    let mut els = c.els.clone();
    let mut rounds = 0;
    let io = |e: std::io::Error| format!("harness: {e}");
    // temporary directories beside the dump, of the same spelling; the second does not exist yet
    let tmp = [at.root.join(os(&c.dir)).join("tmp"), at.root.join("tmp2").join(os(&c.name))];
    std::fs::create_dir_all(&tmp[0]).map_err(io)?;
    std::fs::create_dir_all(at.root.join("tmp2")).map_err(io)?;
    let mut before = snapshot(&at.root, &tmp);
    let open = |k: usize| ok("opening the dump", catch(|| open_dump(&at.given, &tmp[k])));
    let mut which = 0;
    let mut r: Option<DumpReader> = Some(open(0)?);
    let allowed = [tmp[0].clone(), tmp[1].clone(), at.root.join("tmp2")];
    let check = |els: &[El], what: &str, got: &[Element], k: Option<u16>| -> R {
        let want = sort_tags(els.to_vec());
        let total = want.len() + 3;
        let expected = k.map_or(total, |k| (k as usize).min(total));
        if got.len() != expected {
            return Err(format!("{what}: {} items instead of {expected}", got.len()));
        }
        let els: Vec<Element> = got.iter().filter(|e| !e.is_sentinel()).cloned().collect();
        let els = lib_sorted_tags(&els)?;
        let n = els.len();
        diff_els(&want[..n.min(want.len())], &els).map_or(Ok(()), |d| Err(format!("{what}: {d}")))
    };
    for op in ops {
        ctx.label(format!("dump: {op:?}").split('(').next().unwrap().to_string());
        let reader = r.as_ref().unwrap();
        match op {
            DOp::Elements(k) => {
                let got: Vec<Element> = ok("elements", catch(|| Ok(reader.elements()?.take(k.map_or(usize::MAX, |k| k as usize)).collect())))?;
                check(&els, &format!("{op:?}"), &got, *k)?;
            }
            DOp::Two => {
                let (a, b) = ok("two iterators", catch(|| {
                    let (mut x, mut y) = (reader.elements()?, reader.elements()?);
                    let (mut a, mut b) = (vec![], vec![]);
                    loop {
                        let (e, f) = (x.next(), y.next());
                        if e.is_none() && f.is_none() {
                            return Ok((a, b));
                        }
                        a.extend(e);
                        b.extend(f);
                    }
                }))?;
                check(&els, "the first of two iterators", &a, None)?;
                check(&els, "the second of two iterators", &b, None)?;
            }
            DOp::Reopen(other) => {
                if *other {
                    which ^= 1;
                }
                drop(r.take());
                r = Some(open(which)?);
            }
            DOp::Replace => {
                drop(r.take());
                if let Some(d) = diff(&before, &snapshot(&at.root, &tmp), &allowed) {
                    return Err(format!("reading a dump, {ops:?}: {d}"));
                }
                rounds += 1;
                els = others(&els, rounds);
                write_dump(&at.real, &els)?;
                before = snapshot(&at.root, &tmp);
                r = Some(open(which)?);
            }
            DOp::Damaged(file, how, same) => {
                let p = ctx.path("damaged");
                let _ = std::fs::remove_dir_all(&p);
                spoiled_dump(&p, &others(&els, 99), *file, *how)?;
                // the reader that is open may go on reading the sorted copies in its directory
                drop(r.take());
                let t = if *same { tmp[which].clone() } else { ctx.path("damaged-tmp") };
                let _ = catch(|| -> Result<(), anyhow::Error> { Ok(drop(open_dump(&p, &t)?.elements()?.count())) });
                r = Some(open(which)?);
            }
        }
    }
    drop(r);
    diff(&before, &snapshot(&at.root, &tmp), &allowed).map_or(Ok(()), |d| Err(format!("reading a dump, {ops:?}: {d}")))
}

fn use_write(c: &EffCase, how: u8, before: u8, zlib: bool, ctx: &mut Ctx, dir: &str) -> R {
    let at = place(c, &ctx.dir, dir)?;
    let io = |e: std::io::Error| format!("harness: {e}");
    let info = Info::basic();
    let more: Vec<El> = {
        let mut v = c.els.clone();
        v.extend((0..2000).map(|i| El {
            m: Meta { id: (1 << 40) + i, version: 1, ts: 1_300_000_000_000, changeset: 1 << 33, uid: 77, user: "earlier".into(), visible: true, tags: vec![("earlier".into(), format!("{i}"))] },
            b: Body::Node { lat: 1_000_000_000, lon: 2_000_000_000 },
        }));
        v.sort_by_key(|e| e.key());
        v
    };
    let mut strangers = vec![];
    if how == 2 {
        // a linked directory has to exist
        if before > 0 || c.spell == Spell::Link {
            std::fs::create_dir_all(&at.real).map_err(io)?;
        }
        if before > 0 {
            for n in ["notes.txt", "1.dat", "toc.dat.bak", "restore.sql"] {
                std::fs::write(at.real.join(n), n).map_err(io)?;
                strangers.push(n);
            }
        }
        match before {
            1 => std::fs::write(at.real.join("4260.dat"), "x").map_err(io)?,
            2 => {
                for n in ["4260.dat", "4222.dat", "toc.dat"] {
                    std::fs::write(at.real.join(n), "line\n".repeat(40_000)).map_err(io)?;
                }
            }
            3 => write_dump(&at.real, &more)?,
            _ => {}
        }
    } else {
        match before {
            1 => std::fs::write(&at.real, "x").map_err(io)?,
            2 => std::fs::write(&at.real, "some line\n".repeat(300_000)).map_err(io)?,
            3 => write_seq(&at.real, &info, &more, &[0], !zlib)?,
            _ => {}
        }
    }
    let shot = snapshot(&at.root, &[]);
    ctx.label(format!("write: {}, before: {before}", ["sequential", "parallel", "dump"][how as usize % 3]));
    match how {
        0 => write_seq(&at.given, &info, &c.els, &[3, 0], zlib)?,
        1 => write_par(&at.given, &info, 20, 7, zlib, calls_of(&c.els, &[4]))?,
        _ => write_dump(&at.given, &c.els)?,
    }
    let after = snapshot(&at.root, &[]);
    let mut allowed: Vec<PathBuf> = vec![at.real.clone()];
    if how == 2 {
        let names: Vec<PathBuf> = after.keys().filter(|p| p.parent() == Some(&at.real)).cloned().collect();
        for p in &names {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            if strangers.contains(&n.as_str()) {
                continue;
            }
            let dat = n.strip_suffix(".dat").is_some_and(|d| d == "toc" || (!d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())));
            if !dat {
                return Err(format!("writing a dump: unexpected file {n:?}"));
            }
            allowed.push(p.clone());
        }
        if names.len() != 54 + strangers.len() {
            return Err(format!("writing a dump: {} files beside {} earlier ones, not 54", names.len() - strangers.len(), strangers.len()));
        }
    }
    if let Some(d) = diff(&shot, &after, &allowed) {
        return Err(format!("writing: {d}"));
    }
    if how == 2 {
        let tmp = ctx.path(&format!("{dir}-tmp"));
        std::fs::create_dir_all(&tmp).map_err(io)?;
        let got = check_dump_sentinels(&read_dump_lib(&at.real, &tmp)?)?;
        diff_els(&sort_tags(c.els.clone()), &lib_sorted_tags(&got)?).map_or(Ok(()), |d| Err(format!("written over what was there: {d}")))
    } else {
        let (_, got) = read_seq(&at.real)?;
        diff_seq(&c.els, &got).map_or(Ok(()), |d| Err(format!("written over what was there: {d}")))
    }
}

fn all_uses(c: &EffCase, ctx: &mut Ctx, round: &str) -> R {
    for (i, u) in c.uses.iter().enumerate() {
        let dir = format!("{round}{i}");
        match u {
            Use::Pbf { ops, zlib, block } => use_pbf(c, ops, *zlib, *block as usize, ctx, &dir)?,
            Use::Dump { ops } => use_dump(c, ops, ctx, &dir)?,
            Use::Write { how, before, zlib } => use_write(c, *how % 3, *before % 4, *zlib, ctx, &dir)?,
        }
    }
    Ok(())
}

pub struct C27;
impl Prop for C27 {
    type Case = EffCase;
    const ID: &'static str = "C27";
    const RULE: &'static str = "A small element stream, names of directory and file (spaces, Unicode, control characters, bytes that are no UTF-8, ...), a spelling of the path (absolute, relative, with .., symbolic link) and one to three uses in sequence: a history of operations on a PBF reader (complete, partial, alternating, parallel, failing; the file replaced by another and opened again; other, damaged files read in between), one on a dump reader (reopened with the same or another temporary directory, or after another dump took its place), or writing over what was there before, beside other files. Each operation's result is compared with the data; before and after each use everything in the directory tree (contents, times, inodes, modes) and at the end the open files, threads, the current and the system's temporary directory. Non-trivial: at least two operations or an earlier target.";
    const SHARDS: u32 = 3;
    const ASSUMPTIONS: &'static [&'static str] = &["access times are not compared", "open files and threads are compared after at most 10 s, and a rise counts only if a second run of the same uses raises them again"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1200 } else { 40_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<EffCase> {
        let take = || prop_oneof![1 => Just(None), 1 => (0u16..20).prop_map(Some)];
        let pop = prop_oneof![
            1 => Just(POp::Info),
            4 => take().prop_map(POp::Elements),
            1 => Just(POp::Two),
            2 => take().prop_map(POp::Blocks),
            2 => (1u8..5).prop_map(POp::Parallel),
            2 => (1u8..4, 0u16..12).prop_map(|(t, k)| POp::Fails(t, k)),
            1 => Just(POp::Count),
            1 => Just(POp::Bbox),
            1 => Just(POp::Clone),
            1 => Just(POp::Reopen),
            2 => any::<bool>().prop_map(POp::Replace),
            2 => (0u8..SPOILS, any::<u16>(), 0u8..5).prop_map(|(h, p, w)| POp::Damaged(h, p, w)),
        ];
        let dop = prop_oneof![
            4 => take().prop_map(DOp::Elements),
            1 => Just(DOp::Two),
            2 => any::<bool>().prop_map(DOp::Reopen),
            1 => Just(DOp::Replace),
            1 => (0u8..11, 0u8..4, any::<bool>()).prop_map(|(f, h, s)| DOp::Damaged(f, h, s)),
        ];
        let u = prop_oneof![
            3 => (prop::collection::vec(pop, 1..7), any::<bool>(), 1u8..8).prop_map(|(ops, zlib, block)| Use::Pbf { ops, zlib, block }),
            1 => prop::collection::vec(dop, 1..5).prop_map(|ops| Use::Dump { ops }),
            3 => (0u8..3, 0u8..4, any::<bool>()).prop_map(|(how, before, zlib)| Use::Write { how, before, zlib }),
        ];
        let spell = prop_oneof![2 => Just(Spell::Absolute), 1 => Just(Spell::Relative), 1 => Just(Spell::Dotted), 1 => Just(Spell::Link)];
        (gen::elements(Dom::Db, 20), name(), name(), spell, prop::collection::vec(u, 1..4))
            .prop_map(|(els, dir, name, spell, uses)| EffCase { els, dir, name, spell, uses })
            .boxed()
    }
    fn run(c: &EffCase, ctx: &mut Ctx) -> R {
        let old = std::env::current_dir().map_err(|e| format!("harness: {e}"))?;
        let cwd = ctx.path("cwd");
        std::fs::create_dir_all(&cwd).map_err(|e| format!("harness: {e}"))?;
        std::env::set_current_dir(&cwd).map_err(|e| format!("harness: {e}"))?;
        let _back = BackTo(old);
        let bytes = |v: &[u8]| std::str::from_utf8(v).is_err();
        ctx.when(bytes(&c.dir) || bytes(&c.name), "path: not UTF-8");
        ctx.when(c.name.iter().chain(&c.dir).any(|b| b.is_ascii_control()), "path: control characters");
        ctx.label(format!("path: {:?}", c.spell));
        ctx.nontrivial(c.uses.iter().any(|u| match u {
            Use::Pbf { ops, .. } => ops.len() > 1,
            Use::Dump { ops } => ops.len() > 1,
            Use::Write { before, .. } => *before > 0,
        }));
        let list = |p: &Path| -> Vec<PathBuf> {
            let mut v: Vec<PathBuf> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            v.sort();
            v
        };
        let system_tmp = ctx.path("system-tmp");
        std::fs::create_dir_all(&system_tmp).map_err(|e| format!("harness: {e}"))?;
        std::env::set_var("TMPDIR", &system_tmp);
        let mut start = held();
        for round in 0..2 {
            all_uses(c, ctx, if round == 0 { "u" } else { "v" })?;
            let mut end = held();
            // where something is kept, waiting for it once is enough
            static LATE: AtomicUsize = AtomicUsize::new(0);
            let wait = if LATE.load(Ordering::Relaxed) < 3 { 10 } else { 2 };
            let until = std::time::Instant::now() + std::time::Duration::from_secs(wait);
            while (end.0.len() > start.0.len() || end.1 > start.1) && std::time::Instant::now() < until {
                std::thread::sleep(std::time::Duration::from_millis(20));
                end = held();
            }
            if end.0.len() <= start.0.len() && end.1 <= start.1 {
                break;
            }
            LATE.fetch_add(1, Ordering::Relaxed);
            if round == 1 {
                let new: Vec<&String> = end.0.iter().filter(|f| !start.0.contains(f)).collect();
                return Err(format!("left behind: {} open files more, such as {new:?}, {} threads more", end.0.len() as i64 - start.0.len() as i64, end.1 as i64 - start.1 as i64));
            }
            // something kept once per process is no leak
            start = end;
        }
        if !list(&cwd).is_empty() {
            return Err(format!("created in the current directory: {:?}", list(&cwd)));
        }
        if !list(&system_tmp).is_empty() {
            return Err(format!("left in the system's temporary directory: {:?}", list(&system_tmp)));
        }
        Ok(())
    }
}
