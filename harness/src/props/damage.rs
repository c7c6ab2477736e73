//! Damaged and foreign PBF input.
use crate::driver::*;
use crate::enc::{self, diff_want, efile, frame, EFile, Want, M_ALL};
use crate::gen::{self, mix, Dom, Info, SUPPORTED};
use crate::model::*;
use crate::wire::{self, fields, get_varint, put_varint, unzig, zigzag, Comp, Pb, Val};
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- largest allocation

pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
    pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
    static ON: AtomicBool = AtomicBool::new(false);
    static LIVE: AtomicI64 = AtomicI64::new(0);
    static PEAK: AtomicI64 = AtomicI64::new(0);
    pub struct Tracking;
    fn note(n: usize) {
        // one load in the usual case
        if n > LARGEST.load(Ordering::Relaxed) {
            LARGEST.fetch_max(n, Ordering::Relaxed);
        }
    }
    fn live(d: i64) {
        if ON.load(Ordering::Relaxed) {
            let l = LIVE.fetch_add(d, Ordering::Relaxed) + d;
            if l > PEAK.load(Ordering::Relaxed) {
                PEAK.fetch_max(l, Ordering::Relaxed);
            }
        }
    }
    /// Heap allocated in addition during a call, at most and at its end (by all threads).
    pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ON.store(false, Ordering::SeqCst);
            }
        }
        LIVE.store(0, Ordering::SeqCst);
        PEAK.store(0, Ordering::SeqCst);
        ON.store(true, Ordering::SeqCst);
        let _off = Off;
        let r = f();
        (r, PEAK.load(Ordering::SeqCst), LIVE.load(Ordering::SeqCst))
    }
    unsafe impl GlobalAlloc for Tracking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note(l.size());
            live(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note(l.size());
            live(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            live(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note(n);
            live(n as i64 - l.size() as i64);
            System.realloc(p, l, n)
        }
    }
}

/// well above what blocks at the format's limits need
const MAX_ALLOC: usize = 80 << 20;

// ---------------------------------------------------------------- case

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lie {
    Add(i32),
    Is(i64),
    /// position of a field boundary inside the uncompressed data
    Boundary(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// change one byte of a block. region 0: length, 1: block header, 2: any byte of the blob,
    /// 3: start of the blob, 4: its end, 5: uncompressed payload
    Flip { block: u16, region: u8, pos: u16, xor: u8 },
    /// 0 length of the block header, 1 datasize, 2 raw_size
    Lie { block: u16, what: u8, lie: Lie },
    Dup(u16, u16),
    Drop(u16),
    Swap(u16, u16),
    Rename(u16, String),
    /// other compression methods
    Codec(u16, u8),
    /// 40 MiB of zeros, compressed; declared size
    Bomb(u16, i64),
    /// a change in the structure of a data block, after which it is invalid
    Struct { block: u16, kind: u8, pick: u16, at: u16, val: u8 },
    CutBlock(u16),
    Cut(u16),
    Insert(u16, Vec<u8>),
    Remove(u16, u16),
    /// something else instead of the file
    Foreign { kind: u8, salt: u64, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamCase {
    pub file: EFile,
    pub muts: Vec<Mut>,
    /// 0: one file; 1: every truncation; 2: every byte changed with this xor
    pub sweep: Option<u8>,
    /// the damage happens after the reader was created
    pub after_open: bool,
    /// use the parallel functions too
    pub par: bool,
    pub all_cpus: bool,
    /// no other damage, but after so many elements the file is cut there (or removed, if 0)
    #[serde(default)]
    pub shrink: Option<(u16, u16)>,
}

#[derive(Clone)]
struct Piece {
    len: Vec<u8>,
    head: Vec<u8>,
    blob: Vec<u8>,
}

impl Piece {
    fn payload(&self) -> Option<(Comp, Vec<u8>)> {
        let mut out = None;
        for (f, v) in fields(&self.blob).ok()? {
            match (f, v) {
                (1, Val::B(b)) => out = Some((Comp::Raw, b.to_vec())),
                (3, Val::B(b)) => out = Some((Comp::Zlib(6), inflate(b)?.0)),
                _ => {}
            }
        }
        out
    }
    fn ty(&self) -> String {
        for (f, v) in fields(&self.head).unwrap_or_default() {
            if let (1, Val::B(b)) = (f, v) {
                return String::from_utf8_lossy(b).to_string();
            }
        }
        String::new()
    }
    fn of(b: &[u8]) -> Piece {
        let h = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        Piece { len: b[..4].to_vec(), head: b[4..4 + h].to_vec(), blob: b[4 + h..].to_vec() }
    }
    fn replace(&mut self, payload: &[u8], comp: Comp) {
        *self = Piece::of(&frame(&self.ty(), payload, comp, None, 0));
    }
    /// blob changed: correct the declared size
    fn resize(&mut self) {
        let ty = self.ty();
        *self = Piece::of(&wire::frame(&ty, &self.blob, None));
    }
    fn bytes(&self) -> Vec<u8> {
        [&self.len[..], &self.head, &self.blob].concat()
    }
}

/// contents and number of unused bytes after the stream
fn inflate(z: &[u8]) -> Option<(Vec<u8>, usize)> {
    use std::io::Read;
    let mut d = flate2::bufread::ZlibDecoder::new(z);
    let mut o = vec![];
    (&mut d).take(64 << 20).read_to_end(&mut o).ok()?;
    // the end of the stream, with its checksum
    if o.len() == 64 << 20 || d.read(&mut [0]).ok()? != 0 {
        return None;
    }
    let used = d.total_in() as usize;
    Some((o, z.len() - used))
}

fn put(p: &mut Pb, f: u32, v: &Val) {
    match v {
        Val::V(x) => {
            p.varint(f, *x);
        }
        Val::B(b) => {
            p.bytes(f, b);
        }
        Val::F64(x) => {
            p.key(f, 1);
            p.0.extend_from_slice(&x.to_le_bytes());
        }
        Val::F32(x) => {
            p.key(f, 5);
            p.0.extend_from_slice(&x.to_le_bytes());
        }
    }
}

/// Set an integer field of a message.
fn set_int(msg: &[u8], field: u32, f: impl Fn(Option<i64>) -> i64) -> Option<Vec<u8>> {
    let mut p = Pb::new();
    let mut done = false;
    for (n, v) in fields(msg).ok()? {
        match v {
            Val::V(x) if n == field => {
                p.int(n, f(Some(x as i64)));
                done = true;
            }
            v => put(&mut p, n, &v),
        }
    }
    if !done {
        p.int(field, f(None));
    }
    Some(p.0)
}

fn bomb() -> &'static Vec<u8> {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| wire::zlib(&vec![0; 40 << 20], 9))
}

// ---------------------------------------------------------------- structural damage

/// A message whose repeated integer fields can be read and replaced.
struct Node(Vec<(u32, Vec<u8>, bool)>);

impl Node {
    fn parse(b: &[u8]) -> Option<Node> {
        let mut out = vec![];
        for (n, v) in fields(b).ok()? {
            match v {
                Val::B(x) => out.push((n, x.to_vec(), true)),
                v => {
                    let mut p = Pb::new();
                    put(&mut p, n, &v);
                    out.push((n, p.0, false));
                }
            }
        }
        Some(Node(out))
    }
    fn bytes(&self) -> Vec<u8> {
        let mut p = Pb::new();
        for (n, b, len) in &self.0 {
            if *len {
                p.bytes(*n, b);
            } else {
                p.0.extend_from_slice(b);
            }
        }
        p.0
    }
    fn ints(&self, f: u32) -> Vec<u64> {
        let mut out = vec![];
        for (n, b, len) in &self.0 {
            if *n == f {
                let mut p = 0;
                if !*len {
                    let _ = get_varint(b, &mut p);
                }
                while p < b.len() {
                    match get_varint(b, &mut p) {
                        Ok(v) => out.push(v),
                        Err(_) => break,
                    }
                }
            }
        }
        out
    }
    fn set_ints(&mut self, f: u32, v: &[u64]) {
        self.0.retain(|x| x.0 != f);
        if !v.is_empty() {
            let mut b = vec![];
            for x in v {
                put_varint(&mut b, *x);
            }
            self.0.push((f, b, true));
        }
    }
    /// indexes of sub-messages
    fn subs(&self, fs: &[u32]) -> Vec<usize> {
        (0..self.0.len()).filter(|i| self.0[*i].2 && fs.contains(&self.0[*i].0)).collect()
    }
}

fn out_of_range(n: usize, val: u8) -> u64 {
    [n as u64, n as u64 + 1, i32::MAX as u64, u32::MAX as u64, n as u64 + 1000][val as usize % 5]
}

/// Damage a block so that a reference is dangling or parallel arrays disagree; None if it has
/// nothing that can be damaged this way.
fn damage(payload: &[u8], kind: u8, pick: u16, at: u16, val: u8) -> Option<(Vec<u8>, &'static str)> {
    let mut top = Node::parse(payload)?;
    let strings = {
        let i = *top.subs(&[1]).first()?;
        Node::parse(&top.0[i].1)?.subs(&[1]).len()
    };
    // every place where something can be damaged
    let mut places = vec![];
    for g in top.subs(&[2]) {
        for s in Node::parse(&top.0[g].1)?.subs(&[1, 2, 3, 4]) {
            places.push((g, s));
        }
    }
    let (g, s) = *places.get(pick as usize % places.len().max(1))?;
    let mut grp = Node::parse(&top.0[g].1)?;
    let mut el = Node::parse(&grp.0[s].1)?;
    let bump = |v: &mut Vec<u64>, what: u64| -> Option<()> {
        let n = v.len();
        *v.get_mut(at as usize % n.max(1))? = what;
        Some(())
    };
    let what = match (grp.0[s].0, kind % 12) {
        // tags of nodes, ways, relations
        (1 | 3 | 4, 0) => {
            let f = 2 + (val & 1) as u32;
            let mut v = el.ints(f);
            v.push(0);
            el.set_ints(f, &v);
            "keys and values differ in number"
        }
        (1 | 3 | 4, 1) => {
            let f = 2 + (val & 1) as u32;
            let mut v = el.ints(f);
            v.pop()?;
            el.set_ints(f, &v);
            "keys and values differ in number"
        }
        (1 | 3 | 4, 2 | 3) => {
            let f = kind as u32 % 12;
            let mut v = el.ints(f);
            bump(&mut v, out_of_range(strings, val))?;
            el.set_ints(f, &v);
            "tag refers to a missing string"
        }
        (1 | 3 | 4, 4 | 5) => {
            let i = *el.subs(&[4]).first()?;
            let mut n = Node::parse(&el.0[i].1)?;
            if n.ints(5).is_empty() {
                return None;
            }
            n.0.retain(|x| x.0 != 5);
            let mut p = Pb::new();
            p.varint(5, out_of_range(strings, val));
            n.0.push((5, p.0, false));
            el.0[i].1 = n.bytes();
            "user refers to a missing string"
        }
        (4, 6) => {
            let mut v = el.ints(8);
            bump(&mut v, [strings as u64, i32::MAX as u64, u64::MAX, strings as u64 + 7][val as usize % 4])?;
            el.set_ints(8, &v);
            "role refers to a missing string"
        }
        (4, 7 | 8) => {
            let f = 8 + (val % 3) as u32;
            let mut v = el.ints(f);
            v.pop()?;
            el.set_ints(f, &v);
            "member arrays differ in length"
        }
        (4, 9 | 10) => {
            let f = 8 + (val % 3) as u32;
            let mut v = el.ints(f);
            v.push(0);
            el.set_ints(f, &v);
            "member arrays differ in length"
        }
        (4, 11) => {
            let mut v = el.ints(10);
            bump(&mut v, [3, 4, 7, u64::MAX][val as usize % 4])?;
            el.set_ints(10, &v);
            "unknown member type"
        }
        (2, 0 | 1) => {
            let f = [1, 8, 9][val as usize % 3];
            let mut v = el.ints(f);
            v.pop()?;
            el.set_ints(f, &v);
            "dense arrays differ in length"
        }
        (2, 2) => {
            let f = [1, 8, 9][val as usize % 3];
            let mut v = el.ints(f);
            v.push(0);
            el.set_ints(f, &v);
            "dense arrays differ in length"
        }
        (2, 3 | 4) => {
            let i = *el.subs(&[5]).first()?;
            let mut n = Node::parse(&el.0[i].1)?;
            let f = 1 + (val % 6) as u32;
            let mut v = n.ints(f);
            if kind % 12 == 3 {
                if v.len() < 2 {
                    return None;
                }
                v.pop();
            } else {
                if v.is_empty() {
                    return None;
                }
                v.push(0);
            }
            n.set_ints(f, &v);
            el.0[i].1 = n.bytes();
            "dense metadata arrays differ in length"
        }
        (2, 5 | 6) => {
            let i = *el.subs(&[5]).first()?;
            let mut n = Node::parse(&el.0[i].1)?;
            let mut v = n.ints(5);
            let k = at as usize % v.len().max(1);
            v.get(k)?;
            let before: i64 = v[..k].iter().map(|x| unzig(*x)).sum();
            let to = [strings as i64, -1, strings as i64 + 3, -5][val as usize % 4];
            v[k] = zigzag(to - before);
            n.set_ints(5, &v);
            el.0[i].1 = n.bytes();
            "dense user refers to a missing string"
        }
        (2, 7 | 8) => {
            let mut v = el.ints(10);
            let mut slots = vec![];
            let mut i = 0;
            while i < v.len() {
                if v[i] == 0 {
                    i += 1;
                } else {
                    slots.push(i);
                    slots.push(i + 1);
                    i += 2;
                }
            }
            let k = *slots.get(at as usize % slots.len().max(1))?;
            v[k] = [strings as u64, i32::MAX as u64, u64::MAX, strings as u64 + 9][val as usize % 4];
            el.set_ints(10, &v);
            "dense tag refers to a missing string"
        }
        (2, 9) => {
            let mut v = el.ints(10);
            if v.len() < 2 {
                return None;
            }
            v.pop();
            el.set_ints(10, &v);
            "dense tag lists end early"
        }
        (2, 10) => {
            let mut v = el.ints(10);
            if el.ints(1).is_empty() || v.is_empty() {
                return None;
            }
            v.push(0);
            el.set_ints(10, &v);
            "more dense tag lists than nodes"
        }
        (2, 11) => {
            let mut v = el.ints(10);
            if el.ints(1).is_empty() || v.is_empty() || strings < 2 {
                return None;
            }
            v.push(1);
            el.set_ints(10, &v);
            "dense tag without a value"
        }
        _ => return None,
    };
    grp.0[s].1 = el.bytes();
    top.0[g].1 = grp.bytes();
    Some((top.bytes(), what))
}

/// A group of changesets, which no element iterator can deliver.
fn changesets(payload: &[u8], val: u8) -> (Vec<u8>, &'static str) {
    let mut g = Pb::new();
    for i in 0..1 + val as u64 % 3 {
        let mut c = Pb::new();
        c.varint(1, 1 + i);
        g.bytes(5, &c.0);
    }
    let mut p = Pb::new();
    p.bytes(2, &g.0);
    (if val & 64 == 0 { [payload, &p.0].concat() } else { [&p.0, payload].concat() }, "changesets among the elements")
}

/// Make a string that an element refers to something else than UTF-8.
fn spoil_string(payload: &[u8], at: u16, val: u8) -> Option<(Vec<u8>, &'static str)> {
    let mut top = Node::parse(payload)?;
    let mut used: Vec<usize> = vec![];
    for g in top.subs(&[2]) {
        let grp = Node::parse(&top.0[g].1)?;
        for s in grp.subs(&[1, 2, 3, 4]) {
            let el = Node::parse(&grp.0[s].1)?;
            let mut u: Vec<u64> = vec![];
            if grp.0[s].0 == 2 {
                u.extend(el.ints(10).into_iter().filter(|v| *v != 0));
            } else {
                u.extend(el.ints(2));
                u.extend(el.ints(3));
                if grp.0[s].0 == 4 {
                    u.extend(el.ints(8));
                }
            }
            used.extend(u.into_iter().map(|v| v as usize));
        }
    }
    used.sort();
    used.dedup();
    let k = *used.get(at as usize % used.len().max(1))?;
    let i = *top.subs(&[1]).first()?;
    let mut table = Node::parse(&top.0[i].1)?;
    let j = *table.subs(&[1]).get(k)?;
    let s = &mut table.0[j].1;
    let bad: &[u8] = [&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xf0\x9f\x98", b"\xf5\x80\x80\x80"][val as usize % 6];
    let n = if val & 64 == 0 { s.len() } else { 0 };
    s.splice(n..n, bad.iter().copied());
    if std::str::from_utf8(s).is_ok() {
        return None;
    }
    top.0[i].1 = table.bytes();
    Some((top.bytes(), "used string is not UTF-8"))
}

// ---------------------------------------------------------------- building the damaged file

struct Built {
    bytes: Vec<u8>,
    special: u8,
    bad: HashSet<Vec<u8>>,
    /// all that was done leaves a conforming file
    clean: bool,
    labels: Vec<String>,
}

fn build(c: &DamCase, src: &[u8]) -> Built {
    let mut pieces = pieces_of(src);
    let mut b = Built { bytes: vec![], special: 0, bad: HashSet::new(), clean: true, labels: vec![] };
    let note = |b: &mut Built, s: &str, clean: bool| {
        b.labels.push(s.to_string());
        b.clean &= clean;
    };
    for m in &c.muts {
        let n = pieces.len();
        let at = |k: u16| k as usize % n.max(1);
        if n == 0 {
            break;
        }
        match m {
            Mut::Flip { block, region, pos, xor } => {
                let p = &mut pieces[at(*block)];
                let x = if *xor == 0 { 1 } else { *xor };
                if *region == 5 {
                    if let Some((comp, mut d)) = p.payload() {
                        if !d.is_empty() {
                            let k = *pos as usize % d.len();
                            d[k] ^= x;
                            p.replace(&d, comp);
                            note(&mut b, "payload byte changed", false);
                        }
                    }
                } else {
                    let t: &mut [u8] = match region {
                        0 => &mut p.len,
                        1 => &mut p.head,
                        2 => &mut p.blob,
                        3 => {
                            let k = p.blob.len().min(14);
                            &mut p.blob[..k]
                        }
                        _ => {
                            let k = p.blob.len().saturating_sub(5);
                            &mut p.blob[k..]
                        }
                    };
                    if !t.is_empty() {
                        let k = *pos as usize % t.len();
                        t[k] ^= x;
                        note(&mut b, ["length byte changed", "block header byte changed", "blob byte changed", "blob byte changed", "blob byte changed"][*region as usize % 5], false);
                    }
                }
            }
            Mut::Lie { block, what, lie } => {
                let p = &mut pieces[at(*block)];
                let tell = |old: Option<i64>, payload: Option<&[u8]>| match lie {
                    Lie::Add(d) => old.unwrap_or(0) + *d as i64,
                    Lie::Is(v) => *v,
                    Lie::Boundary(k) => {
                        let mut ends = vec![0i64];
                        if let Some(d) = payload {
                            let mut q = 0;
                            while q < d.len() {
                                let key = get_varint(d, &mut q).unwrap_or(2);
                                match key & 7 {
                                    0 => {
                                        let _ = get_varint(d, &mut q);
                                    }
                                    1 => q += 8,
                                    5 => q += 4,
                                    _ => q += get_varint(d, &mut q).unwrap_or(0) as usize,
                                }
                                ends.push(q as i64);
                            }
                        }
                        ends[*k as usize % ends.len()]
                    }
                };
                match what % 3 {
                    0 => {
                        let old = u32::from_be_bytes(p.len[..].try_into().unwrap_or([0; 4]));
                        p.len = (tell(Some(old as i64), None) as u32).to_be_bytes().to_vec();
                        note(&mut b, "wrong header length", false);
                    }
                    1 => {
                        if let Some(h) = set_int(&p.head, 3, |o| tell(o, None)) {
                            p.head = h;
                            p.len = (p.head.len() as u32).to_be_bytes().to_vec();
                            note(&mut b, "wrong data size", false);
                        }
                    }
                    _ => {
                        let d = p.payload().map(|x| x.1);
                        if let Some(x) = set_int(&p.blob, 2, |o| tell(o, d.as_deref())) {
                            p.blob = x;
                            p.resize();
                            note(&mut b, "wrong uncompressed size", false);
                        }
                    }
                }
            }
            Mut::Dup(k, to) => {
                let x = pieces[at(*k)].clone();
                // not before the header
                pieces.insert(1 + *to as usize % n, x);
                note(&mut b, "block twice", true);
            }
            Mut::Drop(k) => {
                pieces.remove(at(*k));
                note(&mut b, "block missing", at(*k) != 0);
            }
            Mut::Swap(i, j) => {
                pieces.swap(at(*i), at(*j));
                note(&mut b, "blocks swapped", at(*i) != 0 && at(*j) != 0);
            }
            Mut::Rename(k, ty) => {
                let p = &mut pieces[at(*k)];
                *p = Piece::of(&wire::frame(ty, &p.blob, None));
                note(&mut b, "block of another type", at(*k) != 0 && !ty.is_empty() && ty != "OSMData" && ty != "OSMHeader");
            }
            Mut::Codec(k, f) => {
                let p = &mut pieces[at(*k)];
                if let Some((_, d)) = p.payload() {
                    let mut x = Pb::new();
                    x.int(2, d.len() as i64);
                    if *f >= 4 {
                        x.bytes(*f as u32, &d);
                    }
                    p.blob = x.0;
                    p.resize();
                    note(&mut b, "other compression or no data", false);
                }
            }
            Mut::Bomb(k, size) => {
                let p = &mut pieces[at(*k)];
                let mut x = Pb::new();
                x.int(2, *size);
                x.bytes(3, bomb());
                p.blob = x.0;
                p.resize();
                note(&mut b, "40 MiB block", false);
            }
            Mut::Struct { block, kind, pick, at: i, val } => {
                let data: Vec<usize> = (0..n).filter(|k| pieces[*k].ty() == "OSMData").collect();
                if data.is_empty() {
                    continue;
                }
                let p = &mut pieces[data[*block as usize % data.len()]];
                if let Some((comp, d)) = p.payload() {
                    // the same damage twice may undo itself
                    if b.bad.contains(&d) {
                        continue;
                    }
                    // look for a place where this kind applies
                    for try_ in 0..24u16 {
                        if let Some((x, what)) = if *kind == 12 { spoil_string(&d, i.wrapping_add(try_), *val) } else if *kind == 13 { Some(changesets(&d, *val)) } else { damage(&d, kind.wrapping_add((try_ / 4) as u8), pick.wrapping_add(try_), *i, *val) } {
                            p.replace(&x, comp);
                            b.bad.insert(x);
                            note(&mut b, what, false);
                            break;
                        }
                    }
                }
            }
            Mut::CutBlock(k) => {
                let k = *k as usize % (n + 1);
                pieces.truncate(k);
                note(&mut b, "cut between blocks", k > 0);
            }
            _ => {}
        }
    }
    b.bytes = pieces.iter().flat_map(|p| p.bytes()).collect();
    for m in &c.muts {
        let n = b.bytes.len();
        match m {
            Mut::Cut(k) => {
                let k = *k as usize % (n + 1);
                b.bytes.truncate(k);
                note(&mut b, "cut", k == n);
            }
            Mut::Insert(k, x) => {
                let k = *k as usize % (n + 1);
                b.bytes.splice(k..k, x.iter().copied());
                note(&mut b, "bytes inserted", x.is_empty());
            }
            Mut::Remove(k, m) => {
                let k = *k as usize % (n + 1);
                let e = (k + *m as usize).min(n);
                b.bytes.drain(k..e);
                note(&mut b, "bytes removed", k == e);
            }
            Mut::Foreign { kind, salt, len } => {
                let len = *len as usize;
                let noise = |s: u64| (0..len).map(|i| (mix(s ^ i as u64) >> 17) as u8).collect::<Vec<u8>>();
                b.special = 0;
                b.bytes = match kind % 14 {
                    0 => vec![],
                    1 => noise(*salt),
                    2 => b"<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\"></osm>\n".to_vec(),
                    3 => [&b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR"[..], &noise(*salt)].concat(),
                    4 => wire::zlib(&noise(*salt), 6),
                    5 => vec![0; len],
                    6 => vec![0xff; len],
                    7 => noise(*salt).iter().map(|b| b' ' + b % 90).collect(),
                    8 => [&b"\x1f\x8b\x08\0"[..], &noise(*salt)].concat(),
                    9 => [&[0u8, 0, 0, (*salt % 40) as u8][..], &noise(*salt)].concat(),
                    // a frame around noise
                    10 => [frame("OSMHeader", &noise(*salt), Comp::Raw, None, 0), b.bytes.clone()].concat(),
                    k => {
                        b.special = k - 10;
                        vec![]
                    }
                };
                note(&mut b, "something else than a PBF file", false);
            }
            _ => {}
        }
    }
    b
}

fn pieces_of(src: &[u8]) -> Vec<Piece> {
    let mut p = 0;
    let mut out = vec![];
    while p < src.len() {
        let h = u32::from_be_bytes(src[p..p + 4].try_into().unwrap()) as usize;
        let head = &src[p + 4..p + 4 + h];
        let size = fields(head)
            .expect("own header")
            .iter()
            .rev()
            .find_map(|(f, v)| match (f, v) {
                (3, Val::V(x)) => Some(*x as usize),
                _ => None,
            })
            .expect("own datasize");
        out.push(Piece { len: src[p..p + 4].to_vec(), head: head.to_vec(), blob: src[p + 4 + h..p + 4 + h + size].to_vec() });
        p += 4 + h + size;
    }
    out
}

// ---------------------------------------------------------------- what the bytes mean

enum Part {
    Want(Vec<Want>),
    /// contents not judged
    Any,
}

#[derive(Debug)]
enum End {
    Ok,
    Invalid(String),
    Unclear,
}

struct Verdict {
    /// the file header, where it is judged
    header: Head,
    /// data blocks in order, up to the end or the first damage
    parts: Vec<Part>,
    end: End,
    /// framing of the first block invalid or not a header
    no_header: bool,
}

enum Head {
    Is(Info),
    Any,
    None,
}

enum Stop {
    Invalid(String),
    Unclear,
}

/// Fields of a framing message: what every protobuf implementation rejects is invalid.
fn tfields(b: &[u8]) -> Result<Vec<(u32, Val<'_>)>, Stop> {
    let inv = |s: &str| Stop::Invalid(s.to_string());
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let k = get_varint(b, &mut p).map_err(|e| inv(&e))?;
        if k > u32::MAX as u64 {
            return Err(Stop::Unclear);
        }
        let f = (k >> 3) as u32;
        if f == 0 {
            return Err(inv("field number 0"));
        }
        match k & 7 {
            0 => {
                let from = p;
                let v = get_varint(b, &mut p).map_err(|e| inv(&e))?;
                if p - from == 10 && b[p - 1] > 1 {
                    return Err(Stop::Unclear);
                }
                out.push((f, Val::V(v)));
            }
            1 => {
                let s = b.get(p..p + 8).ok_or(inv("truncated field"))?;
                p += 8;
                out.push((f, Val::F64(u64::from_le_bytes(s.try_into().unwrap()))));
            }
            2 => {
                let n = get_varint(b, &mut p).map_err(|e| inv(&e))? as usize;
                let e = p.checked_add(n).ok_or(inv("truncated field"))?;
                let s = b.get(p..e).ok_or(inv("truncated field"))?;
                p = e;
                out.push((f, Val::B(s)));
            }
            5 => {
                let s = b.get(p..p + 4).ok_or(inv("truncated field"))?;
                p += 4;
                out.push((f, Val::F32(u32::from_le_bytes(s.try_into().unwrap()))));
            }
            3 | 4 => return Err(Stop::Unclear),
            _ => return Err(inv("unknown wire type")),
        }
    }
    Ok(out)
}

fn int32(v: u64) -> Result<i64, Stop> {
    i32::try_from(v as i64).map(|v| v as i64).map_err(|_| Stop::Unclear)
}

const MIB32: i64 = 32 << 20;

/// payload of a blob
fn unblob(b: &[u8]) -> Result<Vec<u8>, Stop> {
    let inv = |s: &str| Stop::Invalid(s.to_string());
    let mut data = None;
    let mut raw_size = None;
    for (f, v) in tfields(b)? {
        match (f, v) {
            (1 | 3..=7, Val::B(x)) => {
                if data.is_some() {
                    return Err(Stop::Unclear);
                }
                data = Some((f, x));
            }
            (2, Val::V(x)) => raw_size = Some(int32(x)?),
            (1..=7, _) => return Err(Stop::Unclear),
            _ => {}
        }
    }
    match data {
        None => Err(inv("blob without data")),
        Some((1, x)) => Ok(x.to_vec()),
        Some((3, z)) => {
            if let Some(s) = raw_size {
                if !(0..=MIB32).contains(&s) {
                    return Err(inv("uncompressed size out of range"));
                }
            }
            let (o, _) = inflate(z).ok_or(inv("damaged compressed data"))?;
            if o.len() as i64 > MIB32 {
                return Err(inv("uncompressed data above the limit"));
            }
            Ok(o)
        }
        Some(_) => Err(inv("unsupported compression")),
    }
}

/// more than one of a message that may occur once: merged by protobuf, not judged here
fn repeats(payload: &[u8]) -> bool {
    let count = |b: &[u8], f: u32| fields(b).map(|v| v.iter().filter(|x| x.0 == f).count()).unwrap_or(2);
    if count(payload, 1) > 1 {
        return true;
    }
    for (f, v) in fields(payload).unwrap_or_default() {
        let (2, Val::B(g)) = (f, v) else { continue };
        if count(g, 2) > 1 {
            return true;
        }
        for (f, v) in fields(g).unwrap_or_default() {
            let Val::B(e) = v else { continue };
            if count(e, if f == 2 { 5 } else { 4 }) > 1 {
                return true;
            }
        }
    }
    false
}

fn strict(payload: &[u8]) -> Option<Vec<Want>> {
    let d = wire::decode_data(payload).ok()?;
    if repeats(payload) {
        return None;
    }
    let mut out = vec![];
    for el in d.groups.into_iter().flatten() {
        if let Body::Node { lat, lon } = el.b {
            if lat.unsigned_abs() > 400_000_000_000 || lon.unsigned_abs() > 400_000_000_000 {
                return None;
            }
        }
        out.push(Want { el, mask: M_ALL });
    }
    Some(out)
}

fn judge(b: &[u8], known: &HashMap<Vec<u8>, Vec<Want>>, headers: &HashMap<Vec<u8>, Info>, bad: &HashSet<Vec<u8>>, after_open: bool) -> Verdict {
    let mut v = Verdict { header: Head::None, parts: vec![], end: End::Ok, no_header: true };
    let mut p = 0;
    let mut first = true;
    loop {
        if p == b.len() {
            if first {
                v.end = if after_open { End::Unclear } else { End::Invalid("no header block".into()) };
            }
            return v;
        }
        let r = (|| -> Result<(), Stop> {
            let inv = |s: &str| Stop::Invalid(s.to_string());
            let l = b.get(p..p + 4).ok_or(inv("ends inside a length"))?;
            let hl = u32::from_be_bytes(l.try_into().unwrap()) as usize;
            if hl > 64 << 10 {
                return Err(inv("header length out of range"));
            }
            if hl == 64 << 10 {
                return Err(Stop::Unclear);
            }
            let hb = b.get(p + 4..p + 4 + hl).ok_or(inv("ends inside a block header"))?;
            let (mut ty, mut size) = (None, None);
            for (f, x) in tfields(hb)? {
                match (f, x) {
                    (1, Val::B(x)) => ty = Some(std::str::from_utf8(x).map_err(|_| Stop::Unclear)?),
                    (3, Val::V(x)) => size = Some(int32(x)?),
                    (2, Val::B(_)) => {}
                    (1..=3, _) => return Err(Stop::Unclear),
                    _ => {}
                }
            }
            let ty = ty.ok_or(inv("no block type"))?;
            if ty.is_empty() {
                return Err(Stop::Unclear);
            }
            let is_known = ty == "OSMHeader" || ty == "OSMData";
            let size = match size {
                Some(s) => s,
                None if is_known => return Err(inv("no data size")),
                None => return Err(Stop::Unclear),
            };
            if !(0..=MIB32).contains(&size) {
                return Err(inv("data size out of range"));
            }
            if size == MIB32 {
                return Err(Stop::Unclear);
            }
            let from = p + 4 + hl;
            let blob = b.get(from..from + size as usize).ok_or(inv("ends inside a blob"))?;
            if is_known {
                if first && ty != "OSMHeader" {
                    return Err(if after_open { Stop::Unclear } else { inv("starts with a data block") });
                }
                let d = unblob(blob)?;
                if bad.contains(&d) {
                    return Err(inv("inconsistent block"));
                }
                if ty == "OSMData" {
                    v.parts.push(match known.get(&d).cloned().or_else(|| strict(&d)) {
                        Some(w) => Part::Want(w),
                        None => Part::Any,
                    });
                } else {
                    let h = match headers.get(&d).cloned().or_else(|| wire::decode_header(&d).ok()) {
                        Some(i) if i.bbox.is_none_or(|b| b.iter().all(|v| v.unsigned_abs() <= 200_000_000_000)) => Head::Is(i),
                        _ => Head::Any,
                    };
                    if first {
                        v.header = h;
                    } else if matches!(h, Head::Any) {
                        // may fail to decode, which is not judged
                        v.parts.push(Part::Any);
                    }
                }
                first = false;
                v.no_header = false;
            }
            p = from + size as usize;
            Ok(())
        })();
        match r {
            Ok(()) => {}
            Err(Stop::Invalid(m)) => {
                v.end = End::Invalid(format!("{m} (block at byte {p})"));
                return v;
            }
            Err(Stop::Unclear) => {
                v.end = End::Unclear;
                return v;
            }
        }
    }
}

// ---------------------------------------------------------------- running

/// Elements of the parts that are judged: a prefix, and whether that is all of them.
fn expected(v: &Verdict) -> (Vec<Want>, bool) {
    let mut out = vec![];
    for p in &v.parts {
        match p {
            Part::Want(w) => out.extend(w.iter().cloned()),
            Part::Any => return (out, false),
        }
    }
    (out, true)
}

fn sequential(r: &Reader) -> (Vec<Element>, Result<(), String>) {
    let got = Mutex::new(vec![]);
    let res = catch(|| -> Result<(), anyhow::Error> {
        for e in r.elements()? {
            let mut g = got.lock().unwrap();
            g.push(e);
            if g.len() > 5_000_000 {
                panic!("endless iteration");
            }
        }
        Ok(())
    });
    let res = match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p),
    };
    let g = got.into_inner().unwrap_or_else(|e| e.into_inner());
    (g, res)
}

struct Outcome2 {
    rejected: bool,
}

fn check(path: &Path, v: &Verdict, opened: Option<&Reader>, clean: bool, par: bool, all_cpus: bool) -> Result<Outcome2, String> {
    let invalid = |what: &str| -> Option<String> {
        match &v.end {
            End::Invalid(m) => Some(format!("{what} although the file is damaged: {m}")),
            _ => None,
        }
    };
    let own;
    let r = match opened {
        Some(r) => r,
        None => match catch(|| Reader::new(path)).map_err(|p| format!("Reader::new panicked: {p}"))? {
            Ok(r) => {
                if v.no_header {
                    if let Some(m) = invalid("Reader::new succeeded") {
                        return Err(m);
                    }
                }
                if let Head::Is(i) = &v.header {
                    if i.required.iter().any(|f| !SUPPORTED.contains(&f.as_str())) {
                        return Err(format!("Reader::new accepted required features {:?}", i.required));
                    }
                    if let Some(d) = i.diff(r.info()) {
                        return Err(d);
                    }
                }
                own = r;
                &own
            }
            Err(e) => {
                if clean {
                    return Err(format!("Reader::new failed on a conforming file: {e:#}"));
                }
                return Ok(Outcome2 { rejected: true });
            }
        },
    };
    let (want, all) = expected(v);
    let (got, res) = sequential(r);
    if let Err(m) = &res {
        if m.contains("endless iteration") {
            return Err(m.clone());
        }
    }
    // what is delivered before the damage must be right too
    let k = got.len().min(want.len());
    if let Some(d) = diff_want(&want[..k], &got[..k]) {
        return Err(format!("sequential reading of the damaged file delivers wrong data: {d}"));
    }
    let rejected = res.is_err();
    match (&res, &v.end) {
        (Ok(()), End::Invalid(_)) => {
            return Err(format!("{}; {} elements delivered", invalid("sequential reading ended normally").unwrap(), got.len()));
        }
        (Ok(()), End::Ok) if all => {
            if let Some(d) = diff_want(&want, &got) {
                return Err(format!("sequential reading of the damaged file: {d}"));
            }
        }
        (Err(_), End::Invalid(_) | End::Ok) if all => {
            if got.len() > want.len() {
                return Err(format!("{} elements delivered, the file has {} before the damage", got.len(), want.len()));
            }
        }
        _ => {}
    }
    if clean {
        if let Err(m) = &res {
            return Err(format!("sequential reading of a conforming file failed: {m}"));
        }
    }
    if par {
        let got = Arc::new(Mutex::new(vec![]));
        let g2 = got.clone();
        let p = catch(|| {
            r.parallel_for_each(2, move |e| {
                if !e.is_sentinel() {
                    g2.lock().unwrap().push(e);
                }
                Ok(())
            })
        })
        .map_err(|p| format!("parallel_for_each panicked in the caller: {p}"))?;
        match (&p, &v.end) {
            (Ok(()), End::Invalid(_)) => return Err(invalid("parallel_for_each succeeded").unwrap()),
            (Ok(()), End::Ok) if all => {
                let mut keys: HashMap<String, i64> = HashMap::new();
                let show = |w: &El| format!("{w:?}");
                // compare by what is certain of each: the key and the tags
                for w in &want {
                    *keys.entry(show(&key_of(&w.el))).or_insert(0) += 1;
                }
                for e in got.lock().unwrap().iter() {
                    *keys.entry(show(&key_of(&from_lib(e)?.el))).or_insert(0) -= 1;
                }
                if let Some((k, n)) = keys.iter().find(|x| *x.1 != 0) {
                    return Err(format!("parallel_for_each: {} {k}", if *n > 0 { "missing" } else { "not in the file:" }));
                }
            }
            (Err(e), _) if clean => return Err(format!("parallel_for_each failed on a conforming file: {e:#}")),
            _ => {}
        }
    }
    if all_cpus {
        let n = catch(|| r.count_objects()).map_err(|p| format!("count_objects panicked: {p}"))?;
        match (&n, &v.end) {
            (Ok(n), End::Invalid(_)) => return Err(format!("{}: {n:?}", invalid("count_objects succeeded").unwrap())),
            (Ok(n), End::Ok) if all => {
                let mut w = (0i64, 0i64, 0i64);
                for x in &want {
                    match x.el.b {
                        Body::Node { .. } => w.0 += 1,
                        Body::Way { .. } => w.1 += 1,
                        Body::Rel { .. } => w.2 += 1,
                    }
                }
                if *n != w {
                    return Err(format!("count_objects gives {n:?}, the file has {w:?}"));
                }
            }
            (Err(e), _) if clean => return Err(format!("count_objects failed on a conforming file: {e:#}")),
            _ => {}
        }
        let bb = catch(|| BoundingBoxCalculator::new(path).calc()).map_err(|p| format!("bounding box calculation panicked: {p}"))?;
        if bb.is_ok() {
            if let Some(m) = invalid("the bounding box calculation succeeded") {
                return Err(m);
            }
        } else if clean && want.iter().any(|w| matches!(w.el.b, Body::Node { .. })) {
            return Err(format!("bounding box calculation failed on a conforming file: {:#}", bb.unwrap_err()));
        }
    }
    Ok(Outcome2 { rejected })
}

/// an element reduced to what every reader reports alike
fn key_of(e: &El) -> El {
    let mut e = e.clone();
    e.m.version = 0;
    e.m.ts = 0;
    e.m.changeset = 0;
    e.m.uid = 0;
    e
}

/// Cut or remove the file while it is read: either everything is delivered or the reading fails.
fn shrinking(c: &DamCase, src: &[u8], after: u16, cut: u16, path: &Path, ctx: &mut Ctx) -> R {
    let cut = cut as usize % src.len().max(1);
    let mut ends = vec![0];
    for p in pieces_of(src) {
        ends.push(ends.last().unwrap() + p.bytes().len());
    }
    let between = cut > 0 && ends.contains(&cut);
    let want: Vec<Want> = c.file.blocks.iter().flat_map(|b| if b.unknown.is_none() { b.want() } else { vec![] }).collect();
    let after = after as usize % (want.len() + 1);
    ctx.nontrivial(true);
    ctx.when(cut == 0, "removed while reading");
    let spoil = {
        let path = path.to_path_buf();
        move || if cut == 0 { std::fs::remove_file(&path).unwrap() } else { std::fs::File::options().write(true).open(&path).unwrap().set_len(cut as u64).unwrap() }
    };
    let open = || -> Result<Reader, String> {
        std::fs::write(path, src).map_err(|e| e.to_string())?;
        catch(|| Reader::new(path)).map_err(|p| format!("Reader::new panicked: {p}"))?.map_err(|e| format!("Reader::new failed on the intact file: {e:#}"))
    };
    let r = open()?;
    let got = Mutex::new(vec![]);
    let res = catch(|| -> Result<(), anyhow::Error> {
        let mut it = r.elements()?;
        loop {
            if got.lock().unwrap().len() == after && path.exists() {
                spoil();
            }
            let Some(e) = it.next() else { return Ok(()) };
            got.lock().unwrap().push(e);
        }
    });
    let got = got.into_inner().unwrap_or_else(|e| e.into_inner());
    let k = got.len().min(want.len());
    if let Some(d) = diff_want(&want[..k], &got[..k]) {
        return Err(format!("while the file is cut: {d}"));
    }
    let ok = matches!(res, Ok(Ok(())));
    ctx.label(if ok { "read" } else { "rejected" });
    if got.len() > want.len() || ok && !between && got.len() < want.len() {
        return Err(format!("the file was {} after {after} elements, and reading ended normally with {} of {}", if cut == 0 { "removed".to_string() } else { format!("cut at byte {cut} of {}", src.len()) }, got.len(), want.len()));
    }
    if c.par {
        let r = open()?;
        let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let m = n.clone();
        let p = catch(|| {
            r.parallel_for_each(2, move |e| {
                if !e.is_sentinel() && m.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == after {
                    spoil();
                }
                Ok(())
            })
        })
        .map_err(|p| format!("parallel_for_each panicked in the caller: {p}"))?;
        let n = n.load(std::sync::atomic::Ordering::SeqCst);
        if p.is_ok() && !between && n != want.len() {
            return Err(format!("the file was cut or removed, and parallel_for_each succeeded with {n} of {} elements", want.len()));
        }
    }
    Ok(())
}

pub struct C09;
impl Prop for C09 {
    type Case = DamCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "Conforming files made by the independent encoder (all encoding choices; up to 6 blocks of up to 60 elements) with one to three damages: cut at any byte or between blocks, any byte changed (aimed at lengths, block headers, blob starts, checksums, compressed data, decompressed messages), bytes inserted or removed, false header lengths, data sizes and uncompressed sizes (including field boundaries), blocks repeated, dropped, swapped, renamed, other compression methods, 40 MiB bombs, dangling string references, strings that are not UTF-8, groups of changesets and disagreeing parallel arrays in every message type, or something else altogether (noise, other formats, directory, missing path); some damages happen after the reader was created, or cut or remove the file while it is read; sweeps change every single byte of a file or cut it everywhere. An independent splitter and strict decoder decide what the damaged bytes mean: invalid bytes must be rejected by every way of reading, bytes that still define a file must be read as exactly that or be rejected, data delivered before the damage must be right, and conforming results (repeated, dropped, renamed blocks, cuts between blocks) must be read in full. No panic in Reader::new, no hang, no allocation above 80 MiB. Non-trivial: the bytes differ from the original file.";
    const SHARDS: u32 = 8;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 40_000 } else { 3_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<DamCase> {
        let flip = (any::<u16>(), 0u8..6, any::<u16>(), prop_oneof![Just(1u8), Just(0x80), Just(0xff), Just(2), 1u8..=255]).prop_map(|(block, region, pos, xor)| Mut::Flip { block, region, pos, xor });
        let lie = (
            any::<u16>(),
            0u8..3,
            prop_oneof![
                3 => prop::sample::select(vec![-1i32, 1, -2, 2, -10, 10, 100, -100, 1000]).prop_map(Lie::Add),
                2 => prop::sample::select(vec![0i64, 1, -1, i32::MAX as i64, i32::MIN as i64, 1 << 25, (1 << 25) + 1, (1 << 25) - 1, 1 << 16, (1 << 16) + 1, (1 << 16) - 1, 1 << 30, 0xffff_ffff, 0x8000_0000]).prop_map(Lie::Is),
                3 => any::<u8>().prop_map(Lie::Boundary),
            ],
        )
            .prop_map(|(block, what, lie)| Mut::Lie { block, what, lie });
        let strukt = (any::<u16>(), 0u8..14, any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(block, kind, pick, at, val)| Mut::Struct { block, kind, pick, at, val });
        let names = prop_oneof![
            3 => prop::sample::select(vec!["OSMData", "OSMHeader", "OSMdata", "OSMDat", "OSMDataX", "X", "", " OSMData", "OSMData\0", "OSM"]).prop_map(|s| s.to_string()),
            1 => "[A-Za-z]{1,9}",
        ];
        let one = prop_oneof![
            8 => flip,
            4 => lie,
            8 => strukt,
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Dup(a, b)),
            1 => any::<u16>().prop_map(Mut::Drop),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Mut::Swap(a, b)),
            1 => (any::<u16>(), names).prop_map(|(a, s)| Mut::Rename(a, s)),
            1 => (any::<u16>(), prop::sample::select(vec![0u8, 4, 5, 6, 7])).prop_map(|(a, f)| Mut::Codec(a, f)),
            2 => any::<u16>().prop_map(Mut::CutBlock),
            4 => any::<u16>().prop_map(Mut::Cut),
            1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..12)).prop_map(|(a, b)| Mut::Insert(a, b)),
            1 => (any::<u16>(), 1u16..40).prop_map(|(a, b)| Mut::Remove(a, b)),
            2 => (0u8..14, any::<u64>(), prop_oneof![0u16..300, 0u16..20, Just(5000u16)]).prop_map(|(kind, salt, len)| Mut::Foreign { kind, salt, len }),
        ];
        let bomb = (any::<u16>(), prop::sample::select(vec![40i64 << 20, MIB32, MIB32 - 1, 1000, 0])).prop_map(|(k, s)| vec![Mut::Bomb(k, s)]);
        let muts = prop_oneof![70 => prop::collection::vec(one.clone(), 1), 25 => prop::collection::vec(one, 2..4), 1 => bomb];
        let plain = (prop::collection::vec(gen::elements(Dom::Pbf, 12), 1..4), enc::comp()).prop_map(|(b, c)| EFile::plain(b, c));
        let file = prop_oneof![3 => efile(12, false), 1 => plain];
        let normal = (file.clone(), muts, prop::bool::weighted(0.1), prop::bool::weighted(0.3), prop::bool::weighted(0.04))
            .prop_map(|(file, muts, after_open, par, all_cpus)| DamCase { file, muts, sweep: None, after_open, par, all_cpus, shrink: None });
        let sweep = (file, prop_oneof![2 => Just(0u8), 1 => Just(1), 1 => Just(0x80), 1 => Just(0xff), 1 => 1u8..=255]).prop_map(|(file, x)| DamCase { file, muts: vec![], sweep: Some(x), after_open: false, par: false, all_cpus: false, shrink: None });
        let shrink = (efile(40, false), prop_oneof![Just(0u16), any::<u16>()], prop_oneof![1 => Just(0u16), 4 => any::<u16>()], prop::bool::weighted(0.4))
            .prop_map(|(file, after, cut, par)| DamCase { file, muts: vec![], sweep: None, after_open: true, par, all_cpus: false, shrink: Some((after, cut)) });
        prop_oneof![60 => normal, 1 => sweep, 3 => shrink].boxed()
    }
    fn run(c: &DamCase, ctx: &mut Ctx) -> R {
        alloc::LARGEST.store(0, std::sync::atomic::Ordering::Relaxed);
        let path = ctx.path("in.osm.pbf");
        let src = c.file.bytes();
        let mut known: HashMap<Vec<u8>, Vec<Want>> = HashMap::new();
        for b in &c.file.blocks {
            if b.unknown.is_none() {
                let mut one = b.clone();
                one.repeat = 1;
                known.insert(b.payload(), one.want());
            }
        }
        let headers: HashMap<Vec<u8>, Info> = [(wire::header_block(&c.file.info), c.file.info.clone())].into();
        if let Some((after, cut)) = c.shrink {
            ctx.label("damaged while reading");
            shrinking(c, &src, after, cut, &path, ctx)?;
        } else if let Some(x) = c.sweep {
            let n = src.len().min(1500);
            for i in 0..n {
                // the second half of the budget goes to the end of a long file
                let i = if i < n / 2 { i } else { src.len() - n + i };
                let mut b = src.clone();
                if x == 0 {
                    b.truncate(i);
                } else {
                    b[i] ^= x;
                }
                std::fs::write(&path, &b).map_err(|e| e.to_string())?;
                let v = judge(&b, &known, &headers, &HashSet::new(), false);
                let o = check(&path, &v, None, false, false, false).map_err(|m| format!("{} byte {i}: {m}", if x == 0 { "cut before".to_string() } else { format!("xor {x:#x} at") }))?;
                ctx.count(if x == 0 { "sweep: cuts" } else { "sweep: changed bytes" }, 1);
                ctx.count("sweep: rejected", o.rejected as u64);
            }
            ctx.nontrivial(n > 0);
        } else {
            let b = build(c, &src);
            let opened = if c.after_open {
                std::fs::write(&path, &src).map_err(|e| e.to_string())?;
                let r = catch(|| Reader::new(&path)).map_err(|p| format!("Reader::new panicked: {p}"))?.map_err(|e| format!("Reader::new failed on the intact file: {e:#}"))?;
                std::fs::remove_file(&path).map_err(|e| e.to_string())?;
                ctx.label("damaged after opening");
                Some(r)
            } else {
                None
            };
            let v = match b.special {
                0 => {
                    std::fs::write(&path, &b.bytes).map_err(|e| e.to_string())?;
                    judge(&b.bytes, &known, &headers, &b.bad, c.after_open)
                }
                k => {
                    match k {
                        1 => {}
                        2 => std::fs::create_dir(&path).map_err(|e| e.to_string())?,
                        _ => std::os::unix::fs::symlink("in.osm.pbf", &path).map_err(|e| e.to_string())?,
                    }
                    Verdict { header: Head::None, parts: vec![], end: End::Invalid(["", "no such file", "a directory", "a link to itself"][k as usize].into()), no_header: true }
                }
            };
            let clean = b.clean && b.special == 0 && !v.no_header && matches!(v.end, End::Ok);
            ctx.when(b.clean && clean, "still a conforming file");
            for l in &b.labels {
                ctx.label(l.as_str());
            }
            ctx.nontrivial(b.special != 0 || b.bytes != src);
            match &v.end {
                End::Ok => ctx.label(if v.parts.iter().any(|p| matches!(p, Part::Any)) { "judged: readable, contents not judged" } else { "judged: readable" }),
                End::Invalid(_) => ctx.label("judged: invalid"),
                End::Unclear => ctx.label("judged: unclear"),
            }
            ctx.when(c.par, "parallel reading too");
            ctx.when(c.all_cpus, "counting and bounding box too");
            let o = check(&path, &v, opened.as_ref(), clean, c.par, c.all_cpus)?;
            ctx.label(if o.rejected { "rejected" } else { "read" });
        }
        let largest = alloc::LARGEST.load(std::sync::atomic::Ordering::Relaxed);
        if largest > MAX_ALLOC {
            return Err(format!("an allocation of {largest} bytes"));
        }
        Ok(())
    }
}
