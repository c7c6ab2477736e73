//! Generator and independent encoder of arbitrary conforming .osm.pbf files: everything the format
//! leaves to the writer is a generated choice.
use crate::gen::{self, mix, Dom, Info};
use crate::model::*;
use crate::wire::{self, zigzag, Comp, Pb};
use osm_io::osm::model::element::Element;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// bits of a metadata mask
pub const M_INFO: u8 = 1;
pub const M_VERSION: u8 = 2;
pub const M_TS: u8 = 4;
pub const M_CS: u8 = 8;
pub const M_UID: u8 = 16;
pub const M_USER: u8 = 32;
pub const M_VISIBLE: u8 = 64;
pub const M_ALL: u8 = 127;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EEl {
    /// ts is in units of the date granularity here, coordinates in units of the granularity
    pub e: El,
    /// presence of metadata for plain nodes, ways and relations
    pub mask: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EGroup {
    /// 0 dense, 1 plain nodes, 2 ways, 3 relations
    pub kind: u8,
    /// presence of metadata of a dense group
    pub mask: u8,
    pub els: Vec<EEl>,
    /// 0 packed, 1 one by one, 2 packed in two parts
    pub packing: u8,
    /// dense: leave out keys_vals if no node has tags
    pub drop_empty_tags: bool,
    /// ways: write node locations too
    pub locations: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EBlock {
    /// Some: a block of unknown type with these bytes as raw payload
    pub unknown: Option<(String, Vec<u8>)>,
    pub comp: Comp,
    pub index: Option<Vec<u8>>,
    pub gran: Option<i32>,
    pub date: Option<i32>,
    pub lat_off: Option<i64>,
    pub lon_off: Option<i64>,
    pub groups: Vec<EGroup>,
    /// order of strings, duplicates, unused strings; field order; unknown fields
    pub salt: u64,
    /// write the block this many times
    pub repeat: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EFile {
    pub info: Info,
    pub head_comp: Comp,
    pub blocks: Vec<EBlock>,
    pub salt: u64,
}

/// What a reader has to report of one element.
#[derive(Clone, Debug)]
pub struct Want {
    pub el: El,
    pub mask: u8,
}

impl Want {
    pub fn diff(&self, g: &Element) -> Option<String> {
        let f = match from_lib(g) {
            Ok(f) => f,
            Err(m) => return Some(m),
        };
        let mut x = self.el.clone();
        let g = f.el;
        if self.mask & M_INFO == 0 || self.mask & M_VERSION == 0 {
            x.m.version = g.m.version;
        }
        if self.mask & M_INFO == 0 || self.mask & M_TS == 0 {
            x.m.ts = g.m.ts;
        }
        if self.mask & M_INFO == 0 || self.mask & M_CS == 0 {
            x.m.changeset = g.m.changeset;
        }
        if self.mask & M_INFO == 0 || self.mask & M_UID == 0 {
            x.m.uid = g.m.uid;
        }
        if x != g {
            return Some(format!("expected {x:?} (metadata present: {:#09b})\n     got {g:?}", self.mask));
        }
        if let (Some((lat, lon)), Body::Node { lat: a, lon: o }) = (f.raw, &self.el.b) {
            if (lat - *a as f64 / NANO).abs() > 1e-11 || (lon - *o as f64 / NANO).abs() > 1e-11 {
                return Some(format!("coordinate of {:?}: expected ({a},{o}) nanodegrees, got ({lat:?},{lon:?})", self.el.key()));
            }
        }
        None
    }
}

pub fn diff_want(want: &[Want], got: &[Element]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if let Some(d) = w.diff(g) {
            return Some(format!("element #{i} of {}: {d}", want.len()));
        }
    }
    if want.len() != got.len() {
        return Some(format!("expected {} elements, got {}", want.len(), got.len()));
    }
    None
}

impl EBlock {
    pub fn plain(els: Vec<El>, comp: Comp) -> EBlock {
        let mut groups: Vec<EGroup> = vec![];
        for e in els {
            let kind = match e.b {
                Body::Node { .. } => 0,
                Body::Way { .. } => 2,
                _ => 3,
            };
            let mut e = e;
            e.m.ts /= 1000;
            if let Body::Node { lat, lon } = &mut e.b {
                *lat /= 100;
                *lon /= 100;
            }
            let e = EEl { e, mask: M_ALL };
            match groups.last_mut() {
                Some(g) if g.kind == kind => g.els.push(e),
                _ => groups.push(EGroup { kind, mask: M_ALL, els: vec![e], packing: 0, drop_empty_tags: false, locations: false }),
            }
        }
        EBlock { unknown: None, comp, index: None, gran: None, date: None, lat_off: None, lon_off: None, groups, salt: 0, repeat: 1 }
    }

    fn scale(&self, e: &El) -> El {
        let mut e = e.clone();
        e.m.ts *= self.date.unwrap_or(1000) as i64;
        if let Body::Node { lat, lon } = &mut e.b {
            let g = self.gran.unwrap_or(100) as i64;
            *lat = self.lat_off.unwrap_or(0) + g * *lat;
            *lon = self.lon_off.unwrap_or(0) + g * *lon;
        }
        e
    }

    pub fn want(&self) -> Vec<Want> {
        let mut out = vec![];
        if self.unknown.is_some() {
            return out;
        }
        for _ in 0..self.repeat {
            for g in &self.groups {
                for e in &g.els {
                    let mask = if g.kind == 0 { g.mask } else { e.mask };
                    let mut el = self.scale(&e.e);
                    if mask & M_INFO == 0 || mask & M_VISIBLE == 0 {
                        el.m.visible = true;
                    }
                    if mask & M_INFO == 0 || mask & M_USER == 0 {
                        el.m.user = String::new();
                    }
                    out.push(Want { el, mask });
                }
            }
        }
        out
    }

    /// payload of the block
    pub fn payload(&self) -> Vec<u8> {
        if let Some((_, b)) = &self.unknown {
            return b.clone();
        }
        let mut st = Strings::collect(self);
        let mut r = Rnd(mix(self.salt ^ 77));
        let mut m = Msg::new();
        for g in &self.groups {
            m.put(2, enc_group(g, &mut st, &mut r, self.salt));
        }
        let mut t = Msg::new();
        for s in &st.list {
            t.put(1, field_bytes(1, s.as_bytes()));
        }
        m.put(1, field_bytes(1, &t.finish(0, &mut r)));
        if let Some(v) = self.gran {
            m.put(17, field_int(17, v as i64));
        }
        if let Some(v) = self.date {
            m.put(18, field_int(18, v as i64));
        }
        if let Some(v) = self.lat_off {
            m.put(19, field_int(19, v));
        }
        if let Some(v) = self.lon_off {
            m.put(20, field_int(20, v));
        }
        m.finish(self.salt, &mut r)
    }

    /// framed bytes
    pub fn bytes(&self) -> Vec<u8> {
        let ty = self.unknown.as_ref().map(|u| u.0.as_str()).unwrap_or("OSMData");
        let one = frame(ty, &self.payload(), self.comp, self.index.as_deref(), self.salt);
        let mut out = Vec::with_capacity(one.len() * self.repeat as usize);
        for _ in 0..self.repeat {
            out.extend_from_slice(&one);
        }
        out
    }
}

impl EFile {
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = frame("OSMHeader", &wire::header_block(&self.info), self.head_comp, None, self.salt);
        for b in &self.blocks {
            out.extend_from_slice(&b.bytes());
        }
        out
    }
    /// Write the file with `far` blocks of an unknown type, 32 MiB of nothing each, before every block.
    pub fn write(&self, path: &std::path::Path, far: u32) -> Result<(), String> {
        use std::io::{Seek, SeekFrom, Write};
        let io = |e: std::io::Error| format!("harness: {e}");
        if far == 0 {
            return std::fs::write(path, self.bytes()).map_err(io);
        }
        let len = 32u64 << 20;
        let mut h = Pb::new();
        h.bytes(1, b"filler").int(3, len as i64);
        let mut f = std::fs::File::create(path).map_err(io)?;
        f.write_all(&frame("OSMHeader", &wire::header_block(&self.info), self.head_comp, None, self.salt)).map_err(io)?;
        for b in &self.blocks {
            for _ in 0..far {
                f.write_all(&(h.0.len() as u32).to_be_bytes()).map_err(io)?;
                f.write_all(&h.0).map_err(io)?;
                f.seek(SeekFrom::Current(len as i64)).map_err(io)?;
            }
            f.write_all(&b.bytes()).map_err(io)?;
        }
        Ok(())
    }
    pub fn want(&self) -> Vec<Want> {
        self.blocks.iter().flat_map(|b| b.want()).collect()
    }
    pub fn plain(blocks: Vec<Vec<El>>, comp: Comp) -> EFile {
        EFile { info: Info::basic(), head_comp: comp, blocks: blocks.into_iter().map(|b| EBlock::plain(b, comp)).collect(), salt: 0 }
    }
}

/// Frame with a generated field order in BlobHeader and Blob.
pub fn frame(ty: &str, payload: &[u8], comp: Comp, index: Option<&[u8]>, salt: u64) -> Vec<u8> {
    let mut r = Rnd(mix(salt ^ 99));
    let mut b = Msg::new();
    match comp {
        Comp::Raw => b.put(1, field_bytes(1, payload)),
        Comp::RawSized => {
            b.put(1, field_bytes(1, payload));
            b.put(2, field_int(2, payload.len() as i64));
        }
        Comp::Zlib(l) => {
            b.put(2, field_int(2, payload.len() as i64));
            b.put(3, field_bytes(3, &wire::zlib(payload, l as u32)));
        }
    }
    let blob = b.finish(salt & !4, &mut r);
    let mut h = Msg::new();
    h.put(1, field_bytes(1, ty.as_bytes()));
    if let Some(i) = index {
        h.put(2, field_bytes(2, i));
    }
    h.put(3, field_int(3, blob.len() as i64));
    let head = h.finish(salt, &mut r);
    let mut out = (head.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(&head);
    out.extend_from_slice(&blob);
    out
}

struct Rnd(u64);
impl Rnd {
    fn next(&mut self) -> u64 {
        self.0 = mix(self.0);
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

fn field_bytes(f: u32, b: &[u8]) -> Vec<u8> {
    let mut p = Pb::new();
    p.bytes(f, b);
    p.0
}
fn field_int(f: u32, v: i64) -> Vec<u8> {
    let mut p = Pb::new();
    p.int(f, v);
    p.0
}
fn field_sint(f: u32, v: i64) -> Vec<u8> {
    let mut p = Pb::new();
    p.sint(f, v);
    p.0
}
fn field_many(f: u32, vals: &[u64], packing: u8) -> Vec<u8> {
    let mut p = Pb::new();
    match packing {
        0 => {
            p.packed(f, vals);
        }
        1 => {
            p.unpacked(f, vals);
        }
        _ => {
            let k = vals.len() / 2;
            p.packed(f, &vals[..k]);
            p.packed(f, &vals[k..]);
        }
    }
    p.0
}

/// Encoded fields by number; occurrences of one number keep their order.
struct Msg {
    f: Vec<(u32, Vec<u8>)>,
}
impl Msg {
    fn new() -> Msg {
        Msg { f: vec![] }
    }
    fn put(&mut self, n: u32, enc: Vec<u8>) {
        self.f.push((n, enc));
    }
    /// salt bit 0: permute fields, bit 2: add unknown fields
    fn finish(self, salt: u64, r: &mut Rnd) -> Vec<u8> {
        let mut f = self.f;
        if salt & 1 != 0 {
            let mut prio = std::collections::HashMap::new();
            for (n, _) in &f {
                let p = r.next();
                prio.entry(*n).or_insert(p);
            }
            f.sort_by_key(|(n, _)| prio[n]);
        } else {
            f.sort_by_key(|(n, _)| *n);
        }
        let mut out = vec![];
        for (_, b) in f {
            if salt & 4 != 0 && r.below(3) == 0 {
                unknown_field(&mut out, r);
            }
            out.extend_from_slice(&b);
        }
        if salt & 4 != 0 && r.below(2) == 0 {
            unknown_field(&mut out, r);
        }
        out
    }
}

fn unknown_field(out: &mut Vec<u8>, r: &mut Rnd) {
    let mut p = Pb::new();
    let n = [50, 99, 1000, 20_000][r.below(4)];
    match r.below(4) {
        0 => {
            p.varint(n, r.next());
        }
        1 => {
            let k = r.below(9);
            p.bytes(n, &vec![0x5a; k]);
        }
        2 => {
            p.key(n, 1);
            p.0.extend_from_slice(&r.next().to_le_bytes());
        }
        _ => {
            p.key(n, 5);
            p.0.extend_from_slice(&(r.next() as u32).to_le_bytes());
        }
    }
    out.extend_from_slice(&p.0);
}

struct Strings {
    list: Vec<String>,
    pos: std::collections::HashMap<String, Vec<usize>>,
    k: u64,
}

impl Strings {
    /// salt bit 1: shuffle, duplicate and add unused strings
    fn collect(b: &EBlock) -> Strings {
        let mut all: Vec<String> = vec![];
        for g in &b.groups {
            for e in &g.els {
                for (k, v) in &e.e.m.tags {
                    all.push(k.clone());
                    all.push(v.clone());
                }
                all.push(e.e.m.user.clone());
                if let Body::Rel { members } = &e.e.b {
                    all.extend(members.iter().map(|m| m.2.clone()));
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        let odd = b.salt & 2 != 0;
        let mut r = Rnd(mix(b.salt ^ 5));
        if odd {
            // some strings stay duplicated
            all.retain(|s| seen.insert(s.clone()) || s.len() % 3 == 1);
            for k in 0..r.below(4) {
                all.push(format!("unused {k}"));
            }
            for i in (1..all.len()).rev() {
                let j = r.below(i + 1);
                all.swap(i, j);
            }
        } else {
            all.retain(|s| seen.insert(s.clone()));
        }
        let mut list = vec![];
        if !(odd && all.is_empty() && r.below(2) == 0) {
            list.push(String::new());
        }
        list.extend(all);
        let mut pos: std::collections::HashMap<String, Vec<usize>> = Default::default();
        for (i, s) in list.iter().enumerate().skip(1) {
            pos.entry(s.clone()).or_default().push(i);
        }
        Strings { list, pos, k: b.salt }
    }
    /// users and roles may use string 0 for the empty string
    fn get0(&mut self, s: &str) -> u64 {
        if s.is_empty() && self.k & 1 == 0 {
            self.k = mix(self.k);
            return 0;
        }
        self.get(s)
    }
    fn get(&mut self, s: &str) -> u64 {
        let v = &self.pos[s];
        self.k = mix(self.k);
        v[(self.k % v.len() as u64) as usize] as u64
    }
}

fn deltas(v: impl IntoIterator<Item = i64>) -> Vec<u64> {
    let mut last = 0;
    v.into_iter()
        .map(|x| {
            let d = x - last;
            last = x;
            zigzag(d)
        })
        .collect()
}

fn enc_info(m: &Meta, mask: u8, st: &mut Strings, r: &mut Rnd, salt: u64) -> Vec<u8> {
    let mut i = Msg::new();
    if mask & M_VERSION != 0 {
        i.put(1, field_int(1, m.version as i64));
    }
    if mask & M_TS != 0 {
        i.put(2, field_int(2, m.ts));
    }
    if mask & M_CS != 0 {
        i.put(3, field_int(3, m.changeset));
    }
    if mask & M_UID != 0 {
        i.put(4, field_int(4, m.uid as i64));
    }
    if mask & M_USER != 0 {
        i.put(5, field_int(5, st.get0(&m.user) as i64));
    }
    if mask & M_VISIBLE != 0 {
        i.put(6, field_int(6, m.visible as i64));
    }
    i.finish(salt, r)
}

fn enc_group(g: &EGroup, st: &mut Strings, r: &mut Rnd, salt: u64) -> Vec<u8> {
    let mut m = Msg::new();
    if g.kind == 0 {
        let mut d = Msg::new();
        let p = g.packing;
        d.put(1, field_many(1, &deltas(g.els.iter().map(|e| e.e.m.id)), p));
        if g.mask & M_INFO != 0 {
            let mut i = Msg::new();
            let e = &g.els;
            if g.mask & M_VERSION != 0 {
                i.put(1, field_many(1, &e.iter().map(|e| e.e.m.version as i64 as u64).collect::<Vec<_>>(), p));
            }
            if g.mask & M_TS != 0 {
                i.put(2, field_many(2, &deltas(e.iter().map(|e| e.e.m.ts)), p));
            }
            if g.mask & M_CS != 0 {
                i.put(3, field_many(3, &deltas(e.iter().map(|e| e.e.m.changeset)), p));
            }
            if g.mask & M_UID != 0 {
                i.put(4, field_many(4, &deltas(e.iter().map(|e| e.e.m.uid as i64)), p));
            }
            if g.mask & M_USER != 0 {
                let sids: Vec<i64> = e.iter().map(|e| st.get0(&e.e.m.user) as i64).collect();
                i.put(5, field_many(5, &deltas(sids), p));
            }
            if g.mask & M_VISIBLE != 0 {
                i.put(6, field_many(6, &e.iter().map(|e| e.e.m.visible as u64).collect::<Vec<_>>(), p));
            }
            d.put(5, field_bytes(5, &i.finish(salt, r)));
        }
        let c: Vec<(i64, i64)> = g
            .els
            .iter()
            .map(|e| match &e.e.b {
                Body::Node { lat, lon } => (*lat, *lon),
                _ => (0, 0),
            })
            .collect();
        d.put(8, field_many(8, &deltas(c.iter().map(|c| c.0)), p));
        d.put(9, field_many(9, &deltas(c.iter().map(|c| c.1)), p));
        let mut kv = vec![];
        for e in &g.els {
            for (k, v) in &e.e.m.tags {
                kv.push(st.get(k));
                kv.push(st.get(v));
            }
            kv.push(0);
        }
        if !(g.drop_empty_tags && kv.len() == g.els.len()) {
            d.put(10, field_many(10, &kv, p));
        }
        m.put(2, field_bytes(2, &d.finish(salt, r)));
        return field_bytes(2, &m.finish(salt, r));
    }
    for e in &g.els {
        let mut x = Msg::new();
        let keys: Vec<u64> = e.e.m.tags.iter().map(|t| st.get(&t.0)).collect();
        let vals: Vec<u64> = e.e.m.tags.iter().map(|t| st.get(&t.1)).collect();
        x.put(2, field_many(2, &keys, g.packing));
        x.put(3, field_many(3, &vals, g.packing));
        if e.mask & M_INFO != 0 {
            let b = enc_info(&e.e.m, e.mask, st, r, salt);
            x.put(4, field_bytes(4, &b));
        }
        match &e.e.b {
            Body::Node { lat, lon } => {
                x.put(1, field_sint(1, e.e.m.id));
                x.put(8, field_sint(8, *lat));
                x.put(9, field_sint(9, *lon));
                m.put(1, field_bytes(1, &x.finish(salt, r)));
            }
            Body::Way { refs } => {
                x.put(1, field_int(1, e.e.m.id));
                x.put(8, field_many(8, &deltas(refs.iter().copied()), g.packing));
                if g.locations {
                    x.put(9, field_many(9, &deltas(refs.iter().map(|r| r % 1000)), g.packing));
                    x.put(10, field_many(10, &deltas(refs.iter().map(|r| r % 777)), g.packing));
                }
                m.put(3, field_bytes(3, &x.finish(salt, r)));
            }
            Body::Rel { members } => {
                x.put(1, field_int(1, e.e.m.id));
                let roles: Vec<u64> = members.iter().map(|m| st.get0(&m.2)).collect();
                x.put(8, field_many(8, &roles, g.packing));
                x.put(9, field_many(9, &deltas(members.iter().map(|m| m.1)), g.packing));
                x.put(10, field_many(10, &members.iter().map(|m| m.0 as u64).collect::<Vec<_>>(), g.packing));
                m.put(4, field_bytes(4, &x.finish(salt, r)));
            }
        }
    }
    let mut out = m.finish(salt & !1, r);
    if out.is_empty() && salt & 4 != 0 {
        unknown_field(&mut out, r);
    }
    // field 2 of the block
    out = field_bytes(2, &out);
    out
}

// ---------------------------------------------------------------- strategies

pub fn comp() -> BoxedStrategy<Comp> {
    prop_oneof![2 => Just(Comp::Raw), 1 => Just(Comp::RawSized), 3 => (0u8..10).prop_map(Comp::Zlib)].boxed()
}

fn mask() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(M_ALL), 1 => Just(M_ALL & !M_VISIBLE), 1 => Just(0u8), 1 => Just(M_INFO | M_VERSION | M_TS), 2 => 0u8..128].boxed()
}

fn egroup(gran: i64, date: i64, lat_off: i64, lon_off: i64) -> BoxedStrategy<EGroup> {
    (0u8..4)
        .prop_flat_map(move |kind| {
            let el = match kind {
                0 | 1 => gen::node(Dom::Pbf),
                2 => gen::way(Dom::Pbf),
                _ => gen::rel(Dom::Pbf),
            };
            let el = (el, mask()).prop_map(move |(mut e, mask)| {
                e.m.ts /= date;
                if let Body::Node { lat, lon } = &mut e.b {
                    *lat = (*lat - lat_off).div_euclid(gran);
                    *lon = (*lon - lon_off).div_euclid(gran);
                }
                EEl { e, mask }
            });
            (
                Just(kind),
                mask(),
                prop_oneof![4 => prop::collection::vec(el.clone(), 0..7), 1 => prop::collection::vec(el, 7..20)],
                prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
                any::<bool>(),
                prop::bool::weighted(0.2),
            )
        })
        .prop_map(|(kind, mask, els, packing, drop_empty_tags, locations)| EGroup { kind, mask, els, packing, drop_empty_tags, locations })
        .boxed()
}

/// `grid`: coordinates on the 1e-7 degree grid and timestamps of whole seconds, which every
/// writer of the library can express
pub fn eblock(grid: bool) -> BoxedStrategy<EBlock> {
    let on_grid = (
        prop::option::of(prop::sample::select(vec![100i32, 200, 1000, 100_000, 10_000_000])),
        prop::option::of(prop::sample::select(vec![1000i32, 60_000])),
        prop::option::of(prop_oneof![Just(0i64), -1_800_000_000i64..1_800_000_000, -50i64..50].prop_map(|v| v * 100)),
        prop::option::of(prop_oneof![Just(0i64), -1_800_000_000i64..1_800_000_000, -50i64..50].prop_map(|v| v * 100)),
    );
    let any_params = (
        prop::option::of(prop::sample::select(vec![1i32, 2, 7, 10, 99, 100, 101, 1000, 100_000, 10_000_000])),
        prop::option::of(prop::sample::select(vec![1i32, 10, 500, 1000, 60_000])),
        prop::option::of(prop_oneof![Just(0i64), -180_000_000_000i64..180_000_000_000, -50i64..50, Just(i32::MAX as i64 + 1)]),
        prop::option::of(prop_oneof![Just(0i64), -180_000_000_000i64..180_000_000_000, -50i64..50, Just(-(1i64 << 33))]),
    );
    let params = if grid { on_grid.boxed() } else { any_params.boxed() };
    let data = params
        .prop_flat_map(|(g, d, a, o)| {
            let grp = egroup(g.unwrap_or(100) as i64, d.unwrap_or(1000) as i64, a.unwrap_or(0), o.unwrap_or(0));
            (
                Just((g, d, a, o)),
                prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(grp.clone(), 1), 3 => prop::collection::vec(grp, 2..4)],
                comp(),
                prop::option::weighted(0.15, prop::collection::vec(any::<u8>(), 0..30)),
                any::<u64>(),
            )
        })
        .prop_map(|((gran, date, lat_off, lon_off), groups, comp, index, salt)| EBlock {
            unknown: None,
            comp,
            index,
            gran,
            date,
            lat_off,
            lon_off,
            groups,
            salt,
            repeat: 1,
        });
    let unknown = (
        prop::sample::select(vec!["OSMDatax", "osmdata", "OSMdata", "X", "OSM", "LocationIndex", " OSMData", "OSMHeader2"]),
        prop::collection::vec(any::<u8>(), 0..40),
        comp(),
        any::<u64>(),
    )
        .prop_map(|(t, b, comp, salt)| EBlock {
            unknown: Some((t.to_string(), b)),
            comp,
            index: None,
            gran: None,
            date: None,
            lat_off: None,
            lon_off: None,
            groups: vec![],
            salt,
            repeat: 1,
        });
    prop_oneof![12 => data, 1 => unknown].boxed()
}

/// `long`: how many empty blocks a run may have
pub fn efile(long: u32, grid: bool) -> BoxedStrategy<EFile> {
    let run = (0u64..2, prop_oneof![30 => Just(1u32), 3 => 2u32..40, 1 => Just(long)]);
    let blocks = prop_oneof![
        8 => prop::collection::vec(eblock(grid), 0..6).boxed(),
        1 => (prop::collection::vec(eblock(grid), 0..3), run, prop::collection::vec(eblock(grid), 0..3))
            .prop_map(|(mut a, (salt, repeat), b)| {
                a.push(EBlock { unknown: None, comp: Comp::Raw, index: None, gran: None, date: None, lat_off: None, lon_off: None, groups: vec![], salt, repeat });
                a.extend(b);
                a
            }).boxed(),
    ];
    (gen::info(), comp(), blocks, any::<u64>()).prop_map(|(info, head_comp, blocks, salt)| EFile { info, head_comp, blocks, salt }).boxed()
}

/// A few of the files contain further headers, like files that were joined.
pub fn joined(files: BoxedStrategy<EFile>) -> BoxedStrategy<EFile> {
    let headers = prop::collection::vec((any::<prop::sample::Index>(), gen::info(), comp()), 1..4);
    (files, prop::option::weighted(0.12, headers))
        .prop_map(|(mut f, headers)| {
            for (at, info, comp) in headers.into_iter().flatten() {
                let b = EBlock { unknown: Some(("OSMHeader".into(), wire::header_block(&info))), comp, index: None, gran: None, date: None, lat_off: None, lon_off: None, groups: vec![], salt: 0, repeat: 1 };
                f.blocks.insert(at.index(f.blocks.len() + 1), b);
            }
            f
        })
        .boxed()
}

/// Ways in which a file can be spoiled.
pub const SPOILS: u8 = 9;

/// A file that begins like the given one and is damaged somewhere: reading it ends in an error, except that cutting may
/// leave a whole file.
pub fn spoiled(f: &EFile, how: u8, salt: u64) -> Vec<u8> {
    let how = how % SPOILS;
    if how == 0 {
        let mut b = f.bytes();
        let n = mix(salt) as usize % b.len().max(1);
        b.truncate(n);
        return b;
    }
    // words of its own, which must not turn up anywhere else
    let words = ["", "spoiled key", "spoiled value", "spoiled user"];
    let mut table = Pb::new();
    for w in words {
        table.bytes(1, w.as_bytes());
    }
    let mut group = Pb::new();
    match how {
        1 => {
            let mut w = Pb::new();
            w.int(1, 77).packed(2, &[1]).packed(3, &[90_000]);
            group.bytes(3, &w.0);
        }
        2 => {
            let mut d = Pb::new();
            d.packed(1, &[2, 2, 2]).packed(8, &[2, 2]).packed(9, &[2, 2, 2]);
            group.bytes(2, &d.0);
        }
        3 => {
            table.bytes(1, &[0xff, 0xfe, b'x']);
            let mut w = Pb::new();
            w.int(1, 77).packed(2, &[1]).packed(3, &[2]);
            group.bytes(3, &w.0);
        }
        4 => {
            let mut w = Pb::new();
            w.int(1, 77).packed(8, &[1]).packed(9, &[2, 2]).packed(10, &[0]);
            group.bytes(4, &w.0);
        }
        5 => {
            let mut w = Pb::new();
            w.int(1, 77).packed(2, &[1, 2]).packed(3, &[2]);
            group.bytes(3, &w.0);
        }
        _ => {
            let mut w = Pb::new();
            w.int(1, 77).packed(2, &[1]).packed(3, &[2]);
            group.bytes(3, &w.0);
        }
    }
    let mut block = Pb::new();
    block.bytes(1, &table.0).bytes(2, &group.0);
    let bad = match how {
        6 => {
            // compressed data that is not, and is said to be
            let mut blob = Pb::new();
            blob.int(2, 100).bytes(3, b"this is no zlib stream");
            wire::frame("OSMData", &blob.0, None)
        }
        7 => {
            // a length that is wrong
            let z = wire::zlib(&block.0, 6);
            let mut blob = Pb::new();
            blob.int(2, block.0.len() as i64 + 1).bytes(3, &z);
            wire::frame("OSMData", &blob.0, None)
        }
        8 => {
            // not a message
            wire::frame("OSMData", &wire::blob(&[0x0a, 0xff, 0xff, 0x03, 1, 2, 3], Comp::Raw), None)
        }
        _ => wire::frame("OSMData", &wire::blob(&block.0, if salt & 1 == 0 { Comp::Raw } else { Comp::Zlib(6) }), None),
    };
    let at = mix(salt) as usize % (f.blocks.len() + 1);
    let mut out = EFile { blocks: f.blocks[..at].to_vec(), ..f.clone() }.bytes();
    out.extend_from_slice(&bad);
    for b in &f.blocks[at..] {
        out.extend_from_slice(&b.bytes());
    }
    out
}

/// Read a spoiled file in one of several ways; how it ends does not matter, as long as it does, and nothing goes on afterwards.
pub fn read_spoiled(path: &std::path::Path, way: u8, tasks: usize) -> Result<(), String> {
    use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
    use osm_io::osm::pbf::reader::Reader;
    use std::sync::atomic::{AtomicI64, Ordering};
    use std::sync::Arc;
    let calls = Arc::new(AtomicI64::new(0));
    let running = Arc::new(AtomicI64::new(0));
    let (c2, r2) = (calls.clone(), running.clone());
    let _ = crate::driver::catch(|| -> Result<(), anyhow::Error> {
        match way % 5 {
            0 => drop(Reader::new(path)?.elements()?.count()),
            1 => drop(Reader::new(path)?.blocks()?.count()),
            2 => drop(BoundingBoxCalculator::new(path).calc()?),
            3 => drop(Reader::new(path)?.count_objects()?),
            _ => Reader::new(path)?.parallel_for_each(tasks.max(1), move |_| {
                r2.fetch_add(1, Ordering::SeqCst);
                if c2.fetch_add(1, Ordering::SeqCst) < 40 {
                    std::thread::sleep(std::time::Duration::from_micros(300));
                }
                r2.fetch_sub(1, Ordering::SeqCst);
                Ok(())
            })?,
        }
        Ok(())
    });
    let (n, r) = (calls.load(Ordering::SeqCst), running.load(Ordering::SeqCst));
    if r != 0 {
        return Err(format!("parallel_for_each of a damaged file returned while {r} callbacks were running"));
    }
    if n > 0 {
        std::thread::sleep(std::time::Duration::from_millis(2));
        let m = calls.load(Ordering::SeqCst);
        if m != n {
            return Err(format!("parallel_for_each of a damaged file returned and {} callbacks began later", m - n));
        }
    }
    Ok(())
}
