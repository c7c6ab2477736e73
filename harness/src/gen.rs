//! proptest strategies shared by the checks.
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// What domain elements are drawn from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dom {
    /// everything the PBF format can carry and the writer is specified for
    Pbf,
    /// the API database's domain: positive ids, versions from 1, unique tag keys,
    /// one uid per changeset, one name per uid, no NUL
    Db,
}

pub fn text(dom: Dom) -> BoxedStrategy<String> {
    let ctl: Vec<char> = if dom == Dom::Pbf {
        vec!['\0', '\t', '\n', '\r', '\\', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '"', '\'', ' ', ',', 'N', '.', 'x', 'u', '0', '1']
    } else {
        vec!['\t', '\n', '\r', '\\', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '"', '\'', ' ', ',', 'N', '.', 'x', 'u', '0', '1', 'b', 'f', 'n', 'r', 't', 'v']
    };
    prop_oneof![
        6 => prop::sample::select(vec!["highway", "name", "yes", "no", "residential", "building", "natural", "coastline", "source", "survey", "outer", "inner", "", "created_by", "Bing;GPS", "Main Street", "St. Mary's \"Inn\"", "café", "東京都", "\u{1F600} smile", "e\u{301}", "\u{200f}rtl"]).prop_map(|s| s.to_string()),
        3 => "[a-z:_]{1,12}",
        2 => "[ -~]{0,24}",
        2 => prop::collection::vec(prop::sample::select(ctl), 0..7).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::sample::select(vec!["\\N", "\\.", "\\\\", "\\x41", "\\101", "\\u0041", "\\t", " ", "  ", " lead", "trail ", "\ttab\t", "nl\n", "\n", "a\\", "\\", "{}", "%s", "'", "NULL", "\u{85}", "\u{2028}", "\u{feff}", "\u{10ffff}", "\u{fffd}"]).prop_map(|s| s.to_string()),
        1 => prop::collection::vec(prop::char::range('\u{a0}', '\u{d7ff}'), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (prop::sample::select(vec![127usize, 128, 129, 255, 256, 300]), prop::sample::select(vec!['a', 'ß', '語', ' ', '\\'])).prop_map(|(n, c)| std::iter::repeat(c).take(n).collect()),
    ]
    .boxed()
}

pub fn id(dom: Dom) -> BoxedStrategy<i64> {
    match dom {
        Dom::Pbf => prop_oneof![
            6 => 1i64..60,
            3 => 1i64..100_000,
            2 => (1i64 << 31) - 40..(1i64 << 31) + 40,
            2 => 5_000_000_000i64..12_000_000_000,
            1 => -60i64..=0,
            1 => -(1i64 << 33)..0,
            1 => -(1i64 << 61)..(1i64 << 61),
            1 => prop::sample::select(vec![0i64, 1, -1, 63, 64, 127, 128, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, (1 << 53), (1 << 53) + 1, (1 << 61) - 1, -(1 << 61), i32::MIN as i64, i32::MIN as i64 - 1]),
        ]
        .boxed(),
        Dom::Db => prop_oneof![
            6 => 1i64..60,
            3 => 1i64..100_000,
            2 => (1i64 << 31) - 40..(1i64 << 31) + 40,
            2 => 5_000_000_000i64..12_000_000_000,
            1 => 1i64..(1i64 << 61),
            1 => -60i64..=0,
            1 => prop::sample::select(vec![-(1i64 << 33), -1, 0, 1i64, 9, 10, 11, 99, 100, 101, 999, 1000, i32::MAX as i64, u32::MAX as i64 + 1, (1 << 53) + 1]),
        ]
        .boxed(),
    }
}

pub fn version(dom: Dom) -> BoxedStrategy<i32> {
    match dom {
        Dom::Pbf => prop_oneof![8 => 1i32..6, 2 => 1i32..300, 1 => prop::sample::select(vec![0, 127, 128, i32::MAX, i32::MAX - 1])].boxed(),
        Dom::Db => prop_oneof![8 => 1i32..6, 2 => prop::sample::select(vec![0, 9, 10, 11, 99, 100, 101]), 1 => 1i32..i32::MAX].boxed(),
    }
}

/// milliseconds, whole seconds, from 1900 to 9999
pub fn timestamp(dom: Dom) -> BoxedStrategy<i64> {
    let _ = dom;
    let hi = 253_402_300_799i64;
    prop_oneof![
        1 => prop_oneof![Just(-1i64), -100_000i64..0, -2_208_988_800i64..0, Just(-86_400), Just(-86_401)],
        8 => 1_100_000_000i64..1_800_000_000,
        1 => prop::sample::select(vec![0i64, 1, 59, 60, 86_399, 86_400, 951_782_400, 951_868_799, 1_078_012_800, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, 4_107_542_399, 4_107_542_400]),
        1 => 0i64..hi,
    ]
    .prop_map(|s| s * 1000)
    .boxed()
}

/// nanodegrees on the 1e-7 grid
pub fn coord7(max: i64) -> BoxedStrategy<i64> {
    prop_oneof![
        6 => -max..=max,
        2 => -2000i64..2000,
        1 => prop::sample::select(vec![0i64, 1, -1, max, -max, max - 1, -max + 1, max / 2, -max / 2]),
        2 => (-(max / 1_000_000)..=(max / 1_000_000)).prop_map(|v| v * 1_000_000),
    ]
    .prop_map(|v| v * 100)
    .boxed()
}

pub fn lat() -> BoxedStrategy<i64> {
    coord7(900_000_000)
}
pub fn lon() -> BoxedStrategy<i64> {
    coord7(1_800_000_000)
}

pub fn tags(dom: Dom) -> BoxedStrategy<Vec<(String, String)>> {
    let t = (text(dom), text(dom));
    let v = prop_oneof![
        4 => prop::collection::vec(t.clone(), 0..4),
        2 => Just(vec![]),
        1 => prop::collection::vec(t, 4..12),
    ];
    if dom == Dom::Db {
        v.prop_map(|mut v| {
            let mut seen = std::collections::HashSet::new();
            v.retain(|(k, _)| seen.insert(k.clone()));
            v
        })
        .boxed()
    } else {
        v.boxed()
    }
}

pub fn changeset(dom: Dom) -> BoxedStrategy<i64> {
    match dom {
        Dom::Pbf => prop_oneof![6 => 1i64..20, 3 => 1i64..200_000_000, 1 => prop::sample::select(vec![-1i64, 0, i32::MAX as i64 + 1, 1 << 40, 1 << 61])].boxed(),
        Dom::Db => prop_oneof![6 => 1i64..20, 3 => 1i64..200_000_000, 1 => prop::sample::select(vec![-1i64, 0]), 1 => (1i64 << 31)..(1i64 << 45)].boxed(),
    }
}

pub fn uid(dom: Dom) -> BoxedStrategy<i32> {
    match dom {
        Dom::Pbf => prop_oneof![6 => 1i32..12, 3 => 1i32..20_000_000, 1 => prop::sample::select(vec![-1, 0, 1, 127, 128, 1 << 30, 0x3fff_ffff])].boxed(),
        Dom::Db => prop_oneof![6 => 1i32..12, 3 => 1i32..20_000_000, 1 => prop::sample::select(vec![-1, 0, 9, 10, 99, 100, i32::MAX - 1])].boxed(),
    }
}

pub fn meta(dom: Dom) -> BoxedStrategy<Meta> {
    (
        id(dom),
        version(dom),
        timestamp(dom),
        changeset(dom),
        uid(dom),
        text(dom),
        prop::bool::weighted(0.8),
        tags(dom),
    )
        .prop_map(|(id, version, ts, changeset, uid, user, visible, tags)| Meta { id, version, ts, changeset, uid, user, visible, tags })
        .boxed()
}

pub fn refs(dom: Dom) -> BoxedStrategy<Vec<i64>> {
    prop_oneof![
        4 => prop::collection::vec(id(dom), 0..8),
        1 => Just(vec![]),
        1 => prop::collection::vec(id(dom), 8..40),
        1 => (id(dom), 1usize..30).prop_map(|(s, n)| { let mut v: Vec<i64> = (0..n as i64).map(|i| (s / 2) + i).collect(); v.push(v[0]); v }),
    ]
    .prop_map(move |mut v| {
        if dom == Dom::Db { for x in v.iter_mut() { if *x == 0 { *x = 1 } } }
        v
    })
    .boxed()
}

pub fn members(dom: Dom) -> BoxedStrategy<Vec<(u8, i64, String)>> {
    let one = (0u8..3, id(dom), text(dom));
    prop_oneof![
        4 => prop::collection::vec(one.clone(), 0..6),
        1 => Just(vec![]),
        1 => prop::collection::vec(one, 6..25),
        1 => (prop::collection::vec((0u8..3, 1i64..4, prop::sample::select(vec!["", "outer", "inner", "a"])), 2..10))
            .prop_map(|v| v.into_iter().map(|(t, i, r)| (t, i, r.to_string())).collect()),
    ]
    .boxed()
}

pub fn node(dom: Dom) -> BoxedStrategy<El> {
    (meta(dom), lat(), lon()).prop_map(|(m, lat, lon)| El { m, b: Body::Node { lat, lon } }).boxed()
}
pub fn way(dom: Dom) -> BoxedStrategy<El> {
    (meta(dom), refs(dom)).prop_map(|(m, refs)| El { m, b: Body::Way { refs } }).boxed()
}
pub fn rel(dom: Dom) -> BoxedStrategy<El> {
    (meta(dom), members(dom)).prop_map(|(m, members)| El { m, b: Body::Rel { members } }).boxed()
}

pub fn element(dom: Dom) -> BoxedStrategy<El> {
    prop_oneof![4 => node(dom), 3 => way(dom), 3 => rel(dom)].boxed()
}

/// A sorted element sequence without duplicate (type, id, version); each type may be absent.
pub fn elements(dom: Dom, max: usize) -> BoxedStrategy<Vec<El>> {
    let third = (max / 3).max(1);
    let some = move |s: BoxedStrategy<El>| {
        prop_oneof![
            1 => Just(vec![]),
            6 => prop::collection::vec(s, 0..=third),
        ]
    };
    (some(node(dom)), some(way(dom)), some(rel(dom)), histories(dom, third))
        .prop_map(move |(n, w, r, h)| {
            let mut v: Vec<El> = n.into_iter().chain(w).chain(r).chain(h).collect();
            normalise(&mut v, dom);
            v
        })
        .boxed()
}

/// Several versions of a few objects.
pub fn histories(dom: Dom, max: usize) -> BoxedStrategy<Vec<El>> {
    let obj = (id(dom), 0u8..3, prop::collection::vec((element(dom), 1i32..4), 1..6));
    prop_oneof![
        1 => Just(vec![]),
        1 => prop::collection::vec(obj, 0..=(max / 3).max(1)).prop_map(|objs| {
            let mut out = vec![];
            for (id, ty, vers) in objs {
                let mut v = 0;
                for (mut e, step) in vers {
                    v += step;
                    e.m.id = id;
                    e.m.version = v;
                    match (&e.b, ty) {
                        (Body::Node { .. }, 0) | (Body::Way { .. }, 1) | (Body::Rel { .. }, 2) => {}
                        (_, 0) => e.b = Body::Node { lat: (id % 900_000_000) * 100, lon: -(v as i64) * 100 },
                        (_, 1) => e.b = Body::Way { refs: (0..v as i64).map(|i| 1 + i + (id & 0xff)).collect() },
                        (_, _) => e.b = Body::Rel { members: (0..v as i64).map(|i| ((i % 3) as u8, 10 - i.min(9), format!("r{i}"))).collect() },
                    }
                    out.push(e);
                }
            }
            out
        }),
    ]
    .boxed()
}

/// Sort and make unique; for Dom::Db also make uid a function of changeset and user of uid.
pub fn normalise(v: &mut Vec<El>, dom: Dom) {
    v.sort_by_key(|e| e.key());
    v.dedup_by_key(|e| e.key());
    if dom == Dom::Db {
        let mut by_cs: std::collections::HashMap<i64, i32> = Default::default();
        let mut by_uid: std::collections::HashMap<i32, String> = Default::default();
        for e in v.iter_mut() {
            let u = *by_cs.entry(e.m.changeset).or_insert(e.m.uid);
            e.m.uid = u;
            let name = by_uid.entry(u).or_insert_with(|| e.m.user.clone()).clone();
            e.m.user = name;
        }
    }
}

/// Compact descriptor of a long run of elements of one type.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Bulk {
    pub kind: u8,
    pub n: usize,
    pub start: i64,
    pub step: i64,
    pub salt: u64,
    /// number of distinct strings used; 0 = no tags
    pub vocab: u32,
    /// versions per object
    pub versions: u8,
    /// so many refs or members, or a tag that long, in every element
    #[serde(default)]
    pub heavy: u32,
    /// a user and a changeset for every element, and many tags
    #[serde(default)]
    pub wide: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Pure expansion of a descriptor.
pub fn expand(b: &Bulk) -> Vec<El> {
    let mut out = Vec::with_capacity(b.n);
    let vs = b.versions.max(1) as usize;
    for i in 0..b.n {
        let h = |k: u64| mix(b.salt ^ mix((i as u64) << 8 | k));
        let id = b.start + (i / vs) as i64 * b.step.max(1);
        let version = (i % vs) as i32 + 1;
        let changeset = if b.wide { 1000 + b.start + i as i64 } else { 1 + (h(1) % 97) as i64 };
        let uid = if b.wide { changeset as i32 } else { 1 + (changeset % 13) as i32 };
        let mut tags = vec![];
        if b.vocab > 0 {
            for t in 0..(h(2) % 4) {
                tags.push((format!("key {}", t), format!("v{}", h(10 + t) % b.vocab as u64)));
            }
        }
        if b.wide {
            // the fewer the elements, the longer
            (0..(2000 / b.n.max(1)).clamp(4, 400)).for_each(|t| tags.push((format!("wide {t}"), format!("{:032x}", h(1000 + t as u64)))));
        }
        let m = Meta {
            id,
            version,
            ts: (1_200_000_000 + (h(3) % 400_000_000) as i64) * 1000,
            changeset,
            uid,
            user: format!("user {}", uid),
            visible: h(4) % 8 != 0,
            tags,
        };
        let mut m = m;
        if b.heavy > 0 && b.kind == 0 {
            let v: String = (0..b.heavy as u64 / 8).map(|r| format!("{:08x}", h(50 + (r << 8)) as u32)).collect();
            m.tags.push(("heavy".into(), v));
        }
        let b2 = match b.kind {
            1 if b.heavy > 0 => Body::Way { refs: (0..b.heavy as u64).map(|r| 1 + (h(20 + (r << 8)) >> 3) as i64).collect() },
            2 if b.heavy > 0 => Body::Rel { members: (0..b.heavy as u64).map(|r| ((h(30 + (r << 8)) % 3) as u8, 1 + (h(40 + (r << 8)) >> 3) as i64, format!("role{}", r % 7))).collect() },
            0 => Body::Node { lat: ((h(5) % 1_800_000_001) as i64 - 900_000_000) * 100, lon: ((h(6) % 3_600_000_001) as i64 - 1_800_000_000) * 100 },
            1 => Body::Way { refs: (0..(h(5) % 6)).map(|r| 1 + (h(20 + r) % 1_000_000_000) as i64).collect() },
            _ => Body::Rel { members: (0..(h(5) % 5)).map(|r| ((h(30 + r) % 3) as u8, 1 + (h(40 + r) % 1_000_000) as i64, format!("role{}", h(50 + r) % 7))).collect() },
        };
        out.push(El { m, b: b2 });
    }
    out
}

/// Element sequence of a case: small explicit elements plus bulk runs.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Seq {
    pub els: Vec<El>,
    pub bulk: Vec<Bulk>,
}

impl Seq {
    pub fn all(&self, dom: Dom) -> Vec<El> {
        if self.bulk.is_empty() {
            return self.els.clone();
        }
        let mut v = self.els.clone();
        for b in &self.bulk {
            v.extend(expand(b));
        }
        normalise(&mut v, dom);
        v
    }
}

pub fn bulk(dom: Dom, sizes: Vec<usize>) -> BoxedStrategy<Bulk> {
    (0u8..3, prop::sample::select(sizes), 0i64..3, prop::sample::select(vec![1i64, 1, 3, 1000]), any::<u64>(), prop::sample::select(vec![0u32, 3, 40, 20000]), 0usize..24, prop_oneof![3 => Just(1u8), 1 => 2u8..5])
        .prop_map(move |(kind, n, big, step, salt, vocab, jitter, versions)| {
            let n = (n + jitter % 3).saturating_sub(1);
            let start = match big {
                0 => 1,
                1 => 1_000_000_000_000,
                _ => if dom == Dom::Pbf { -1_000_000_000_000 } else { 1_000 },
            };
            Bulk { kind, n, start, step, salt, vocab, versions, heavy: 0, wide: false }
        })
        .boxed()
}

/// Mostly small explicit sequences; with weight `big` out of 100 one with bulk runs of the given sizes (+-1).
pub fn seq(dom: Dom, max_small: usize, big: u32, sizes: Vec<usize>) -> BoxedStrategy<Seq> {
    let small = elements(dom, max_small).prop_map(|els| Seq { els, bulk: vec![] });
    if big == 0 {
        return small.boxed();
    }
    let large = (elements(dom, 4), prop::collection::vec(bulk(dom, sizes), 1..4)).prop_map(|(els, bulk)| Seq { els, bulk });
    prop_oneof![(100 - big) => small, big => large].boxed()
}

/// Splitting of a sequence of calls: 0 = write_element, k>0 = write_elements with the next k.
pub fn batching() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        3 => Just(vec![0u16]),
        2 => Just(vec![u16::MAX]),
        3 => prop::collection::vec(prop_oneof![2 => Just(0u16), 3 => 1u16..6, 1 => 6u16..60, 1 => Just(7999u16), 1 => Just(8000), 1 => Just(8001)], 1..8),
    ]
    .boxed()
}

/// Split `n` items following `pattern` cyclically; returns (single?, range).
pub fn split(pattern: &[u16], n: usize) -> Vec<(bool, std::ops::Range<usize>)> {
    let mut out = vec![];
    let mut i = 0;
    let mut p = 0;
    while i < n {
        let k = if pattern.is_empty() { 0 } else { pattern[p % pattern.len()] };
        p += 1;
        if k == 0 {
            out.push((true, i..i + 1));
            i += 1;
        } else {
            let j = (i + k as usize).min(n);
            out.push((false, i..j));
            i = j;
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Info {
    /// left, bottom, right, top in nanodegrees
    pub bbox: Option<[i64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub ts: Option<i64>,
    pub seq: Option<i64>,
    pub url: Option<String>,
}

impl Info {
    pub fn to_lib(&self) -> osm_io::osm::pbf::file_info::FileInfo {
        use osm_io::osm::model::bounding_box::BoundingBox;
        osm_io::osm::pbf::file_info::FileInfo::new(
            self.bbox.map(|b| BoundingBox::new(b[0] as f64 / NANO, b[1] as f64 / NANO, b[2] as f64 / NANO, b[3] as f64 / NANO)),
            self.required.clone(),
            self.optional.clone(),
            self.program.clone(),
            self.source.clone(),
            self.ts,
            self.seq,
            self.url.clone(),
        )
    }
    pub fn basic() -> Info {
        Info {
            bbox: None,
            required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into()],
            optional: vec!["Sort.Type_then_ID".into()],
            program: Some("verif".into()),
            source: None,
            ts: None,
            seq: None,
            url: None,
        }
    }
    pub fn diff(&self, i: &osm_io::osm::pbf::file_info::FileInfo) -> Option<String> {
        macro_rules! chk {
            ($n:expr, $a:expr, $b:expr) => {
                if $a != $b {
                    return Some(format!("header field {}: expected {:?}, got {:?}", $n, $a, $b));
                }
            };
        }
        chk!("required_features", &self.required, i.required_features());
        chk!("optional_features", &self.optional, i.optional_features());
        chk!("writingprogram", &self.program, i.writingprogram());
        chk!("source", &self.source, i.source());
        chk!("replication timestamp", &self.ts, i.osmosis_replication_timestamp());
        chk!("replication sequence number", &self.seq, i.osmosis_replication_sequence_number());
        chk!("replication base url", &self.url, i.osmosis_replication_base_url());
        let got = i.bounding_box().as_ref().map(|b| [b.left(), b.bottom(), b.right(), b.top()]);
        let exp = self.bbox.map(|b| b.map(|v| v as f64 / NANO));
        match (&exp, &got) {
            (None, None) => {}
            (Some(e), Some(g)) => {
                for k in 0..4 {
                    if (e[k] - g[k]).abs() > 1e-12 {
                        return Some(format!("bounding box (left,bottom,right,top): expected {e:?}, got {g:?}"));
                    }
                }
            }
            _ => return Some(format!("bounding box: expected {exp:?}, got {got:?}")),
        }
        None
    }
}

pub const SUPPORTED: [&str; 4] = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"];

pub fn nano(max: i64) -> BoxedStrategy<i64> {
    prop_oneof![
        4 => -max..=max,
        1 => -20i64..20,
        1 => prop::sample::select(vec![max, -max, 0, max - 1, 1 - max]),
        1 => (-(max / 1_000_000)..=(max / 1_000_000)).prop_map(|v| v * 1_000_000),
        2 => (-(max / 100)..=(max / 100)).prop_map(|v| v * 100),
    ]
    .boxed()
}

pub fn info() -> BoxedStrategy<Info> {
    let lonlat = (nano(180_000_000_000), nano(90_000_000_000), nano(180_000_000_000), nano(90_000_000_000));
    let feats = prop::collection::vec(prop::sample::select(SUPPORTED.to_vec()).prop_map(|s| s.to_string()), 0..5);
    let opt = prop_oneof![2 => feats.clone(), 1 => prop::collection::vec(text(Dom::Pbf), 0..4)];
    let i = prop_oneof![2 => 0i64..2_000_000_000, 1 => any::<i64>(), 1 => prop::sample::select(vec![0, 1, -1, i64::MAX, i64::MIN])];
    (
        prop::option::of(lonlat),
        feats,
        opt,
        prop::option::of(text(Dom::Pbf)),
        prop::option::of(text(Dom::Pbf)),
        prop::option::of(i.clone()),
        prop::option::of(i),
        prop::option::of(text(Dom::Pbf)),
    )
        .prop_map(|(b, required, optional, program, source, ts, seq, url)| Info {
            bbox: b.map(|(l, bo, r, t)| [l, bo, r, t]),
            required,
            optional,
            program,
            source,
            ts,
            seq,
            url,
        })
        .boxed()
}
