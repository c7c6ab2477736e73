//! Element comparison and timestamp formatting.
use crate::copy::civil;
use crate::driver::*;
use crate::gen::mix;
use crate::model::*;
use osm_io::osm::converters::timestamp_to_iso8601_seconds;
use osm_io::osm::model::element::Element;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

// ---------------------------------------------------------------- C08

/// kind 0 node, 1 way, 2 relation, 3 sentinel
type K = (u8, i64, i32);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrdCase {
    pub keys: Vec<K>,
    /// content apart from the key
    pub salt: u64,
}

fn el_of(k: K, i: usize, salt: u64) -> Element {
    let h = mix(salt ^ i as u64);
    let tags = (0..h % 3).map(|j| (format!("k{j}"), format!("{}", mix(h ^ j) % 10))).collect();
    let m = Meta { id: k.1, version: k.2, ts: (h >> 8) as i64 % 1000 * 1000, changeset: (h >> 20) as i64 % 50, uid: (h >> 30) as i32 % 50, user: format!("u{}", h % 7), visible: h & 1 == 0, tags };
    let b = match k.0 {
        0 => Body::Node { lat: (h % 1000) as i64 * 100, lon: -((h % 777) as i64) * 100 },
        1 => Body::Way { refs: (0..(h >> 40) % 4).map(|x| x as i64).collect() },
        2 => Body::Rel { members: (0..(h >> 40) % 4).map(|x| ((x % 3) as u8, x as i64, "r".into())).collect() },
        _ => return Element::Sentinel,
    };
    El { m, b }.to_lib()
}

/// the key that decides: sentinels are all alike
fn want_key(k: K) -> K {
    if k.0 == 3 {
        (3, 0, 0)
    } else {
        k
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = OrdCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "Lists of up to 40 elements (and a few of 400) whose type, id and version come from small pools and extremes (so that keys collide in every combination), with content independent of the key; every pair is compared with the tuple (type, id, version), every triple of a sample is checked for transitivity, and sorting, searching, minimum and sets are compared with those of the tuples. Non-trivial: at least two different keys.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 30_000 } else { 1_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<OrdCase> {
        let id = prop_oneof![5 => -3i64..4, 2 => any::<i64>(), 3 => prop::sample::select(vec![i64::MIN, i64::MAX, i64::MIN + 1, 0, -1, 1, 9, 10, 100, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1])];
        let ver = prop_oneof![5 => 0i32..4, 1 => any::<i32>(), 3 => prop::sample::select(vec![i32::MIN, i32::MAX, -1, 9, 10, 11, 255, 256, 65536])];
        let k = (prop_oneof![4 => 0u8..3, 1 => Just(3u8)], id, ver);
        (prop_oneof![20 => prop::collection::vec(k.clone(), 0..12), 5 => prop::collection::vec(k.clone(), 12..40), 1 => prop::collection::vec(k, 100..400)], any::<u64>()).prop_map(|(keys, salt)| OrdCase { keys, salt }).boxed()
    }
    fn run(c: &OrdCase, ctx: &mut Ctx) -> R {
        let els: Vec<Element> = c.keys.iter().enumerate().map(|(i, k)| el_of(*k, i, c.salt)).collect();
        let keys: Vec<K> = c.keys.iter().map(|k| want_key(*k)).collect();
        ctx.nontrivial(keys.iter().any(|k| *k != keys[0]));
        ctx.when(keys.iter().any(|k| k.0 == 3), "has sentinels");
        let n = els.len();
        let lim = n.min(40);
        for i in 0..n {
            let e = &els[i];
            let p = [e.is_node(), e.is_way(), e.is_relation(), e.is_sentinel()];
            for (t, b) in p.iter().enumerate() {
                if *b != (keys[i].0 as usize == t) {
                    return Err(format!("type predicates of {e:?} are {p:?}"));
                }
            }
        }
        for i in 0..lim {
            for j in 0..lim {
                let (a, b) = (&els[i], &els[j]);
                let w = keys[i].cmp(&keys[j]);
                let ctxt = || format!("{:?} and {:?}", c.keys[i], c.keys[j]);
                if a.cmp(b) != w {
                    return Err(format!("cmp of {} is {:?}, expected {w:?}", ctxt(), a.cmp(b)));
                }
                if a.partial_cmp(b) != Some(w) {
                    return Err(format!("partial_cmp of {} is {:?}, expected {w:?}", ctxt(), a.partial_cmp(b)));
                }
                if (a == b) != (w == Ordering::Equal) || (a != b) != (w != Ordering::Equal) {
                    return Err(format!("equality of {} is {}, order {w:?}", ctxt(), a == b));
                }
                if (a < b) != (w == Ordering::Less) || (a > b) != (w == Ordering::Greater) || (a <= b) != (w != Ordering::Greater) || (a >= b) != (w != Ordering::Less) {
                    return Err(format!("<, >, <=, >= of {} disagree with {w:?}", ctxt()));
                }
                if Element::same_type(a, b) != (keys[i].0 == keys[j].0) {
                    return Err(format!("same_type of {} is {}", ctxt(), Element::same_type(a, b)));
                }
                let mx = a.clone().max(b.clone());
                let mn = a.clone().min(b.clone());
                if mx.cmp(a).max(mx.cmp(b)) == Ordering::Less || mn.cmp(a).min(mn.cmp(b)) == Ordering::Greater {
                    return Err(format!("max/min of {} are wrong", ctxt()));
                }
            }
        }
        // triples, judged without the oracle
        if n >= 3 {
            for t in 0..200u64 {
                let h = mix(c.salt ^ (t << 32));
                let (a, b, d) = (&els[h as usize % n], &els[(h >> 20) as usize % n], &els[(h >> 40) as usize % n]);
                if a <= b && b <= d && a > d {
                    return Err(format!("not transitive: {a:?} <= {b:?} <= {d:?}"));
                }
            }
        }
        let mut want = keys.clone();
        want.sort();
        let key = |e: &Element| if e.is_sentinel() { (3, 0, 0) } else { key_lib(e) };
        let mut v = els.clone();
        catch(|| v.sort()).map_err(|p| format!("sort panicked: {p}"))?;
        if v.iter().map(key).collect::<Vec<_>>() != want {
            return Err("sort does not give file order".into());
        }
        // stable: equal keys keep their content in the original order
        for i in 1..v.len() {
            if v[i - 1] == v[i] {
                let pos = |e: &Element| els.iter().position(|x| format!("{x:?}") == format!("{e:?}"));
                if n <= 40 && pos(&v[i - 1]) > pos(&v[i]) {
                    return Err("stable sort reorders elements with equal keys".into());
                }
            }
        }
        let mut v2 = els.clone();
        catch(|| v2.sort_unstable()).map_err(|p| format!("sort_unstable panicked: {p}"))?;
        if v2.iter().map(key).collect::<Vec<_>>() != want {
            return Err("sort_unstable does not give file order".into());
        }
        let set: std::collections::BTreeSet<Element> = els.iter().cloned().collect();
        let wset: std::collections::BTreeSet<K> = keys.iter().cloned().collect();
        if set.iter().map(key).collect::<Vec<_>>() != wset.iter().cloned().collect::<Vec<_>>() {
            return Err("a set of the elements has other members than the set of keys".into());
        }
        for (i, e) in els.iter().enumerate() {
            match v.binary_search(e) {
                Ok(j) if key(&v[j]) == keys[i] => {}
                x => return Err(format!("binary search for {:?} gives {x:?}", keys[i])),
            }
        }
        if els.is_sorted() != keys.is_sorted() {
            return Err("is_sorted disagrees with the keys".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TimeCase {
    pub usec: i64,
    pub other: i64,
}

pub struct C19;

const SEC: i64 = 1_000_000;
/// first microsecond of years 0 and 10000
const Y0: i64 = -62_167_219_200 * SEC;
const Y10K: i64 = 253_402_300_800 * SEC;

/// (year, rest of the text) of a formatted timestamp
fn split_year(s: &str) -> Option<(i64, String)> {
    let sign = if s.starts_with('-') { -1 } else { 1 };
    let t = s.strip_prefix(['-', '+']).unwrap_or(s);
    let (y, rest) = t.split_once('-')?;
    if y.len() < 4 {
        return None;
    }
    Some((sign * y.parse::<i64>().ok()?, rest.to_string()))
}

fn check_time(usec: i64) -> Result<Option<(i64, String)>, String> {
    let s = usec.div_euclid(SEC);
    let (y, m, d) = civil(s.div_euclid(86_400));
    let t = s.rem_euclid(86_400);
    let rest = format!("{m:02}-{d:02}T{:02}:{:02}:{:02}Z", t / 3600, t / 60 % 60, t % 60);
    let got = catch(|| timestamp_to_iso8601_seconds(usec)).map_err(|p| format!("{usec} panicked: {p}"))?;
    let inside = (Y0..Y10K).contains(&usec);
    match got {
        Err(_) if !inside => Ok(None),
        Err(e) => Err(format!("{usec} is refused: {e}")),
        Ok(g) if inside => {
            let w = format!("{y:04}-{rest}");
            if g == w {
                Ok(Some((y, rest)))
            } else {
                Err(format!("{usec} gives {g:?}, expected {w:?}"))
            }
        }
        Ok(g) => match split_year(&g) {
            Some((gy, gr)) if gy == y && gr == rest => Ok(Some((y, rest))),
            _ => Err(format!("{usec} gives {g:?}, which is not {y}-{rest}")),
        },
    }
}

impl Prop for C19 {
    type Case = TimeCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "Pairs of microsecond timestamps: uniform over years 0 to 9999, around second, day, month, leap-day, year and century boundaries, negative and sub-second values, and all of i64; compared with an independent civil-calendar computation, and with each other for monotonicity. Outside years 0 to 9999 an error or the correct extended year is accepted. Non-trivial: the first timestamp lies in years 0 to 9999.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 120_000 } else { 5_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<TimeCase> {
        let off = || prop_oneof![3 => -3i64..4, 2 => -1_000_001i64..1_000_002, 1 => prop::sample::select(vec![-86_400 * SEC, 86_400 * SEC, 59 * SEC, 3599 * SEC, 3600 * SEC, 86_399 * SEC, 86_399_999_999])];
        // days at month ends and starts of interesting years
        let day = (prop_oneof![2 => 0i64..10_000, 3 => 1850i64..2150, 2 => prop::sample::select(vec![0i64, 1, 3, 4, 100, 400, 1582, 1600, 1700, 1800, 1900, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2024, 2025, 2038, 2100, 2400, 9996, 9999])], 0i64..366)
            .prop_map(|(y, d)| {
                // days before 1 January of year y, counted with the leap-year rule
                let p = y - 1;
                let leaps = p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
                (y * 365 + leaps - 719_162 - 365 + 0) * 86_400 * SEC + d * 86_400 * SEC
            });
        let one = || {
            prop_oneof![
                4 => Y0..Y10K,
                6 => (day.clone(), off()).prop_map(|(d, o)| d.saturating_add(o)),
                2 => (-4_000_000_000i64..8_000_000_000, off()).prop_map(|(s, o)| s * SEC + o),
                1 => (prop::sample::select(vec![i64::MIN, i64::MAX, 0, Y0, Y10K, i32::MAX as i64 * SEC, i32::MIN as i64 * SEC, u32::MAX as i64 * SEC, i64::MAX / 1000, i64::MIN / 1000, 8_210_266_876_799_999_999, -8_334_601_228_800_000_000]), off()).prop_map(|(b, o)| b.saturating_add(o)),
                1 => any::<i64>(),
            ]
        };
        (one(), prop_oneof![1 => one().prop_map(|o| (true, o)), 1 => off().prop_map(|o| (false, o))]).prop_map(|(usec, (abs, o))| TimeCase { usec, other: if abs { o } else { usec.saturating_add(o) } }).boxed()
    }
    fn run(c: &TimeCase, ctx: &mut Ctx) -> R {
        let inside = (Y0..Y10K).contains(&c.usec);
        ctx.nontrivial(inside);
        ctx.when(inside && c.usec < 0, "before 1970");
        ctx.when(c.usec.rem_euclid(SEC) != 0, "fraction of a second");
        ctx.when(!inside, "outside years 0 to 9999");
        let a = check_time(c.usec)?;
        let b = check_time(c.other)?;
        if let (Some(a), Some(b)) = (a, b) {
            let (x, y) = if c.usec <= c.other { (a, b) } else { (b, a) };
            if x > y {
                return Err(format!("not monotonic: {} and {} give {x:?} and {y:?}", c.usec.min(c.other), c.usec.max(c.other)));
            }
        }
        Ok(())
    }
}
