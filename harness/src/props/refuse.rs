//! The sequential writer given anything in any order, and the values of the model.
use crate::driver::*;
use crate::gen::{self, batching, expand, mix, split, Bulk, Dom, Info};
use crate::io::*;
use crate::model::*;
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::writer::Writer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C30

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Els(Vec<El>),
    Run(Bulk),
    /// one element that takes that many bytes: (type, bytes)
    Big(u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyOrder {
    pub pieces: Vec<Piece>,
    pub batching: Vec<u16>,
    /// close() after these calls too (modulo the number of calls)
    pub closes: Vec<u16>,
    pub zlib: bool,
    pub sentinels: u32,
}

fn rank(e: &El) -> u8 {
    match e.b {
        Body::Node { .. } => 0,
        Body::Way { .. } => 1,
        Body::Rel { .. } => 2,
    }
}

impl AnyOrder {
    fn all(&self) -> Vec<El> {
        let mut out = vec![];
        for p in &self.pieces {
            match p {
                Piece::Els(v) => out.extend(v.iter().cloned()),
                Piece::Run(b) => out.extend(expand(b)),
                Piece::Big(t, len) => {
                    let mut e = expand(&Bulk { kind: *t, n: 1, start: 1 + out.len() as i64, step: 1, salt: *len as u64, vocab: 0, versions: 1, heavy: 0, wide: false }).remove(0);
                    e.m.tags = vec![("big".into(), "x".repeat(*len as usize))];
                    out.push(e);
                }
            }
        }
        out
    }
}

pub struct C30;
impl Prop for C30 {
    type Case = AnyOrder;
    const ID: &'static str = "C30";
    const RULE: &'static str = "Sequences of elements in any order (sorted, sorted within types, types interleaved, ids falling, keys repeated, runs around multiples of 8000 and of mixed types), handed to the sequential writer in any mixture of single and list calls with sentinels in between and with close() in the middle, and elements of about the largest size a block can hold and beyond. Refused calls (an error or a panic) are noted and, after a panic, writing goes on. When the last close() reports success, the file must hold exactly the elements of the calls that succeeded, in the order of the calls; sequences in order of types must not be refused unless too large. Non-trivial: at least two elements, not sorted.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 300_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<AnyOrder> {
        let el = gen::element(Dom::Pbf);
        let mixed = prop::collection::vec(el.clone(), 0..20);
        // sorted but for a few
        let displaced = (gen::elements(Dom::Pbf, 16), prop::collection::vec((any::<prop::sample::Index>(), any::<prop::sample::Index>()), 0..3)).prop_map(|(mut v, s)| {
            if !v.is_empty() {
                for (a, b) in s {
                    let n = v.len();
                    let e = v.remove(a.index(n));
                    v.insert(b.index(n), e);
                }
            }
            v
        });
        let repeated = (gen::elements(Dom::Pbf, 8), any::<u16>()).prop_map(|(v, salt)| v.into_iter().enumerate().flat_map(|(i, e)| vec![e; 1 + (mix(salt as u64 ^ i as u64) % 3 / 2) as usize]).collect::<Vec<_>>());
        let by_type = prop::collection::vec(el, 0..16).prop_map(|mut v| {
            v.sort_by_key(rank);
            v
        });
        let some = prop_oneof![2 => mixed, 3 => displaced, 2 => repeated, 3 => by_type].prop_map(|v| vec![Piece::Els(v)]);
        let run = gen::bulk(Dom::Pbf, vec![1, 7999, 8000, 8001, 16_000, 300]).prop_map(Piece::Run);
        let runs = (prop::collection::vec(run, 1..4), gen::elements(Dom::Pbf, 4), any::<bool>()).prop_map(|(mut r, e, sorted)| {
            if sorted {
                r.sort_by_key(|p| match p {
                    Piece::Run(b) => b.kind,
                    _ => 0,
                });
            } else {
                r.insert(r.len() / 2, Piece::Els(e));
            }
            r
        });
        let closes = prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..3)];
        (prop_oneof![97 => some, 3 => runs], batching(), closes, any::<bool>(), prop_oneof![3 => Just(0u32), 1 => 1u32..1000])
            .prop_map(|(pieces, batching, closes, zlib, sentinels)| AnyOrder { pieces, batching, closes, zlib, sentinels })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<AnyOrder> {
        let one = |pieces: Vec<Piece>, zlib: bool| AnyOrder { pieces, batching: vec![0], closes: vec![], zlib, sentinels: 0 };
        let few = |kind| Piece::Run(Bulk { kind, n: 3, start: 100, step: 1, salt: 5, vocab: 3, versions: 1, heavy: 0, wide: false });
        let mib = 1u32 << 20;
        let mut out = vec![
            one(vec![few(0), Piece::Big(0, 33 * mib), few(1)], false),
            one(vec![few(0), Piece::Big(1, 40 * mib), few(2)], true),
            one(vec![Piece::Big(2, 33 * mib)], true),
            one(vec![Piece::Big(0, 20 * mib), Piece::Big(0, 20 * mib), few(1)], true),
            one(vec![Piece::Big(1, 31 * mib), Piece::Big(1, 31 * mib)], false),
        ];
        // the overhead of the messages is between 40 and 120 bytes
        for less in (40..128).step_by(8) {
            out.push(one(vec![Piece::Big((less / 8 % 3) as u8, 32 * mib - less)], false));
        }
        for less in 20..44 {
            out.push(one(vec![Piece::Big(0, 32 * mib - 2 * less)], false));
        }
        out
    }
    fn run(c: &AnyOrder, ctx: &mut Ctx) -> R {
        let els = c.all();
        let sorted = els.windows(2).all(|w| w[0].key() <= w[1].key());
        let by_type = els.windows(2).all(|w| rank(&w[0]) <= rank(&w[1]));
        ctx.label(if sorted { "sorted" } else if by_type { "sorted by type only" } else { "types out of order" });
        ctx.when(els.windows(2).any(|w| w[0].key() == w[1].key()), "repeated keys");
        ctx.when(els.len() >= 8000, "8000 elements or more");
        let big = c.pieces.iter().any(|p| matches!(p, Piece::Big(..)));
        ctx.when(big, "an element of about the largest size");
        ctx.nontrivial(els.len() > 1 && !sorted);
        let p = ctx.path("a.osm.pbf");
        let mut w = catch(|| Writer::from_file_info(p.clone(), Info::basic().to_lib(), comp(c.zlib))).map_err(|m| format!("Writer panicked: {m}"))?.map_err(|e| format!("{e:#}"))?;
        if *w.path() != p {
            return Err(format!("path() is {:?}", w.path()));
        }
        catch(|| w.write_header()).map_err(|m| format!("write_header panicked: {m}"))?.map_err(|e| format!("write_header: {e:#}"))?;
        // what must be in the file, and after what else may be
        let mut want: Vec<El> = vec![];
        let mut may: Vec<(usize, Vec<El>)> = vec![];
        let mut refused = 0;
        let calls = split(&c.batching, els.len());
        let mut closed = false;
        for (i, (single, r)) in calls.iter().enumerate() {
            let slice = &els[r.clone()];
            let h = if c.sentinels == 0 { 15 } else { mix(c.sentinels as u64 ^ (i as u64) << 32) % 16 };
            let res = catch(|| {
                if h == 0 {
                    w.write_element(Element::Sentinel)?;
                }
                if *single {
                    w.write_element(slice[0].to_lib())
                } else {
                    let mut v: Vec<Element> = slice.iter().map(|e| e.to_lib()).collect();
                    if h < 3 {
                        v.insert(v.len() * h as usize / 2, Element::Sentinel);
                    }
                    w.write_elements(v)
                }
            });
            match res {
                Ok(Ok(())) => want.extend(slice.iter().cloned()),
                Err(m) => {
                    if by_type && !closed {
                        return Err(format!("a call with {} elements in order of type panicked: {m}", slice.len()));
                    }
                    refused += 1;
                    if !*single {
                        may.push((want.len(), slice.to_vec()));
                    }
                }
                Ok(Err(e)) => {
                    if by_type && !closed && !big {
                        return Err(format!("a call with {} elements in order of type failed: {e:#}", slice.len()));
                    }
                    // what had been taken before may be lost with it
                    ctx.label("refused with an error");
                    return Ok(());
                }
            }
            if c.closes.iter().any(|x| *x as usize % calls.len() == i) {
                match catch(|| w.close()) {
                    Ok(Ok(())) => closed = true,
                    _ if by_type && !closed && !big => return Err("close() in the middle failed".into()),
                    _ => return Ok(()),
                }
                ctx.label("closed in between");
            }
        }
        match catch(|| w.close()) {
            Ok(Ok(())) => {}
            Err(m) if by_type && !closed => return Err(format!("close() panicked: {m}")),
            Ok(Err(e)) if by_type && !closed && !big => return Err(format!("close() failed: {e:#}")),
            _ => {
                ctx.label("close() refused");
                return Ok(());
            }
        }
        ctx.when(refused > 0, "calls refused, then closed with success");
        let (_, got) = read_seq(&p).map_err(|m| format!("written with success, but {m}"))?;
        let got = els_of(&got)?;
        // a refused list may have been written up to the element that was refused
        let mut ends = std::collections::BTreeSet::from([0usize]);
        let mut at = 0;
        may.push((want.len(), vec![]));
        for (upto, list) in &may {
            let part = &want[at..*upto];
            let last = *ends.last().unwrap();
            ends = ends.iter().filter(|g| got[**g..].starts_with(part)).map(|g| g + part.len()).collect();
            if ends.is_empty() {
                let rest = &got[last..];
                return Err(match part.iter().zip(rest).position(|(a, b)| a != b) {
                    Some(i) => format!("accepted element #{} of {}: expected {:?}\n     got {:?}", at + i, want.len(), part[i], rest[i]),
                    None => format!("{} elements accepted, the file ends after {} of them", want.len(), at + rest.len()),
                });
            }
            at = *upto;
            for g in ends.clone() {
                ends.extend((1..=list.len()).take_while(|k| got.get(g + k - 1) == Some(&list[k - 1])).map(|k| g + k));
            }
        }
        if !ends.contains(&got.len()) {
            return Err(format!("{} elements in the file, {} accepted; the first in excess is {:?}", got.len(), want.len(), got[*ends.last().unwrap()]));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Token {
    /// a number of units of 10^-decimals, written with that many decimals
    Num(i64, u8),
    /// anything
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ValueCase {
    pub tokens: Vec<Token>,
    /// white space before and after each token
    pub space: Vec<String>,
    /// points in units of 10^-7 degrees (lat, lon)
    pub points: Vec<(i64, i64)>,
    /// merge the points from here on as a box of their own
    pub cut: u16,
}

fn number(n: i64, d: u8) -> String {
    let u = n.unsigned_abs();
    let p = 10u64.pow(d as u32);
    let s = if d == 0 { format!("{u}") } else { format!("{}.{:0w$}", u / p, u % p, w = d as usize) };
    if n < 0 { format!("-{s}") } else { s }
}

fn deg7(n: i64) -> f64 {
    n as f64 / 1e7
}

pub struct C31;
impl Prop for C31 {
    type Case = ValueCase;
    const ID: &'static str = "C31";
    const RULE: &'static str = "Texts of (mostly) four tokens, numbers with up to nine decimals in and around the permitted ranges or other texts (NaN, inf, exponents, signs, empty, words), with white space around the commas; and lists of points of which bounding boxes are built by merging points and boxes in several orders. A text is accepted exactly if it has four numbers within the ranges, and the box then has these four sides in this order; a merged box has the smallest and largest coordinates exactly, in every order of merging. Coordinates give back the multiples of 10^-7 degrees they were made of. Non-trivial: an accepted text with four different numbers, or two different points.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 100_000 } else { 5_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ValueCase> {
        let lim = prop::sample::select(vec![0i64, 90, -90, 180, -180, 89, 91, -91, 179, 181, -181, 100, -100, 360, 1]);
        let num = prop_oneof![
            6 => (0u8..10, any::<i64>()).prop_map(|(d, x)| { let m = 90 * 10i64.pow(d as u32); Token::Num(x % (m + 1), d) }),
            2 => (0u8..10, any::<i64>()).prop_map(|(d, x)| { let m = 180 * 10i64.pow(d as u32); Token::Num(x % (m + 1), d) }),
            2 => (lim, 0u8..10, -1i64..2).prop_map(|(l, d, o)| Token::Num(l * 10i64.pow(d as u32) + o, d)),
        ];
        let odd = prop_oneof![
            4 => prop::sample::select(vec!["", "NaN", "nan", "inf", "-inf", "infinity", "1e1", "1E2", "-1e-3", "1e400", "+5", "--5", "0x10", "1.2.3", "1 2", "°", ".5", "5.", "-", "1_0", "١", "-0", "-0.0", "90.00000000000001", "180.00000000000003", "-90.00000000000001", "left", "90N"]).prop_map(|s| s.to_string()),
            1 => "\\PC{0,6}",
        ]
        .prop_map(Token::Text);
        let tok = prop_oneof![20 => num.clone(), 1 => odd];
        let tokens = prop_oneof![12 => prop::collection::vec(num, 4), 12 => prop::collection::vec(tok.clone(), 4), 2 => prop::collection::vec(tok, 0..7)];
        let space = prop::collection::vec(prop_oneof![6 => Just(String::new()), 3 => Just(" ".to_string()), 1 => "[ \t\n\r]{0,3}"], 0..8);
        let lat = prop_oneof![3 => -900_000_000i64..=900_000_000, 1 => -3i64..4, 1 => prop::sample::select(vec![-900_000_000i64, 900_000_000])];
        let lon = prop_oneof![3 => -1_800_000_000i64..=1_800_000_000, 1 => -3i64..4, 1 => prop::sample::select(vec![-1_800_000_000i64, 1_800_000_000])];
        let points = prop::collection::vec((lat, lon), 0..12);
        (tokens, space, points, any::<u16>()).prop_map(|(tokens, space, points, cut)| ValueCase { tokens, space, points, cut }).boxed()
    }
    fn run(c: &ValueCase, ctx: &mut Ctx) -> R {
        let toks: Vec<String> = c.tokens.iter().map(|t| match t { Token::Num(n, d) => number(*n, *d), Token::Text(s) => s.clone() }).collect();
        let ws = |i: usize| c.space.get(i).map_or("", |s| s.as_str());
        let text = toks.iter().enumerate().map(|(i, t)| format!("{}{t}{}", ws(2 * i), ws(2 * i + 1))).collect::<Vec<_>>().join(",");
        let got = catch(|| text.parse::<BoundingBox>()).map_err(|m| format!("parsing {text:?} panicked: {m}"))?;
        // a token that holds a comma makes more of them
        let parts: Vec<&str> = text.split(',').map(|s| s.trim()).collect();
        let nums: Vec<Option<f64>> = parts.iter().map(|s| s.parse().ok()).collect();
        let lim = [180.0, 90.0, 180.0, 90.0];
        let want = parts.len() == 4 && nums.iter().zip(lim).all(|(n, l)| n.is_some_and(|n: f64| n >= -l && n <= l));
        ctx.label(if want { "text accepted" } else { "text refused" });
        match (&got, want) {
            (Ok(b), true) => {
                let v = [b.left(), b.bottom(), b.right(), b.top()];
                for (i, n) in nums.iter().enumerate() {
                    if n.unwrap() != v[i] {
                        return Err(format!("{text:?} gives {b}"));
                    }
                }
                // numbers written by this check are known beforehand
                for (i, t) in c.tokens.iter().enumerate() {
                    if let (Token::Num(n, d), 4) = (t, c.tokens.len()) {
                        if (v[i] - *n as f64 / 10f64.powi(*d as i32)).abs() > 1e-12 {
                            return Err(format!("{text:?} gives {b}"));
                        }
                    }
                }
                ctx.nontrivial((0..4).all(|i| (0..i).all(|j| v[i] != v[j])));
                let shown = b.to_string();
                let same = BoundingBox::new(v[0], v[1], v[2], v[3]).to_string();
                if shown != same {
                    return Err(format!("shown as {shown} and as {same}"));
                }
            }
            (Err(_), false) => {}
            (Ok(b), false) => return Err(format!("{text:?} is accepted as {b}")),
            (Err(e), true) => return Err(format!("{text:?} is refused: {e:#}")),
        }
        let sides = |b: &BoundingBox| [b.left(), b.bottom(), b.right(), b.top()];
        let world = [-180.0, -90.0, 180.0, 90.0];
        if sides(&BoundingBox::default()) != world {
            return Err(format!("the default box is {}", BoundingBox::default()));
        }
        let pts: Vec<Coordinate> = c.points.iter().map(|(a, o)| Coordinate::new(deg7(*a), deg7(*o))).collect();
        for (p, (a, o)) in pts.iter().zip(&c.points) {
            if (p.lat7(), p.lon7()) != (*a, *o) || p.lat() != deg7(*a) || p.lon() != deg7(*o) {
                return Err(format!("the coordinate of ({a}, {o}) has lat7 {} and lon7 {}", p.lat7(), p.lon7()));
            }
        }
        if pts.is_empty() {
            return Ok(());
        }
        ctx.nontrivial(c.points.iter().any(|p| *p != c.points[0]));
        let min = |f: fn(&(i64, i64)) -> i64, v: &[(i64, i64)]| deg7(v.iter().map(f).min().unwrap());
        let max = |f: fn(&(i64, i64)) -> i64, v: &[(i64, i64)]| deg7(v.iter().map(f).max().unwrap());
        let want = |v: &[(i64, i64)]| [min(|p| p.1, v), min(|p| p.0, v), max(|p| p.1, v), max(|p| p.0, v)];
        let build = |order: &mut dyn Iterator<Item = usize>| {
            let mut b: Option<BoundingBox> = None;
            for i in order {
                match &mut b {
                    None => b = Some(BoundingBox::from_point(&pts[i])),
                    Some(b) => b.merge_point(&pts[i]),
                }
            }
            b
        };
        let n = pts.len();
        let k = c.cut as usize % (n + 1);
        let all = want(&c.points);
        for (how, b) in [("forwards", build(&mut (0..n))), ("backwards", build(&mut (0..n).rev())), ("twice", build(&mut (0..2 * n).map(|i| i % n)))] {
            let b = b.unwrap();
            if sides(&b) != all {
                return Err(format!("points merged {how} give {b}, expected {all:?}"));
            }
            let mut whole = BoundingBox::default();
            whole.merge_bounding_box(&b);
            if sides(&whole) != world {
                return Err(format!("the world merged with {b} gives {whole}"));
            }
        }
        if let (Some(a), Some(b)) = (build(&mut (0..k)), build(&mut (k..n))) {
            let parts = [want(&c.points[..k]), want(&c.points[k..])];
            for (mut x, y) in [(a.clone(), b.clone()), (b.clone(), a.clone())] {
                x.merge_bounding_box(&y);
                if sides(&x) != all {
                    return Err(format!("boxes {parts:?} merged give {x}, expected {all:?}"));
                }
            }
            if sides(&a) != parts[0] || sides(&b) != parts[1] {
                return Err(format!("boxes are {a} and {b}, expected {parts:?}"));
            }
        }
        Ok(())
    }
}
