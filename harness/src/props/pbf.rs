use crate::driver::*;
use crate::enc::{self, EBlock, EFile};
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::wire;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub const BLOCKISH: [usize; 8] = [1, 2, 50, 300, 7999, 8000, 8001, 16000];

pub fn label_seq(ctx: &mut Ctx, els: &[El]) {
    let has = |r: u8| els.iter().any(|e| e.rank() == r);
    let types = (0..3).filter(|r| has(*r)).count();
    ctx.label(format!("types present: {types}"));
    ctx.when(els.is_empty(), "empty sequence");
    ctx.when(els.len() > 8000, "more than one block of elements");
    ctx.when(els.iter().any(|e| !e.m.visible), "has deleted element");
    ctx.when(els.windows(2).any(|w| w[0].rank() == w[1].rank() && w[0].m.id == w[1].m.id), "has history");
    ctx.when(has(2) && !has(1) && has(0), "nodes then relations, no ways");
    ctx.when(!els.is_empty() && !has(0), "no nodes");
    ctx.when(els.iter().any(|e| e.m.id < 0), "negative id");
    ctx.when(els.iter().any(|e| e.m.tags.iter().any(|t| !t.0.is_ascii() || !t.1.is_ascii())), "non-ASCII tag");
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub seq: Seq,
    pub batching: Vec<u16>,
    pub zlib: bool,
    /// a salt for sentinels in the stream, 0: none
    #[serde(default)]
    pub sentinels: u32,
}

pub fn sentinels() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(0u32), 1 => any::<u32>()].boxed()
}

pub fn seq_case(dom: Dom, small: usize, big: u32, sizes: Vec<usize>) -> BoxedStrategy<SeqCase> {
    (seq(dom, small, big, sizes), batching(), any::<bool>(), sentinels()).prop_map(|(seq, batching, zlib, sentinels)| SeqCase { seq, batching, zlib, sentinels }).boxed()
}

pub struct C01;
impl Prop for C01 {
    type Case = SeqCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "Sorted element sequences (small ones with explicit arbitrary content, and runs around multiples of 8000), a cyclic pattern of write_element/write_elements calls, and a compression type; non-trivial: at least two elements.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 250_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<SeqCase> {
        let mut sizes = BLOCKISH.to_vec();
        if t == Tier::Thorough {
            sizes.extend([24_000, 40_001]);
        }
        seq_case(Dom::Pbf, 24, 3, sizes)
    }
    fn fixed(_: Tier) -> Vec<SeqCase> {
        let run = |kind, n, heavy| Seq { els: vec![], bulk: vec![Bulk { kind, n, start: 1, step: 2, salt: 9, vocab: 3, versions: 1, heavy, wide: false }] };
        let mut seqs = heavy_seqs();
        // counters and positions beyond 16 bits
        seqs.push(run(0, 70_001, 0));
        seqs.push(Seq { els: vec![], bulk: vec![run(1, 2, 70_000).bulk[0].clone(), run(2, 2, 70_000).bulk[0].clone()] });
        seqs.push(many_strings());
        seqs.into_iter().enumerate().map(|(i, seq)| SeqCase { seq, batching: vec![if i % 2 == 0 { u16::MAX } else { 0 }], zlib: i % 3 == 0, sentinels: 0 }).collect()
    }
    fn run(c: &SeqCase, ctx: &mut Ctx) -> R {
        let els = c.seq.all(Dom::Pbf);
        label_seq(ctx, &els);
        ctx.when(c.batching.iter().any(|b| *b == 0) && c.batching.iter().any(|b| *b > 0), "mixed single and list calls");
        ctx.nontrivial(els.len() >= 2);
        ctx.when(c.sentinels > 0, "sentinels in the stream");
        let p = ctx.path("a.osm.pbf");
        if c.sentinels == 0 {
            write_seq(&p, &Info::basic(), &els, &c.batching, c.zlib)?;
        } else {
            write_seq_calls(&p, Info::basic().to_lib(), sprinkle(calls_of(&els, &c.batching), c.sentinels), c.zlib)?;
        }
        let (_, got) = read_seq(&p)?;
        match diff_seq(&els, &got) {
            None => Ok(()),
            Some(d) => Err(d),
        }
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeadCase {
    pub info: Info,
    pub zlib: bool,
    pub parallel: bool,
    /// use Writer::new with this history flag instead
    pub convenience: Option<bool>,
    /// set field by field, in the order given by the number, over another header (none: the default)
    #[serde(default)]
    pub setters: Option<(Option<Info>, u8)>,
    pub els: Vec<El>,
}

/// A header built by setters over another.
pub fn field_by_field(over: Option<&Info>, to: &Info, order: u8) -> osm_io::osm::pbf::file_info::FileInfo {
    let mut i = over.map_or_else(Default::default, |o| o.to_lib());
    let t = to.to_lib();
    for k in 0..8u8 {
        match (k.wrapping_mul(order | 1).wrapping_add(order >> 3)) % 8 {
            0 => i.with_osmosis_replication_base_url(t.osmosis_replication_base_url()),
            1 => i.with_bounding_box(t.bounding_box()),
            2 => i.with_required_features(t.required_features()),
            3 => match t.writingprogram() {
                Some(p) if order & 1 == 0 => i.with_writingprogram_str(p),
                p => i.with_writingprogram(p),
            },
            4 => i.with_source(t.source()),
            5 => i.with_optional_features(t.optional_features()),
            6 => i.with_osmosis_replication_sequence_number(t.osmosis_replication_sequence_number()),
            _ => i.with_osmosis_replication_timestamp(t.osmosis_replication_timestamp()),
        }
    }
    i
}

pub struct C02;
impl Prop for C02 {
    type Case = HeadCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "Header values with every field present or absent, bounding boxes on the nanodegree grid, arbitrary strings and numbers; given to the constructor or set field by field over another header; sequential writer, parallel writer, or the convenience constructor; a few elements. Non-trivial: a bounding box or at least two other fields present.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 16_000 } else { 300_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<HeadCase> {
        let setters = prop::option::weighted(0.4, (prop::option::weighted(0.6, info()), any::<u8>()));
        (info(), any::<bool>(), prop::bool::weighted(0.15), prop::option::weighted(0.25, any::<bool>()), elements(Dom::Pbf, 3), setters)
            .prop_map(|(info, zlib, parallel, convenience, els, setters)| HeadCase { info, zlib, parallel, convenience, els, setters })
            .boxed()
    }
    fn run(c: &HeadCase, ctx: &mut Ctx) -> R {
        let p = ctx.path("h.osm.pbf");
        let i = &c.info;
        ctx.when(i.bbox.is_some(), "bounding box present");
        ctx.when(c.parallel && c.convenience.is_none(), "parallel writer");
        ctx.when(c.convenience.is_some(), "convenience constructor");
        let present = [i.program.is_some(), i.source.is_some(), i.ts.is_some(), i.seq.is_some(), i.url.is_some()].iter().filter(|x| **x).count();
        ctx.nontrivial(i.bbox.is_some() || present >= 2);
        let mut exp = c.info.clone();
        if let Some(hist) = c.convenience {
            use osm_io::osm::model::bounding_box::BoundingBox;
            let program = i.program.clone().unwrap_or_default();
            let source = i.source.clone().unwrap_or_default();
            catch(|| -> Result<(), anyhow::Error> {
                let mut w = osm_io::osm::pbf::writer::Writer::new(
                    p.clone(),
                    &program,
                    &source,
                    i.ts,
                    i.seq,
                    i.url.clone(),
                    comp(c.zlib),
                    i.bbox.map(|b| BoundingBox::new(b[0] as f64 / NANO, b[1] as f64 / NANO, b[2] as f64 / NANO, b[3] as f64 / NANO)),
                    hist,
                )?;
                w.write_header()?;
                for e in &c.els {
                    w.write_element(e.to_lib())?;
                }
                w.close()
            })
            .map_err(|p| format!("writer panicked: {p}"))?
            .map_err(|e| format!("writer failed: {e:#}"))?;
            exp.program = Some(program);
            exp.source = Some(source);
            let (r, got) = read_seq(&p)?;
            let req = r.info().required_features();
            for f in ["OsmSchema-V0.6", "DenseNodes"] {
                if !req.iter().any(|x| x == f) {
                    return Err(format!("convenience constructor does not declare {f}: {req:?}"));
                }
            }
            if req.iter().any(|x| x == "HistoricalInformation") != hist {
                return Err(format!("contains_history={hist} but required features are {req:?}"));
            }
            exp.required = req.clone();
            exp.optional = r.info().optional_features().clone();
            if let Some(d) = exp.diff(r.info()) {
                return Err(d);
            }
            return diff_seq(&c.els, &got).map_or(Ok(()), Err);
        }
        let lib = match &c.setters {
            None => i.to_lib(),
            Some((over, order)) => {
                ctx.label("set field by field");
                field_by_field(over.as_ref(), i, *order)
            }
        };
        if let Some(d) = exp.diff(&lib) {
            return Err(format!("before writing: {d}"));
        }
        if c.parallel {
            write_par_lib(&p, lib, 100, 10, c.zlib, calls_of(&c.els, &[0]))?;
        } else {
            write_seq_lib(&p, lib, &c.els, &[0], c.zlib)?;
        }
        let (r, got) = read_seq(&p)?;
        if let Some(d) = exp.diff(r.info()) {
            return Err(d);
        }
        for f in i.required.iter().chain(&i.optional).map(|s| s.as_str()).chain(["", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"]) {
            let want = (i.required.iter().any(|x| x == f), i.optional.iter().any(|x| x == f));
            let got = (r.info().required(f), r.info().optional(f));
            if got != want {
                return Err(format!("feature {f:?}: required and optional are {got:?} instead of {want:?}"));
            }
        }
        diff_seq(&c.els, &got).map_or(Ok(()), Err)
    }
}

// ---------------------------------------------------------------- C04

/// More than 65536 different strings in a block.
pub fn many_strings() -> Seq {
    let mut els = vec![];
    for kind in 0..3u8 {
        for mut e in expand(&Bulk { kind, n: 3, start: 1, step: 1, salt: 5, vocab: 9, versions: 1, heavy: 0, wide: false }) {
            let id = e.m.id;
            e.m.tags.extend((0..25_000).map(|i| (format!("{i}.{id}"), format!("{i}:{id}"))));
            els.push(e);
        }
    }
    Seq { els, bulk: vec![] }
}

/// Runs of elements so large that a full block of them exceeds the format's limit of 32 MiB.
pub fn heavy_seqs() -> Vec<Seq> {
    let run = |kind, n, heavy| Seq { els: vec![], bulk: vec![Bulk { kind, n, start: 1, step: 2, salt: 9, vocab: 3, versions: 1, heavy, wide: false }] };
    vec![run(1, 2600, 1600), run(2, 2600, 1500), run(0, 2600, 16_000)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConfCase {
    pub seq: Seq,
    pub batching: Vec<u16>,
    pub zlib: bool,
    pub info: Info,
    /// None: sequential; Some((buffer, block)): parallel
    pub parallel: Option<(u32, u32)>,
    /// a salt for sentinels in the stream, 0: none
    #[serde(default)]
    pub sentinels: u32,
}

/// The format's rules for a written file; `block_limit` elements per block.
pub fn check_conforming(bytes: &[u8], info: &Info, els: &[El], zlib: bool, block_limit: usize, ctx: &mut Ctx) -> R {
    let blocks = wire::split_file(bytes)?;
    if blocks.is_empty() {
        return Err("empty file".into());
    }
    let want = if zlib { "zlib" } else { "raw" };
    let mut got: Vec<El> = vec![];
    for (n, b) in blocks.iter().enumerate() {
        if b.comp != want {
            return Err(format!("block {n} is stored {} although {want} was asked for", b.comp));
        }
        if n == 0 {
            if b.ty != "OSMHeader" {
                return Err(format!("first block is {:?}", b.ty));
            }
            let h = wire::decode_header(&b.payload)?;
            if &h != info {
                return Err(format!("header: expected {info:?}\n     got {h:?}"));
            }
            continue;
        }
        if b.ty != "OSMData" {
            return Err(format!("block {n} is {:?}", b.ty));
        }
        let d = wire::decode_data(&b.payload).map_err(|m| format!("data block {n}: {m}"))?;
        if d.strings.first().map(|s| s.as_str()) != Some("") {
            return Err(format!("data block {n}: string 0 is {:?}", d.strings.first()));
        }
        let all: Vec<El> = d.groups.into_iter().flatten().collect();
        if all.is_empty() || all.len() > block_limit {
            return Err(format!("data block {n} holds {} elements (limit {block_limit})", all.len()));
        }
        if all.iter().any(|e| e.rank() != all[0].rank()) {
            return Err(format!("data block {n} mixes types"));
        }
        got.extend(all);
    }
    ctx.count("data blocks", blocks.len() as u64 - 1);
    for w in got.windows(2) {
        if w[0].key() > w[1].key() {
            return Err(format!("not sorted: {:?} before {:?}", w[0].key(), w[1].key()));
        }
    }
    diff_els(els, &got).map_or(Ok(()), Err)
}

pub struct C04;
impl Prop for C04 {
    type Case = ConfCase;
    const ID: &'static str = "C04";
    const RULE: &'static str = "Sorted element sequences x call batching x compression x header x sequential or parallel writer (any buffer and block size); the file is judged by an independent strict decoder. Non-trivial: at least two elements.";
    const SHARDS: u32 = 3;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 9_000 } else { 180_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ConfCase> {
        (
            seq(Dom::Pbf, 24, 4, BLOCKISH.to_vec()),
            batching(),
            any::<bool>(),
            info(),
            prop::option::weighted(0.4, (prop_oneof![0u32..40, Just(8000u32), Just(20_000)], prop_oneof![4 => 1u32..12, 1 => 1u32..200, 1 => Just(8000u32)])),
            sentinels(),
        )
            .prop_map(|(seq, batching, zlib, info, parallel, sentinels)| ConfCase { seq, batching, zlib, info, parallel, sentinels })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<ConfCase> {
        heavy_seqs().into_iter().chain([many_strings()]).enumerate().map(|(i, seq)| ConfCase { seq, batching: vec![0], zlib: i == 1, info: Info::basic(), parallel: if i > 0 { Some((3000, 3000)) } else { None }, sentinels: 0 }).collect()
    }
    fn run(c: &ConfCase, ctx: &mut Ctx) -> R {
        let els = c.seq.all(Dom::Pbf);
        label_seq(ctx, &els);
        ctx.when(c.parallel.is_some(), "parallel writer");
        ctx.when(c.sentinels > 0, "sentinels in the stream");
        ctx.nontrivial(els.len() >= 2);
        let p = ctx.path("c.osm.pbf");
        let mut limit = 8000;
        match c.parallel {
            None if c.sentinels == 0 => write_seq(&p, &c.info, &els, &c.batching, c.zlib)?,
            None => write_seq_calls(&p, c.info.to_lib(), sprinkle(calls_of(&els, &c.batching), c.sentinels), c.zlib)?,
            Some((buf, mut blk)) => {
                // keep the number of blocks of long runs bounded
                if els.len() > 500 {
                    blk = blk.max(100);
                }
                limit = blk as usize;
                write_par(&p, &c.info, buf as usize, limit, c.zlib, sprinkle(calls_of(&els, &c.batching), c.sentinels))?
            }
        }
        let bytes = std::fs::read(&p).map_err(|e| e.to_string())?;
        check_conforming(&bytes, &c.info, &els, c.zlib, limit, ctx)
    }
}

// ---------------------------------------------------------------- C03

pub fn label_file(ctx: &mut Ctx, f: &EFile) {
    let b = &f.blocks;
    ctx.when(b.iter().any(|b| b.unknown.as_ref().is_some_and(|u| u.0 != "OSMHeader")), "unknown block type");
    ctx.when(b.iter().any(|b| b.unknown.as_ref().is_some_and(|u| u.0 == "OSMHeader")), "further header");
    ctx.when(b.iter().any(|b| b.unknown.is_none() && b.groups.iter().all(|g| g.els.is_empty())), "empty data block");
    ctx.when(b.iter().any(|b| b.repeat > 1000), "long run of empty blocks");
    ctx.when(b.iter().any(|b| b.groups.len() > 1), "several groups in a block");
    ctx.when(b.iter().any(|b| b.groups.iter().any(|g| g.kind == 0 && g.els.len() > 1)), "dense nodes");
    ctx.when(b.iter().any(|b| b.groups.iter().any(|g| g.kind == 1 && !g.els.is_empty())), "plain nodes");
    ctx.when(b.iter().any(|b| b.gran.unwrap_or(100) != 100 || b.lat_off.unwrap_or(0) != 0 || b.lon_off.unwrap_or(0) != 0), "granularity or offset set");
    ctx.when(b.iter().any(|b| b.date.unwrap_or(1000) != 1000), "date granularity set");
    ctx.when(b.iter().any(|b| b.groups.iter().any(|g| g.packing > 0 && !g.els.is_empty())), "unpacked or split arrays");
    ctx.when(b.iter().any(|b| b.salt & 1 != 0), "permuted fields");
    ctx.when(b.iter().any(|b| b.salt & 2 != 0), "shuffled string table");
    ctx.when(b.iter().any(|b| b.salt & 4 != 0), "unknown fields");
    ctx.when(
        b.iter().any(|b| b.groups.iter().any(|g| if g.kind == 0 { g.mask != enc::M_ALL && !g.els.is_empty() } else { g.els.iter().any(|e| e.mask != enc::M_ALL) })),
        "metadata absent or partial",
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    #[serde(flatten)]
    pub file: EFile,
    /// so many 32 MiB blocks of an unknown type before every block, as holes in the file
    #[serde(default)]
    pub far: u32,
}

/// Three blocks: beyond 2 GiB, 4 GiB and 6 GiB when 70 blocks of 32 MiB come before each.
pub fn far_file(comp: wire::Comp) -> EFile {
    let run = |kind, salt| expand(&Bulk { kind, n: 5, start: 10, step: 3, salt, vocab: 4, versions: 1, heavy: 0, wide: false });
    EFile::plain(vec![run(0, 1), run(1, 2), run(2, 3)], comp)
}

pub struct C03;
impl Prop for C03 {
    type Case = ReadCase;
    const ID: &'static str = "C03";
    const RULE: &'static str = "Files made by an independent encoder with arbitrary legal choices (granularities, offsets, dense or plain nodes, several groups per block, packing, field order, unknown fields, string tables, absent metadata, index data, unknown block types, further headers as in joined files, runs of up to 30000 empty blocks, blocks beyond 4 GiB of a sparse file). Non-trivial: at least two elements, or an element after an empty or unknown block.";
    const ASSUMPTIONS: &'static [&'static str] = &["of absent metadata only visible = true and the empty user name are prescribed", "zlib payloads declare raw_size"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 24_000 } else { 600_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ReadCase> {
        enc::joined(enc::efile(30_000, false)).prop_map(|file| ReadCase { file, far: 0 }).boxed()
    }
    fn fixed(_: Tier) -> Vec<ReadCase> {
        vec![ReadCase { file: far_file(wire::Comp::Zlib(6)), far: 70 }]
    }
    fn run(c: &ReadCase, ctx: &mut Ctx) -> R {
        let f = &c.file;
        let want = f.want();
        ctx.when(c.far > 0, "blocks beyond 4 GiB");
        label_file(ctx, f);
        ctx.nontrivial(want.len() >= 2 || (!want.is_empty() && f.blocks.len() > 1));
        let p = ctx.path("e.osm.pbf");
        f.write(&p, c.far)?;
        let (r, got) = read_seq(&p)?;
        if let Some(d) = f.info.diff(r.info()) {
            return Err(d);
        }
        enc::diff_want(&want, &got).map_or(Ok(()), Err)
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FeatCase {
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub zlib: bool,
}

fn feature() -> BoxedStrategy<String> {
    let base = prop::sample::select(SUPPORTED.to_vec());
    prop_oneof![
        10 => base.clone().prop_map(|s| s.to_string()),
        2 => (base, 0u8..14).prop_map(|(s, k)| match k {
            0 => s.to_lowercase(),
            1 => s.to_uppercase(),
            2 => format!("{s} "),
            3 => format!(" {s}"),
            4 => s[..s.len() - 1].to_string(),
            5 => s[1..].to_string(),
            6 => format!("{s}x"),
            7 => format!("{s}\n"),
            8 => format!("{s}\0"),
            9 => s.replace("V0.6", "V0.7").replace("Dense", "dense").replace("Information", "Info").replace("then", "Then"),
            10 => format!("{s},{s}"),
            11 => format!("\t{s}"),
            12 => s[..1].to_string(),
            _ => s.replace('e', "\u{435}"),
        }),
        2 => (prop::sample::select(SUPPORTED.to_vec()), prop_oneof![2 => "[ -/:-@0-9]", 1 => "[.:/_+-][0-9a-z.]{0,3}", 1 => "\\PC{1,3}"], 0u8..4, any::<prop::sample::Index>()).prop_map(|(s, x, k, i)| {
            let i = i.index(s.len());
            match k {
                0 => format!("{s}{x}"),
                1 => format!("{x}{s}"),
                2 => format!("{}{x}{}", &s[..i], &s[i + 1..]),
                _ => format!("{}{}", &s[..i], &s[i + 1..]),
            }
        }),
        1 => prop::sample::select(vec!["", "LocationsOnWays", "Has_Metadata", "Sort.Geographic", "osm-io", "*"]).prop_map(|s| s.to_string()),
        1 => text(Dom::Pbf),
    ]
    .boxed()
}

pub struct C10;
impl Prop for C10 {
    type Case = FeatCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "Lists of required and optional features (supported names, near-misses, arbitrary text, repetitions) in an independently encoded header. Non-trivial: at least one required feature.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 40_000 } else { 1_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<FeatCase> {
        let sup = prop::collection::vec(prop::sample::select(SUPPORTED.to_vec()).prop_map(|s| s.to_string()), 0..7);
        (prop_oneof![1 => sup, 2 => prop::collection::vec(feature(), 0..7)], prop::collection::vec(feature(), 0..5), any::<bool>())
            .prop_map(|(required, optional, zlib)| FeatCase { required, optional, zlib })
            .boxed()
    }
    fn run(c: &FeatCase, ctx: &mut Ctx) -> R {
        use osm_io::osm::pbf::reader::Reader;
        let comp = if c.zlib { wire::Comp::Zlib(6) } else { wire::Comp::Raw };
        let file = |req: &[String], opt: &[String]| {
            let mut i = Info::basic();
            i.required = req.to_vec();
            i.optional = opt.to_vec();
            let e = El { m: Meta { id: 7, version: 1, ts: 0, changeset: 1, uid: 1, user: "u".into(), visible: true, tags: vec![] }, b: Body::Way { refs: vec![1] } };
            EFile { info: i, head_comp: comp, blocks: vec![enc::EBlock::plain(vec![e], comp)], salt: 0 }
        };
        let open = |f: &EFile, name: &str| {
            let p = ctx.dir.join(name);
            std::fs::write(&p, f.bytes()).unwrap();
            catch(|| Reader::new(&p).map(|r| (r.info().clone(), r.supported_features().clone(), r.elements().map(|e| e.count())))).map_err(|m| format!("Reader::new panicked: {m}"))
        };
        let (_, supported, _) = open(&file(&[], &[]), "plain")?.map_err(|e| format!("file without required features refused: {e:#}"))?;
        for s in ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"] {
            if !supported.iter().any(|x| x == s) {
                return Err(format!("{s} is not among the supported features {supported:?}"));
            }
        }
        let missing: Vec<&String> = c.required.iter().filter(|r| !supported.contains(r)).collect();
        let f = file(&c.required, &c.optional);
        let r = open(&f, "f")?;
        ctx.nontrivial(!c.required.is_empty());
        ctx.label(if missing.is_empty() { "all supported" } else { "something unsupported" });
        ctx.when(missing.len() > 1, "several unsupported");
        match r {
            Ok((info, _, n)) => {
                if !missing.is_empty() {
                    return Err(format!("opened although {missing:?} are not supported ({supported:?})"));
                }
                if let Some(d) = f.info.diff(&info) {
                    return Err(d);
                }
                match n {
                    Ok(1) => Ok(()),
                    x => Err(format!("the one element of the file: {x:?}")),
                }
            }
            Err(e) => {
                if missing.is_empty() {
                    return Err(format!("refused although all of {:?} are supported: {e:#}", c.required));
                }
                let t = format!("{e:#}");
                for m in missing {
                    let d = format!("{m:?}");
                    if !t.contains(m.as_str()) && !t.contains(&d[1..d.len() - 1]) {
                        return Err(format!("the error does not name {m:?}: {t}"));
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DetCase {
    pub seq: Seq,
    pub batching: Vec<u16>,
    pub zlib: bool,
    pub info: Info,
    pub parallel: Option<(u32, u32)>,
    /// unrelated files written before the second run, and load during it
    pub other: Vec<El>,
    pub load: u8,
    pub dump: bool,
    /// the sequential writer gets the header's values one by one (Writer::new), not as a FileInfo
    #[serde(default)]
    pub by_value: bool,
    /// also written by another process, in another directory and environment
    #[serde(default)]
    pub process: bool,
}

impl DetCase {
    fn els(&self) -> Vec<El> {
        self.seq.all(if self.dump { Dom::Db } else { Dom::Pbf })
    }
    fn write(&self, p: &std::path::Path, els: &[El]) -> R {
        if self.dump {
            return write_dump(p, els);
        }
        match self.parallel {
            None if self.by_value => {
                let i = &self.info;
                let lib = i.to_lib();
                catch(|| -> Result<(), anyhow::Error> {
                    let mut w = osm_io::osm::pbf::writer::Writer::new(
                        p.to_path_buf(),
                        i.program.as_deref().unwrap_or(""),
                        i.source.as_deref().unwrap_or(""),
                        i.ts,
                        i.seq,
                        i.url.clone(),
                        comp(self.zlib),
                        lib.bounding_box().clone(),
                        els.len() % 2 == 1,
                    )?;
                    w.write_header()?;
                    for (single, r) in split(&self.batching, els.len()) {
                        if single {
                            w.write_element(els[r.start].to_lib())?;
                        } else {
                            w.write_elements(els[r].iter().map(|e| e.to_lib()).collect())?;
                        }
                    }
                    w.close()
                })
                .map_err(|p| format!("sequential writer panicked: {p}"))?
                .map_err(|e| format!("sequential writer failed: {e:#}"))
            }
            None => write_seq(p, &self.info, els, &self.batching, self.zlib),
            Some((buf, mut blk)) => {
                if els.len() > 500 {
                    blk = blk.max(100);
                }
                write_par(p, &self.info, buf as usize, blk as usize, self.zlib, calls_of(els, &self.batching))
            }
        }
    }
    /// Let another process write it.
    fn write_elsewhere(&self, ctx: &Ctx, out: &std::path::Path) -> R {
        let io = |e: std::io::Error| format!("harness: {e}");
        let case = ctx.path("case.json");
        std::fs::write(&case, serde_json::to_vec(self).unwrap()).map_err(io)?;
        let dir = ctx.path("elsewhere");
        std::fs::create_dir_all(dir.join("tmp")).map_err(io)?;
        let mut child = std::process::Command::new(std::env::current_exe().map_err(io)?)
            .arg("produce")
            .arg(&case)
            .arg(out)
            .current_dir(&dir)
            .env("VERIF_ELSEWHERE", "1")
            .env("TZ", "ZCC+9:30")
            .env("LC_ALL", "C")
            .env("HOME", &dir)
            .env("USER", "another")
            .env("TMPDIR", dir.join("tmp"))
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .map_err(io)?;
        // some work while waiting: a process whose threads all sleep is taken for hanging
        let mut x = 0u64;
        loop {
            if let Some(s) = child.try_wait().map_err(io)? {
                if s.success() {
                    return Ok(());
                }
                use std::io::Read;
                let mut e = String::new();
                let _ = child.stderr.take().unwrap().read_to_string(&mut e);
                return Err(format!("another process failed to write what this one wrote ({s}): {e}"));
            }
            for _ in 0..20_000 {
                x = mix(x);
            }
            std::hint::black_box(x);
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
    }
}

pub fn produce_main(case: &std::path::Path, out: &std::path::Path) -> i32 {
    let Some(c) = std::fs::read(case).ok().and_then(|b| serde_json::from_slice::<DetCase>(&b).ok()) else { return 3 };
    match c.write(out, &c.els()) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("{e}");
            1
        }
    }
}

/// Run f while `n` threads burn CPU.
pub fn under_load<T>(n: u8, f: impl FnOnce() -> T) -> T {
    use std::sync::atomic::{AtomicBool, Ordering};
    let stop = std::sync::Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let s = stop.clone();
            std::thread::spawn(move || {
                let mut x = i as u64;
                while !s.load(Ordering::Relaxed) {
                    for _ in 0..500 {
                        x = mix(x);
                    }
                    if x % 3 == 0 {
                        std::thread::yield_now();
                    }
                }
                x
            })
        })
        .collect();
    let r = f();
    stop.store(true, Ordering::Relaxed);
    for h in hs {
        let _ = h.join();
    }
    r
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} and {} bytes, first difference at byte {i}", a.len(), b.len())
}

pub struct C22;
impl Prop for C22 {
    type Case = DetCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "Sorted element sequences written twice with the same writer, header, call pattern and compression, the second time after unrelated writing and with busy threads, some by another process too, with other environment variables and directory; then read back and written a third time; some cases write a dump twice instead. Non-trivial: at least two elements.";
    const SHARDS: u32 = 3;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 5_000 } else { 120_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<DetCase> {
        let rest = |dom| {
            (
                batching(),
                any::<bool>(),
                info(),
                prop::option::weighted(0.4, (prop_oneof![0u32..40, Just(20_000u32)], prop_oneof![4 => 1u32..12, 1 => 1u32..200, 1 => Just(8000u32)])),
                elements(dom, 8),
                prop_oneof![3 => Just(0u8), 1 => 1u8..4],
            )
        };
        let pbf = (seq(Dom::Pbf, 20, 3, vec![1, 50, 300, 8000, 16_001]), rest(Dom::Pbf), Just(false));
        let db = (seq(Dom::Db, 20, 2, vec![1, 50, 300]), rest(Dom::Db), Just(true));
        (prop_oneof![9 => pbf, 1 => db], prop::bool::weighted(0.3), prop::bool::weighted(0.1))
            .prop_map(|((seq, (batching, zlib, info, parallel, other, load), dump), by_value, process)| DetCase { seq, batching, zlib, info, parallel, other, load, dump, by_value, process })
            .boxed()
    }
    fn run(c: &DetCase, ctx: &mut Ctx) -> R {
        let els = c.els();
        label_seq(ctx, &els);
        ctx.nontrivial(els.len() >= 2);
        ctx.when(c.process, "written by another process too");
        let rd = |p: &std::path::Path| std::fs::read(p).map_err(|e| format!("{p:?}: {e}"));
        if c.dump {
            ctx.label("dump written twice");
            let (a, b) = (ctx.path("da"), ctx.path("db"));
            write_dump(&a, &els)?;
            write_dump(&ctx.path("dother"), &c.other)?;
            under_load(c.load, || write_dump(&b, &els))?;
            diff_dumps(&a, &b)?;
            if c.process {
                let e = ctx.path("de");
                c.write_elsewhere(ctx, &e)?;
                diff_dumps(&a, &e).map_err(|e| format!("another process: {e}"))?;
            }
            return Ok(());
        }
        ctx.when(c.parallel.is_some(), "parallel writer");
        ctx.when(c.load > 0, "busy threads");
        let (a, b, d, o) = (ctx.path("a.pbf"), ctx.path("b.pbf"), ctx.path("d.pbf"), ctx.path("o.pbf"));
        c.write(&a, &els)?;
        DetCase { info: Info::basic(), by_value: false, ..c.clone() }.write(&o, &c.other)?;
        under_load(c.load, || c.write(&b, &els))?;
        let (ba, bb) = (rd(&a)?, rd(&b)?);
        if ba != bb {
            return Err(format!("two identical runs wrote different files: {}", first_diff(&ba, &bb)));
        }
        if c.process {
            let e = ctx.path("e.pbf");
            c.write_elsewhere(ctx, &e)?;
            let be = rd(&e)?;
            if ba != be {
                return Err(format!("another process wrote a different file: {}", first_diff(&ba, &be)));
            }
        }
        let (r, got) = read_seq(&a)?;
        // write what was read, with the header that was read
        catch(|| -> Result<(), anyhow::Error> {
            let mut calls = vec![];
            for (single, rg) in split(&c.batching, got.len()) {
                calls.push((single, got[rg].to_vec()));
            }
            match c.parallel {
                None => {
                    let mut w = osm_io::osm::pbf::writer::Writer::from_file_info(d.clone(), r.info().clone(), comp(c.zlib))?;
                    w.write_header()?;
                    for (single, v) in calls {
                        if single {
                            w.write_element(v.into_iter().next().unwrap())?;
                        } else {
                            w.write_elements(v)?;
                        }
                    }
                    w.close()
                }
                Some((buf, mut blk)) => {
                    if els.len() > 500 {
                        blk = blk.max(100);
                    }
                    let mut w = osm_io::osm::pbf::parallel_writer::ParallelWriter::from_file_info(buf as usize, blk as usize, d.clone(), r.info().clone(), comp(c.zlib))?;
                    w.write_header()?;
                    for (single, v) in calls {
                        if single {
                            w.write_element(v.into_iter().next().unwrap())?;
                        } else {
                            w.write_elements(v)?;
                        }
                    }
                    w.close()
                }
            }
        })
        .map_err(|p| format!("rewriting panicked: {p}"))?
        .map_err(|e| format!("rewriting failed: {e:#}"))?;
        let bd = rd(&d)?;
        if ba != bd {
            return Err(format!("reading and writing again changed the file: {}", first_diff(&ba, &bd)));
        }
        Ok(())
    }
}

/// Byte comparison of two dumps except for the clock columns.
pub fn diff_dumps(a: &std::path::Path, b: &std::path::Path) -> R {
    let names = |d: &std::path::Path| -> Result<Vec<String>, String> {
        let mut v: Vec<String> = std::fs::read_dir(d).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
        v.sort();
        Ok(v)
    };
    let (na, nb) = (names(a)?, names(b)?);
    if na != nb {
        return Err(format!("different files: {na:?} / {nb:?}"));
    }
    let toc = crate::copy::parse_toc(&std::fs::read(a.join("toc.dat")).map_err(|e| e.to_string())?);
    for n in na {
        let (x, y) = (std::fs::read(a.join(&n)).unwrap_or_default(), std::fs::read(b.join(&n)).unwrap_or_default());
        let t = toc.iter().find(|t| t.file == n);
        let clock: &[&str] = match t.map(|t| t.table.as_str()) {
            Some("public.users") => &["creation_time"],
            Some("public.changesets") => &["created_at", "closed_at"],
            _ => &[],
        };
        let mask = |v: &[u8]| -> Vec<u8> {
            let Some(t) = t else { return v.to_vec() };
            if clock.is_empty() {
                return v.to_vec();
            }
            let lines: Vec<Vec<u8>> = v
                .split(|c| *c == b'\n')
                .map(|l| {
                    let f: Vec<&[u8]> = l.split(|c| *c == b'\t').collect();
                    if f.len() != t.columns.len() {
                        return l.to_vec();
                    }
                    f.iter().zip(&t.columns).map(|(f, c)| if clock.contains(&c.as_str()) { b"*".to_vec() } else { f.to_vec() }).collect::<Vec<_>>().join(&b'\t')
                })
                .collect();
            lines.join(&b'\n')
        };
        let (mx, my) = (mask(&x), mask(&y));
        if mx != my {
            return Err(format!("table file {n} ({:?}) differs between two identical runs: {}", t.map(|t| &t.table), first_diff(&mx, &my)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CopyCase {
    pub file: EFile,
    pub zlib: bool,
    /// copy the copy with this compression too
    pub again: Option<bool>,
    /// a run of elements that follows as one more block
    #[serde(default)]
    pub bulk: Option<Bulk>,
}

pub struct C24;
impl Prop for C24 {
    type Case = CopyCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "Files of the independent encoder (any mix of groups and types in a block, empty and unknown blocks) with coordinates on the 1e-7 grid and whole-second timestamps; copied block by block, once or twice, to either compression. Non-trivial: at least two elements.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 20_000 } else { 500_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<CopyCase> {
        (enc::efile(3000, true), any::<bool>(), prop::option::weighted(0.3, any::<bool>())).prop_map(|(file, zlib, again)| CopyCase { file, zlib, again, bulk: None }).boxed()
    }
    fn fixed(_: Tier) -> Vec<CopyCase> {
        // around powers of two up to the limit of 32 MiB, one element or many
        let mut out = vec![];
        for (i, (kind, n, heavy)) in [(0, 1, 4 << 20), (0, 2, 9 << 20), (0, 1, 31 << 20), (0, 1000, 20_000), (1, 2000, 1500), (2, 1500, 1700)].into_iter().enumerate() {
            let bulk = Bulk { kind, n, start: 1, step: 3, salt: 77, vocab: 3, versions: 1, heavy, wide: false };
            out.push(CopyCase { file: EFile::plain(vec![], wire::Comp::Zlib(6)), zlib: i % 2 == 0, again: Some(i % 3 == 0), bulk: Some(bulk) });
        }
        out
    }
    fn run(c: &CopyCase, ctx: &mut Ctx) -> R {
        use osm_io::osm::pbf::reader::Reader;
        use osm_io::osm::pbf::writer::Writer;
        let mut with_bulk = None;
        if let Some(b) = &c.bulk {
            let mut f = c.file.clone();
            f.blocks.push(EBlock::plain(expand(b), wire::Comp::Zlib(6)));
            with_bulk = Some(f);
        }
        let file = with_bulk.as_ref().unwrap_or(&c.file);
        let want = file.want();
        label_file(ctx, file);
        ctx.when(c.bulk.is_some(), "a block of many MiB");
        ctx.nontrivial(want.len() >= 2);
        ctx.when(c.file.blocks.iter().any(|b| b.groups.iter().filter(|g| !g.els.is_empty()).map(|g| g.kind.max(1)).collect::<std::collections::HashSet<_>>().len() > 1), "several types in one block");
        let src = ctx.path("src.pbf");
        std::fs::write(&src, file.bytes()).map_err(|e| e.to_string())?;
        let copy = |from: &std::path::Path, to: &std::path::Path, zlib: bool| {
            catch(|| -> Result<(), anyhow::Error> {
                let r = Reader::new(from)?;
                let mut w = Writer::from_file_info(to.to_path_buf(), r.info().clone(), comp(zlib))?;
                for b in r.blocks()? {
                    w.write_file_block(b)?;
                }
                w.close()
            })
            .map_err(|p| format!("copying panicked: {p}"))?
            .map_err(|e| format!("copying failed: {e:#}"))
        };
        let mut p = src;
        for (i, z) in std::iter::once(c.zlib).chain(c.again).enumerate() {
            let q = ctx.path(&format!("copy{i}.pbf"));
            copy(&p, &q, z)?;
            let (r, got) = read_seq(&q)?;
            if let Some(d) = c.file.info.diff(r.info()) {
                return Err(format!("copy {i}: {d}"));
            }
            if let Some(d) = enc::diff_want(&want, &got) {
                return Err(format!("copy {i}: {d}"));
            }
            // the independent decoder agrees
            let bytes = std::fs::read(&q).map_err(|e| e.to_string())?;
            let mut n = 0;
            for b in wire::split_file(&bytes).map_err(|m| format!("copy {i}: {m}"))? {
                if b.ty == "OSMData" {
                    n += wire::decode_data(&b.payload).map_err(|m| format!("copy {i}: {m}"))?.groups.iter().map(|g| g.len()).sum::<usize>();
                }
                if (b.comp == "zlib") != z {
                    return Err(format!("copy {i}: zlib={z} but a block is stored {}", b.comp));
                }
            }
            if n != want.len() {
                return Err(format!("copy {i} holds {n} elements, {} expected", want.len()));
            }
            p = q;
        }
        Ok(())
    }
}
