//! Properties of the API database dump: C12 - C17 and C21.
use super::pbf::label_seq;
use crate::copy::{self, Dump, Row};
use crate::driver::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

const DOMAIN: &[&str] = &["unique tag keys per object, one user per changeset, one name per user, no NUL characters (the constraints of the database); ids also zero and negative, timestamps from 1900, whole seconds unless stated"];

fn label_db(ctx: &mut Ctx, els: &[El]) {
    label_seq(ctx, els);
    let special = |s: &str| s.chars().any(|c| c < ' ' || c == '\\');
    ctx.when(
        els.iter().any(|e| e.m.tags.iter().any(|t| special(&t.0) || special(&t.1)) || matches!(&e.b, Body::Rel { members } if members.iter().any(|m| special(&m.2)))),
        "text that COPY escapes",
    );
    ctx.when(els.iter().any(|e| special(&e.m.user)), "user name that COPY escapes");
    ctx.when(
        els.windows(2).any(|w| (w[0].rank(), w[0].m.id) == (w[1].rank(), w[1].m.id) && w[0].m.visible && !w[1].m.visible),
        "object deleted by a later version",
    );
    ctx.when(els.iter().any(|e| matches!(&e.b, Body::Rel { members } if members.len() > 9)), "ten or more members");
}

/// every element list is a case of its own
pub fn db_seq(t: Tier, small: usize) -> BoxedStrategy<Seq> {
    let sizes = if t == Tier::Quick { vec![40, 300] } else { vec![40, 300, 5000, 20_000] };
    seq(Dom::Db, small, 2, sizes)
}

/// Lists longer than 16 bits count, and as many objects.
fn long_lists() -> Vec<Seq> {
    let run = |kind, n, heavy| Bulk { kind, n, start: 1, step: 2, salt: 9, vocab: 3, versions: 1, heavy, wide: false };
    vec![
        Seq { els: vec![], bulk: vec![run(0, 2, 600_000), run(1, 2, 70_000), run(2, 2, 70_000)] },
        Seq { els: vec![], bulk: vec![run(0, 70_000, 0), run(1, 300, 0)] },
    ]
}

// ---------------------------------------------------------------- C12

pub struct C12;
impl Prop for C12 {
    type Case = Seq;
    const ID: &'static str = "C12";
    const RULE: &'static str = "Sorted element sequences in the database's domain (explicit small ones with several versions per object, a few long runs), written as a dump and read back. Non-trivial: at least two elements.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Seq> {
        db_seq(t, 24)
    }
    fn fixed(_: Tier) -> Vec<Seq> {
        long_lists()
    }
    fn run(c: &Seq, ctx: &mut Ctx) -> R {
        let els = c.all(Dom::Db);
        label_db(ctx, &els);
        ctx.nontrivial(els.len() >= 2);
        let d = ctx.path("dump");
        write_dump(&d, &els)?;
        let got = check_dump_sentinels(&read_dump_lib(&d, &ctx.path("tmp"))?)?;
        diff_els(&sort_tags(els), &lib_sorted_tags(&got)?).map_or(Ok(()), Err)
    }
}

// ---------------------------------------------------------------- C13, C14

pub fn check_tables(d: &Dump, want: &BTreeMap<&'static str, Vec<Row>>, cols: &[(&'static str, &'static [&'static str])]) -> R {
    for (t, c) in cols {
        let got = d.rows(t, c)?;
        if let Some(m) = copy::diff_rows(t, &want[t], &got) {
            return Err(m);
        }
    }
    Ok(())
}

pub struct C13;
impl Prop for C13 {
    type Case = Seq;
    const ID: &'static str = "C13";
    const RULE: &'static str = "Sorted element sequences in the database's domain; every table file of the written dump is parsed by an independent COPY parser and compared with the rows an independent model derives. Non-trivial: at least two elements.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6_000 } else { 150_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Seq> {
        // timestamps with a fraction of a second now and then: the tables hold the second before
        let frac = prop_oneof![2 => Just(0u64), 1 => 1u64..];
        (db_seq(t, 24), frac)
            .prop_map(|(mut s, salt)| {
                if salt > 0 {
                    for (i, e) in s.els.iter_mut().enumerate() {
                        e.m.ts += [0, 1, 499, 500, 501, 999, mix(salt) as i64 & 511][mix(salt ^ i as u64) as usize % 7];
                    }
                }
                s
            })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<Seq> {
        long_lists()
    }
    fn run(c: &Seq, ctx: &mut Ctx) -> R {
        let els = c.all(Dom::Db);
        label_db(ctx, &els);
        ctx.when(els.iter().any(|e| e.m.ts.rem_euclid(1000) != 0), "fraction of a second");
        ctx.when(els.iter().any(|e| e.m.ts < 0), "before 1970");
        ctx.nontrivial(els.len() >= 2);
        let p = ctx.path("dump");
        write_dump(&p, &els)?;
        let d = copy::read_dump(&p)?;
        check_tables(&d, &copy::history_rows(&els), copy::HISTORY)?;
        let filled: HashSet<&str> =
            copy::HISTORY.iter().chain(copy::CURRENT).map(|t| t.0).chain(["public.users", "public.changesets", "public.changeset_tags"]).collect();
        for (t, (_, rows)) in &d.tables {
            if !filled.contains(t.as_str()) && !rows.is_empty() {
                return Err(format!("table {t} should be empty but has {} rows", rows.len()));
            }
        }
        if d.tables.len() < filled.len() {
            return Err(format!("only {} tables in toc.dat", d.tables.len()));
        }
        Ok(())
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = Seq;
    const ID: &'static str = "C14";
    const RULE: &'static str = "Histories: a few objects of each type with up to six versions, any pattern of deletion and undeletion, changing tags, refs and members; current tables compared with the rows an independent model derives. Non-trivial: some object has two or more versions.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6_000 } else { 150_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Seq> {
        // few objects, many versions, many deletions
        let obj = (1i64..6, 0u8..3, prop::collection::vec((element(Dom::Db), any::<bool>(), 1i32..3), 1..6), prop::bool::ANY);
        let dense = prop::collection::vec(obj, 0..7).prop_map(|objs| {
            let mut out = vec![];
            for (id, ty, vers, mostly) in objs {
                let mut v = 0;
                for (mut e, vis, step) in vers {
                    v += step;
                    e.m.id = id;
                    e.m.version = v;
                    e.m.visible = vis || (mostly && v % 3 != 0);
                    match (&e.b, ty) {
                        (Body::Node { .. }, 0) | (Body::Way { .. }, 1) | (Body::Rel { .. }, 2) => {}
                        (_, 0) => e.b = Body::Node { lat: id * 100, lon: -(v as i64) * 100 },
                        (_, 1) => e.b = Body::Way { refs: (0..(v % 4) as i64).map(|i| 1 + i).collect() },
                        (_, _) => e.b = Body::Rel { members: (0..(v % 4) as i64).map(|i| ((i % 3) as u8, 10 - i, format!("r{i}"))).collect() },
                    }
                    out.push(e);
                }
            }
            normalise(&mut out, Dom::Db);
            Seq { els: out, bulk: vec![] }
        });
        prop_oneof![4 => dense.boxed(), 1 => db_seq(t, 24)].boxed()
    }
    fn fixed(_: Tier) -> Vec<Seq> {
        long_lists()
    }
    fn run(c: &Seq, ctx: &mut Ctx) -> R {
        let els = c.all(Dom::Db);
        label_db(ctx, &els);
        ctx.nontrivial(els.windows(2).any(|w| (w[0].rank(), w[0].m.id) == (w[1].rank(), w[1].m.id)));
        ctx.when(els.windows(2).any(|w| (w[0].rank(), w[0].m.id) == (w[1].rank(), w[1].m.id) && !w[0].m.visible && w[1].m.visible), "object undeleted");
        let p = ctx.path("dump");
        write_dump(&p, &els)?;
        let d = copy::read_dump(&p)?;
        check_tables(&d, &copy::current_rows(&els), copy::CURRENT)
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForeignCase {
    pub els: Vec<El>,
    /// further elements, for tables that are sorted in several pieces
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub bulk: Vec<Bulk>,
    /// microseconds added to each element's timestamp, cyclically
    pub frac: Vec<u32>,
    /// 0: rows, columns, numbering and escapes as pg_dump writes them
    pub rows: u64,
    pub cols: u64,
    pub files: u64,
    pub escapes: u64,
    pub nulls: bool,
    pub extra_tables: bool,
    pub unreferenced: u8,
}

const USERS: [&str; 29] = [
    "email", "id", "pass_crypt", "creation_time", "display_name", "data_public", "description", "home_lat", "home_lon", "home_zoom", "pass_salt", "email_valid",
    "new_email", "creation_ip", "languages", "status", "terms_agreed", "consider_pd", "auth_uid", "preferred_editor", "terms_seen", "description_format",
    "changesets_count", "traces_count", "diary_entries_count", "image_use_gravatar", "auth_provider", "home_tile", "tou_agreed",
];
const CHANGESETS: [&str; 9] = ["id", "user_id", "created_at", "min_lat", "max_lat", "min_lon", "max_lon", "closed_at", "num_changes"];

fn user_row(id: i64, name: &str, salt: u64, nulls: bool) -> Row {
    let h = |k: u64| mix(salt ^ mix(id as u64 ^ (k << 40)));
    let some = |k: u64, v: &str| if nulls && h(k) % 2 == 0 { None } else { Some(v.to_string()) };
    let t = |v: &str| Some(v.to_string());
    vec![
        t(&format!("u{id}@example.com")),
        t(&id.to_string()),
        t("00\\x\t"),
        t(&format!("2009-02-03 04:05:06{}", ["", ".5", ".123456"][h(1) as usize % 3])),
        t(name),
        t(["t", "f"][h(2) as usize % 2]),
        t(["", "text\nwith newline", "\\N", name][h(3) as usize % 4]),
        some(4, "51.5"),
        some(5, "-0.25"),
        some(6, "3"),
        some(7, "salt"),
        t(["t", "f"][h(8) as usize % 2]),
        some(9, "new@example.com"),
        some(10, "127.0.0.1"),
        some(11, "en-GB,de"),
        t(["pending", "active", "confirmed", "suspended", "deleted"][h(12) as usize % 5]),
        some(13, "2011-01-01 00:00:00"),
        t(["t", "f"][h(14) as usize % 2]),
        some(15, "uid"),
        some(16, "id"),
        t(["t", "f"][h(17) as usize % 2]),
        t(["html", "markdown", "text"][h(18) as usize % 3]),
        t("12"),
        t("0"),
        t("3"),
        t(["t", "f"][h(19) as usize % 2]),
        some(20, "google"),
        some(21, "2062095956"),
        some(22, "2018-05-25 00:00:00.000001"),
    ]
}

pub fn shuffle<T>(v: &mut [T], salt: u64) {
    if salt == 0 {
        return;
    }
    let mut s = salt;
    for i in (1..v.len()).rev() {
        s = mix(s);
        v.swap(i, (s % (i as u64 + 1)) as usize);
    }
}

/// One string of a pg_dump archive: sign, little-endian length, bytes.
fn pg_str(out: &mut Vec<u8>, s: &str) {
    out.push(0);
    out.extend_from_slice(&(s.len() as u32).to_le_bytes());
    out.extend_from_slice(s.as_bytes());
}

/// A table as its file and the table of contents have it.
pub struct RawTable {
    pub name: String,
    pub columns: Vec<String>,
    pub file: String,
    /// fields in COPY text format
    pub rows: Vec<Vec<Vec<u8>>>,
}

impl RawTable {
    pub fn column(&self, name: &str) -> usize {
        self.columns.iter().position(|c| c == name).unwrap()
    }

    pub fn data(&self) -> Vec<u8> {
        let mut out: Vec<u8> = vec![];
        for r in &self.rows {
            out.extend_from_slice(&r.join(&b'\t'));
            out.push(b'\n');
        }
        out.extend_from_slice(b"\\.\n\n\n");
        out
    }
}

/// The table of contents.
pub fn toc_of(tables: &[RawTable]) -> Vec<u8> {
    let mut toc: Vec<u8> = b"PGDMP\x01\x0e\x00\x04\x08\x03\x01\x01".to_vec();
    for t in tables {
        let quoted: Vec<String> = t.columns.iter().map(|k| if k == "timestamp" { "\"timestamp\"".into() } else { k.clone() }).collect();
        pg_str(&mut toc, t.name.split('.').nth(1).unwrap());
        pg_str(&mut toc, "TABLE DATA");
        toc.push(3);
        pg_str(&mut toc, &format!("COPY {} ({}) FROM stdin;\n", t.name, quoted.join(", ")));
        for s in ["", "public", "heap", "postgres", "false", "217"] {
            pg_str(&mut toc, s);
        }
        toc.extend_from_slice(&[1, 1, 0, 0, 0, 0]);
        pg_str(&mut toc, &t.file);
    }
    toc
}

/// Write the tables as a directory-format dump.
pub fn write_foreign(dir: &std::path::Path, c: &ForeignCase) -> Result<(), String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let tables = foreign_tables(c);
    for t in &tables {
        std::fs::write(dir.join(&t.file), t.data()).map_err(|e| e.to_string())?;
    }
    std::fs::write(dir.join("toc.dat"), toc_of(&tables)).map_err(|e| e.to_string())
}

pub fn foreign_tables(c: &ForeignCase) -> Vec<RawTable> {
    let els = c.all();
    let mut tables: Vec<(String, Vec<String>, Vec<Row>)> = vec![];
    let hist = copy::history_rows(&els);
    for (t, cols) in copy::HISTORY {
        let mut rows = hist[t].clone();
        if let Some(ix) = cols.iter().position(|c| *c == "timestamp") {
            // rows of the main tables are in the order of the elements of that type
            let rank = match *t {
                "public.nodes" => 0,
                "public.ways" => 1,
                _ => 2,
            };
            let pos: Vec<usize> = els.iter().enumerate().filter(|(_, e)| e.rank() == rank).map(|(i, _)| i).collect();
            for (r, i) in rows.iter_mut().zip(pos) {
                let f = frac_of(c, i);
                if f > 0 {
                    let d = format!("{f:06}");
                    let s = r[ix].as_ref().unwrap().clone();
                    r[ix] = Some(format!("{s}.{}", d.trim_end_matches('0')));
                }
            }
        }
        tables.push((t.to_string(), cols.iter().map(|s| s.to_string()).collect(), rows));
    }
    let mut users: BTreeMap<i64, String> = BTreeMap::new();
    let mut cs: BTreeMap<i64, i64> = BTreeMap::new();
    for e in &els {
        users.insert(e.m.uid as i64, e.m.user.clone());
        cs.insert(e.m.changeset, e.m.uid as i64);
    }
    for k in 0..c.unreferenced as i64 {
        users.entry(1_000_000_000 + k * 7).or_insert(format!("unreferenced\t{k}"));
        cs.entry(900_000_000_000 + k).or_insert(1_000_000_000 + (k % 2) * 7);
        if c.unreferenced == 1 {
            cs.insert(900_000_000_000 + k, 1_000_000_000);
        }
    }
    let null_or = |k: i64, v: &str| if c.nulls && mix(c.rows ^ k as u64) % 3 == 0 { None } else { Some(v.to_string()) };
    tables.push((
        "public.changesets".into(),
        CHANGESETS.iter().map(|s| s.to_string()).collect(),
        cs.iter()
            .map(|(id, u)| {
                vec![
                    Some(id.to_string()),
                    Some(u.to_string()),
                    Some("2010-10-10 10:10:10.25".into()),
                    null_or(*id, "-5"),
                    null_or(*id, "7"),
                    null_or(*id, "-1800000000"),
                    null_or(*id, "1800000000"),
                    Some("2010-10-10 11:10:10".into()),
                    Some("4".into()),
                ]
            })
            .collect(),
    ));
    tables.push((
        "public.users".into(),
        USERS.iter().map(|s| s.to_string()).collect(),
        users.iter().map(|(id, n)| user_row(*id, n, c.rows, c.nulls)).collect(),
    ));
    if c.extra_tables {
        let t = |v: &str| Some(v.to_string());
        tables.push(("public.current_nodes".into(), vec!["id".into(), "latitude".into()], vec![vec![t("1"), t("5")]]));
        tables.push(("public.node_tags2".into(), vec!["node_id".into(), "version".into(), "k".into(), "v".into()], vec![vec![t("1"), t("1"), t("x"), t("y")]]));
        tables.push(("other.nodes".into(), vec!["node_id".into()], vec![vec![t("77")]]));
        tables.push(("public.acls".into(), vec!["id".into(), "address".into(), "k".into()], vec![]));
    }
    let mut nums: Vec<u32> = (0..tables.len() as u32).map(|i| 4200 + i).collect();
    if c.files != 0 {
        for (i, n) in nums.iter_mut().enumerate() {
            *n = 1 + (mix(c.files) % 90_000) as u32 + i as u32 * (1 + (c.files % 3) as u32);
        }
        shuffle(&mut nums, c.files);
    }
    let mut order: Vec<usize> = (0..tables.len()).collect();
    shuffle(&mut order, c.files);
    let mut out = vec![];
    for i in order {
        let (name, cols, rows) = &tables[i];
        let mut ix: Vec<usize> = (0..cols.len()).collect();
        shuffle(&mut ix, if c.cols == 0 { 0 } else { mix(c.cols ^ i as u64) | 1 });
        let mut rs: Vec<usize> = (0..rows.len()).collect();
        shuffle(&mut rs, if c.rows == 0 { 0 } else { mix(c.rows ^ i as u64) | 1 });
        let mut raw = vec![];
        for r in rs {
            let field = |k: &usize| match &rows[r][*k] {
                None => b"\\N".to_vec(),
                Some(v) => {
                    let textual = matches!(cols[*k].as_str(), "k" | "v" | "member_role" | "display_name" | "description" | "pass_crypt");
                    let salt = if c.escapes == 0 || !textual { 0 } else { mix(c.escapes ^ ((r as u64) << 8 | *k as u64)) | 1 };
                    copy::escape_any(v, salt).into_bytes()
                }
            };
            raw.push(ix.iter().map(field).collect());
        }
        out.push(RawTable { name: name.clone(), columns: ix.iter().map(|k| cols[*k].clone()).collect(), file: format!("{}.dat", nums[i]), rows: raw });
    }
    out
}

impl ForeignCase {
    pub fn all(&self) -> Vec<El> {
        let mut v = self.els.clone();
        for b in &self.bulk {
            v.extend(expand(b));
        }
        v.sort_by_key(|e| (e.rank(), e.m.id, e.m.version));
        v
    }

    /// what reading has to yield
    pub fn expected(&self) -> Vec<El> {
        let mut want = sort_tags(self.all());
        for (i, e) in want.iter_mut().enumerate() {
            e.m.ts += (frac_of(self, i) / 1000) as i64;
        }
        want
    }
}

pub fn foreign(small: usize) -> BoxedStrategy<ForeignCase> {
    let salt = || prop_oneof![1 => Just(0u64), 3 => 1u64..u64::MAX];
    (
        elements(Dom::Db, small),
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![2 => Just(0u32), 1 => Just(500_000), 1 => Just(999_999), 1 => Just(1), 2 => 0u32..1_000_000], 1..5)],
        salt(),
        salt(),
        salt(),
        salt(),
        any::<bool>(),
        any::<bool>(),
        0u8..4,
    )
        .prop_map(|(els, frac, rows, cols, files, escapes, nulls, extra_tables, unreferenced)| ForeignCase { els, bulk: vec![], frac, rows, cols, files, escapes, nulls, extra_tables, unreferenced })
        .boxed()
}

fn frac_of(c: &ForeignCase, i: usize) -> u32 {
    if c.frac.is_empty() {
        0
    } else {
        c.frac[i % c.frac.len()] % 1_000_000
    }
}

pub struct C15;
impl Prop for C15 {
    type Case = ForeignCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Dumps made by an independent writer from generated elements: permuted rows and columns, file numbers, additional tables, unreferenced users and changesets, NULL in nullable columns, all COPY escape spellings, fractional seconds; read twice with the same temporary directory. Non-trivial: at least two elements and some permutation.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<ForeignCase> {
        foreign(20)
    }
    fn fixed(t: Tier) -> Vec<ForeignCase> {
        // tables of several sorting pieces of 10 MB each
        let n = if t == Tier::Quick { 1 } else { 4 };
        let bulk = |kind, count: usize, heavy| Bulk { kind, n: count * n, start: 1, step: 3, salt: 77, vocab: 0, versions: 2, heavy, wide: false };
        vec![ForeignCase {
            els: vec![],
            bulk: vec![bulk(0, 500, 60_000), bulk(1, 300, 3000), bulk(2, 300, 2000)],
            frac: vec![],
            rows: 5,
            cols: 0,
            files: 0,
            escapes: 0,
            nulls: false,
            extra_tables: false,
            unreferenced: 0,
        }]
    }
    fn run(c: &ForeignCase, ctx: &mut Ctx) -> R {
        label_db(ctx, &c.els);
        ctx.when(c.rows != 0, "rows permuted");
        ctx.when(c.cols != 0, "columns permuted");
        ctx.when(c.escapes != 0, "alternative escapes");
        ctx.when(c.nulls, "NULL in nullable columns");
        ctx.when(c.frac.iter().any(|f| *f > 0), "fractional seconds");
        ctx.nontrivial(c.els.len() + c.bulk.len() >= 2 && (c.rows | c.cols | c.escapes) != 0);
        let dir = ctx.path("foreign");
        write_foreign(&dir, c)?;
        ctx.when(!c.bulk.is_empty(), "tables beyond 10 MB");
        let want = c.expected();
        for pass in 0..2 {
            let got = check_dump_sentinels(&read_dump_lib(&dir, &ctx.path("tmp"))?)?;
            if let Some(d) = diff_els(&want, &lib_sorted_tags(&got)?) {
                return Err(format!("pass {pass}: {d}"));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UsersCase {
    pub els: Vec<El>,
    /// additional elements of the type(s) the salt says, each with a changeset and a user of its own
    pub many: u32,
    pub salt: u64,
}

pub struct C16;
impl Prop for C16 {
    type Case = UsersCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Sorted element sequences sharing users and changesets across types and versions, user names of any text, up to thousands of users; users, changesets and changeset_tags tables parsed independently. Non-trivial: at least two users.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6_000 } else { 150_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<UsersCase> {
        let n = if t == Tier::Quick { 5_000u32 } else { 60_000 };
        let mix_cs = (elements(Dom::Db, 24), any::<u64>(), any::<bool>()).prop_map(|(mut v, salt, share)| {
            if share {
                // few changesets and users in no particular order
                for (i, e) in v.iter_mut().enumerate() {
                    let h = mix(salt ^ (i as u64 / 2));
                    e.m.changeset = [1i64, 9, 10, 11, 99, 100, 1000, 4_294_967_296][(h % 8) as usize];
                    e.m.uid = [1, 2, 9, 10, 100, 99, i32::MAX, 7][((h >> 8) % 8) as usize];
                }
                normalise(&mut v, Dom::Db);
            }
            v
        });
        (mix_cs, prop_oneof![60 => Just(0u32), 3 => 1u32..300, 1 => 300u32..n], any::<u64>()).prop_map(|(els, many, salt)| UsersCase { els, many, salt }).boxed()
    }
    fn fixed(t: Tier) -> Vec<UsersCase> {
        // (buffers of users or changesets would have round limits)
        let n = if t == Tier::Quick { 33_000 } else { 140_000 };
        (0..4).map(|salt| UsersCase { els: vec![], many: n, salt }).collect()
    }
    fn run(c: &UsersCase, ctx: &mut Ctx) -> R {
        let mut els = c.els.clone();
        for i in 0..c.many {
            let h = mix(c.salt ^ i as u64);
            els.push(El {
                m: Meta { id: 1_000_000 + i as i64, version: 1, ts: 1_500_000_000_000, changeset: 1 + (h % 3_000_000_000) as i64, uid: 1 + ((h >> 32) % 2_000_000_000) as i32, user: format!("u {h}"), visible: true, tags: vec![] },
                b: match if c.salt % 4 == 3 { h % 3 } else { c.salt % 4 } {
                    0 => Body::Node { lat: 0, lon: 0 },
                    1 => Body::Way { refs: vec![] },
                    _ => Body::Rel { members: vec![] },
                },
            });
        }
        normalise(&mut els, Dom::Db);
        label_db(ctx, &els);
        let mut users: BTreeMap<i64, String> = BTreeMap::new();
        let mut css: BTreeMap<i64, i64> = BTreeMap::new();
        for e in &els {
            users.insert(e.m.uid as i64, e.m.user.clone());
            css.insert(e.m.changeset, e.m.uid as i64);
        }
        ctx.nontrivial(users.len() >= 2);
        ctx.when(users.len() >= 100, "100 or more users");
        ctx.when(css.len() > users.len(), "user with several changesets");
        let p = ctx.path("dump");
        write_dump(&p, &els)?;
        let d = copy::read_dump(&p)?;
        let int = |v: &Option<String>, what: &str| -> Result<i64, String> { v.as_ref().and_then(|s| s.parse().ok()).ok_or(format!("{what}: {v:?} is not an integer")) };
        let time = |v: &Option<String>, what: &str| -> R {
            let s = v.clone().unwrap_or_default();
            let b = s.as_bytes();
            let ok = b.len() >= 19 && b[4] == b'-' && b[7] == b'-' && b[10] == b' ' && b[13] == b':' && b[16] == b':' && s.chars().all(|c| c.is_ascii_digit() || "-: .".contains(c));
            if ok { Ok(()) } else { Err(format!("{what}: {v:?} is not a timestamp")) }
        };

        let rows = d.rows("public.users", &["id", "display_name", "email", "creation_time"])?;
        let mut got = vec![];
        let mut mails = BTreeSet::new();
        for r in &rows {
            got.push((int(&r[0], "users.id")?, r[1].clone().ok_or("users.display_name is null")?));
            if !mails.insert(r[2].clone().ok_or("users.email is null")?) {
                return Err(format!("e-mail {:?} is not unique", r[2]));
            }
            time(&r[3], "users.creation_time")?;
        }
        let want: Vec<(i64, String)> = users.into_iter().collect();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("users (id, display_name): expected {} rows, got {}; at row {k}: expected {:?}, got {:?}", want.len(), got.len(), want.get(k), got.get(k)));
        }
        // columns that are NOT NULL in the schema of the table of contents
        for r in d.rows("public.users", &["pass_crypt", "data_public", "description", "email_valid", "status", "consider_pd", "terms_seen", "description_format", "changesets_count", "traces_count", "diary_entries_count", "image_use_gravatar"])? {
            if r.iter().any(|v| v.is_none()) {
                return Err(format!("null in a NOT NULL column of users: {r:?}"));
            }
            for k in [1, 3, 5, 6, 11] {
                if !matches!(r[k].as_deref(), Some("t" | "f")) {
                    return Err(format!("boolean column of users is {:?}", r[k]));
                }
            }
            for k in [8, 9, 10] {
                int(&r[k], "counter of users")?;
            }
            if !["pending", "active", "confirmed", "suspended", "deleted"].contains(&r[4].as_deref().unwrap()) || !["html", "markdown", "text"].contains(&r[7].as_deref().unwrap()) {
                return Err(format!("enum column of users: {:?} / {:?}", r[4], r[7]));
            }
        }
        let rows = d.rows("public.changesets", &["id", "user_id", "created_at", "closed_at", "num_changes", "min_lat", "max_lat", "min_lon", "max_lon"])?;
        let mut got = vec![];
        for r in &rows {
            got.push((int(&r[0], "changesets.id")?, int(&r[1], "changesets.user_id")?));
            time(&r[2], "changesets.created_at")?;
            time(&r[3], "changesets.closed_at")?;
            int(&r[4], "changesets.num_changes")?;
            let mut b = vec![];
            for k in 5..9 {
                if r[k].is_some() {
                    b.push(int(&r[k], "changeset bounding box")?);
                }
            }
            // in units of 1e-7 degrees
            let inside = |min: i64, max: i64, most: i64| -most * 10_000_000 <= min && min <= max && max <= most * 10_000_000;
            if !b.is_empty() && !(b.len() == 4 && inside(b[0], b[1], 90) && inside(b[2], b[3], 180)) {
                return Err(format!("bounding box of a changeset: {:?}", &r[5..]));
            }
        }
        let want: Vec<(i64, i64)> = css.iter().map(|(a, b)| (*a, *b)).collect();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("changesets (id, user_id): expected {} rows, got {}; at row {k}: expected {:?}, got {:?}", want.len(), got.len(), want.get(k), got.get(k)));
        }
        let mut seen = HashSet::new();
        for r in d.rows("public.changeset_tags", &["changeset_id", "k", "v"])? {
            let id = int(&r[0], "changeset_tags.changeset_id")?;
            if !css.contains_key(&id) {
                return Err(format!("changeset tag of unlisted changeset {id}"));
            }
            if r[1].is_none() || r[2].is_none() || !seen.insert((id, r[1].clone())) {
                return Err(format!("changeset tag null or twice: {r:?}"));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TileCase {
    /// (lat, lon) in 1e-7 degrees
    pub at: Vec<(i64, i64)>,
    /// for the rest of the nodes: versions, times, users; 0: all alike
    #[serde(default)]
    pub salt: u32,
}

pub struct C17;
impl Prop for C17 {
    type Case = TileCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Lists of coordinates on the 1e-7 grid: uniform, at and around cell boundaries, extremes and zero, and runs of nodes that lie within metres of each other; each written as a node, with one or several versions per id and any other fields, its tile compared with exact integer arithmetic in both tables. Counted label 'coordinates'. Non-trivial: the list is not empty.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 12_000 } else { 240_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<TileCase> {
        // boundary of cell k: smallest v with round(v * 65535 / range) = k, and neighbours
        fn axis(half: i64) -> BoxedStrategy<i64> {
            let range = 2 * half;
            prop_oneof![
                3 => -half..=half,
                3 => (0i64..65_536, -2i64..3).prop_map(move |(k, d)| {
                    let v = ((2 * k as i128 - 1) * range as i128 + 2 * 65_535 - 1).div_euclid(2 * 65_535) as i64 + d - half;
                    v.clamp(-half, half)
                }),
                1 => (0i64..65_536, -2i64..3).prop_map(move |(k, d)| ((k as i128 * range as i128 / 65_535) as i64 + d - half).clamp(-half, half)),
                1 => prop::sample::select(vec![-half, -half + 1, half, half - 1, 0, 1, -1, half / 2, -half / 2]),
                1 => -300i64..300,
                1 => (-(half / 10_000_000)..=half / 10_000_000).prop_map(|d| d * 10_000_000),
            ]
            .boxed()
        }
        let near = || prop_oneof![3 => -2i64..=2, 2 => -40i64..=40, 1 => -2000i64..=2000, 2 => Just(0i64)];
        let some = (axis(900_000_000), axis(1_800_000_000), prop_oneof![3 => prop::collection::vec((near(), near()), 0..1), 1 => prop::collection::vec((near(), near()), 1..12)]);
        (prop::collection::vec(some, 1..100), any::<u32>())
            .prop_map(|(v, salt)| {
                let mut at = vec![];
                for (a, o, more) in v {
                    at.push((a, o));
                    at.extend(more.into_iter().map(|(d, e)| ((a + d).clamp(-900_000_000, 900_000_000), (o + e).clamp(-1_800_000_000, 1_800_000_000))));
                }
                TileCase { at, salt: if salt % 3 == 0 { 0 } else { salt } }
            })
            .boxed()
    }
    fn run(c: &TileCase, ctx: &mut Ctx) -> R {
        ctx.count("coordinates", c.at.len() as u64);
        ctx.nontrivial(!c.at.is_empty());
        ctx.when(c.at.windows(2).any(|w| w[0] != w[1] && (w[0].0 - w[1].0).abs() < 3000 && (w[0].1 - w[1].1).abs() < 3000), "nodes within metres");
        ctx.when(c.salt > 0, "other fields vary");
        let (mut id, mut version) = (0, 0);
        let els: Vec<El> = c
            .at
            .iter()
            .enumerate()
            .map(|(i, (a, o))| {
                let h = |k: u64| if c.salt == 0 { 0 } else { mix(c.salt as u64 ^ mix((i as u64) << 8 | k)) };
                if c.salt > 0 && id > 0 && h(1) % 3 == 0 {
                    version += 1;
                } else {
                    (id, version) = (id + 1 + (h(2) % 3) as i64, 1);
                }
                let tags = (0..h(6) % 3).map(|t| (format!("k{t}"), format!("v{}", h(7)))).collect();
                let uid = 1 + (h(3) % 4) as i32;
                El {
                    m: Meta { id, version, ts: 1_500_000_000_000 + (h(4) % 1_000_000) as i64 * 1000, changeset: uid as i64, uid, user: format!("u{uid}"), visible: h(5) % 4 < 3, tags },
                    b: Body::Node { lat: a * 100, lon: o * 100 },
                }
            })
            .collect();
        let p = ctx.path("dump");
        write_dump(&p, &els)?;
        let d = copy::read_dump(&p)?;
        let row = |id: i64, a: i64, o: i64| -> Row { [id, a, o, copy::tile(a, o) as i64].iter().map(|v| Some(v.to_string())).collect() };
        let rows = d.rows("public.nodes", &["node_id", "latitude", "longitude", "tile"])?;
        if rows.len() != els.len() {
            return Err(format!("public.nodes: {} rows for {} nodes", rows.len(), els.len()));
        }
        for (r, (e, (a, o))) in rows.iter().zip(els.iter().zip(&c.at)) {
            let want = row(e.m.id, *a, *o);
            if *r != want {
                return Err(format!("public.nodes (id, latitude, longitude, tile): expected {want:?}, got {r:?}"));
            }
        }
        // which versions are current is another property
        let rows = d.rows("public.current_nodes", &["id", "latitude", "longitude", "tile"])?;
        if c.salt == 0 && rows.len() != els.len() {
            return Err(format!("public.current_nodes: {} rows for {} nodes", rows.len(), els.len()));
        }
        let known: HashSet<Row> = els.iter().zip(&c.at).map(|(e, (a, o))| row(e.m.id, *a, *o)).collect();
        for r in rows {
            if !known.contains(&r) {
                return Err(format!("public.current_nodes (id, latitude, longitude, tile): {r:?} is the row of no version"));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConvCase {
    pub seq: Seq,
    pub zlib: bool,
    /// None: sequential PBF writer; Some((buffer, block)): parallel
    pub parallel: Option<(u32, u32)>,
}

pub struct C21;
impl Prop for C21 {
    type Case = ConvCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "Sorted element sequences in the database's domain taken through PBF -> dump -> PBF -> dump -> PBF with the library's pipelines. Non-trivial: at least two elements.";
    const ASSUMPTIONS: &'static [&'static str] = DOMAIN;
    const SHARDS: u32 = 4;
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1_500 } else { 30_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<ConvCase> {
        (db_seq(t, 20), any::<bool>(), prop::option::weighted(0.4, (10u32..400, 1u32..40)))
            .prop_map(|(seq, zlib, parallel)| ConvCase { seq, zlib, parallel })
            .boxed()
    }
    fn run(c: &ConvCase, ctx: &mut Ctx) -> R {
        use osm_io::osm::apidb_dump::write::writer::Writer as DumpWriter;
        use osm_io::osm::pbf::parallel_writer::ParallelWriter;
        use osm_io::osm::pbf::reader::Reader;
        use osm_io::osm::pbf::writer::Writer;
        let els = c.seq.all(Dom::Db);
        label_db(ctx, &els);
        ctx.nontrivial(els.len() >= 2);
        ctx.when(c.parallel.is_some(), "parallel writer");
        let want = sort_tags(els.clone());
        let mut pbf = ctx.path("0.osm.pbf");
        write_seq(&pbf, &Info::basic(), &els, &[0], c.zlib)?;
        for round in 1..3 {
            let dump = ctx.path(&format!("dump{round}"));
            let next = ctx.path(&format!("{round}.osm.pbf"));
            let tmp = ctx.path(&format!("tmp{round}"));
            catch(|| -> Result<(), anyhow::Error> {
                let mut w = DumpWriter::new(dump.clone(), 0)?;
                for e in Reader::new(&pbf)?.elements()? {
                    w.write_element(e)?;
                }
                w.close()
            })
            .map_err(|p| format!("PBF to dump, round {round}: panicked: {p}"))?
            .map_err(|e| format!("PBF to dump, round {round}: {e:#}"))?;
            let direct = check_dump_sentinels(&read_dump_lib(&dump, &tmp)?)?;
            if let Some(d) = diff_els(&want, &lib_sorted_tags(&direct)?) {
                return Err(format!("dump of round {round} read directly: {d}"));
            }
            catch(|| -> Result<(), anyhow::Error> {
                let r = open_dump(&dump, &tmp)?;
                match c.parallel {
                    None => {
                        let mut w = Writer::from_file_info(next.clone(), Info::basic().to_lib(), comp(c.zlib))?;
                        w.write_header()?;
                        for e in r.elements()? {
                            // sentinels say nothing to a writer
                            if !e.is_sentinel() || round == 2 {
                                w.write_element(e)?;
                            }
                        }
                        w.close()
                    }
                    Some((buf, blk)) => {
                        let mut w = ParallelWriter::from_file_info((buf.max(blk)) as usize, blk as usize, next.clone(), Info::basic().to_lib(), comp(c.zlib))?;
                        w.write_header()?;
                        for e in r.elements()? {
                            w.write_element(e)?;
                        }
                        w.close()
                    }
                }
            })
            .map_err(|p| format!("dump to PBF, round {round}: panicked: {p}"))?
            .map_err(|e| format!("dump to PBF, round {round}: {e:#}"))?;
            let (_, got) = read_seq(&next)?;
            if let Some(d) = diff_els(&want, &lib_sorted_tags(&got)?) {
                return Err(format!("PBF of round {round}: {d}"));
            }
            pbf = next;
        }
        Ok(())
    }
}
