//! C25: incomplete and inconsistent API database dumps.
use super::dump::{foreign, foreign_tables, toc_of, ForeignCase, RawTable};
use super::faults::FileLimit;
use crate::driver::*;
use crate::gen::{mix, Bulk};
use crate::io::*;
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BrokenCase {
    pub dump: ForeignCase,
    pub kind: u8,
    pub a: u64,
    pub b: u64,
    /// the temporary directory was used for the undamaged dump before
    pub used: bool,
}

const KINDS: u8 = 20;

/// What the damage allows.
#[derive(PartialEq, Clone, Copy, Debug)]
enum Verdict {
    /// must fail
    Fail,
    /// must fail or yield the elements as if nothing had happened
    Either,
    /// nothing was damaged
    Intact,
}

struct Damaged {
    tables: Vec<RawTable>,
    toc: Vec<u8>,
    data: Vec<Option<Vec<u8>>>,
    label: &'static str,
    verdict: Verdict,
    limit: Option<u64>,
}

fn needed(t: &RawTable) -> bool {
    const NEEDED: [&str; 10] = ["nodes", "node_tags", "ways", "way_nodes", "way_tags", "relations", "relation_members", "relation_tags", "changesets", "users"];
    t.name.strip_prefix("public.").is_some_and(|n| NEEDED.contains(&n))
}

/// columns the elements are made of
fn relevant(table: &str, column: &str) -> bool {
    match table {
        "public.users" => matches!(column, "id" | "display_name"),
        "public.changesets" => matches!(column, "id" | "user_id"),
        _ => !matches!(column, "tile" | "redaction_id"),
    }
}

fn textual(column: &str) -> bool {
    matches!(column, "k" | "v" | "member_role" | "display_name")
}

fn pick<'a, T>(v: &'a [T], salt: u64) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[(salt % v.len() as u64) as usize])
    }
}

/// (table, row) pairs whose content takes part in the elements
fn live_rows(ts: &[RawTable], els: &[El]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for (t, table) in ts.iter().enumerate() {
        if !needed(table) {
            continue;
        }
        let key = match table.name.as_str() {
            "public.users" | "public.changesets" => Some(table.column("id")),
            _ => None,
        };
        for (r, row) in table.rows.iter().enumerate() {
            let live = match key {
                None => true,
                Some(c) => {
                    let id: i64 = std::str::from_utf8(&row[c]).unwrap().parse().unwrap();
                    if table.name == "public.users" {
                        els.iter().any(|e| e.m.uid as i64 == id)
                    } else {
                        els.iter().any(|e| e.m.changeset == id)
                    }
                }
            };
            if live {
                out.push((t, r));
            }
        }
    }
    out
}

fn damage(c: &BrokenCase) -> Damaged {
    let mut ts = foreign_tables(&c.dump);
    let els = c.dump.all();
    let live = live_rows(&ts, &els);
    let need: Vec<usize> = (0..ts.len()).filter(|t| needed(&ts[*t])).collect();
    let t = *pick(&need, c.a).unwrap();
    let none = |ts: Vec<RawTable>| {
        let toc = toc_of(&ts);
        let data = ts.iter().map(|t| Some(t.data())).collect();
        Damaged { tables: ts, toc, data, label: "nothing to damage", verdict: Verdict::Intact, limit: None }
    };
    let with = |ts: Vec<RawTable>, label: &'static str, verdict: Verdict| {
        let mut d = none(ts);
        d.label = label;
        d.verdict = verdict;
        d
    };
    use Verdict::*;
    match c.kind % KINDS {
        0 => {
            let mut d = with(ts, "a table file is missing", Fail);
            d.data[t] = None;
            d
        }
        1 => {
            let mut d = with(ts, "a table file is cut", Fail);
            let full = d.data[t].take().unwrap();
            // the rest of the file is complete without the last two line ends
            let end = full.len() - 4;
            let lines: Vec<usize> = (0..end).filter(|i| *i == 0 || full[i - 1] == b'\n').collect();
            let at = match c.b % 4 {
                0 => *lines.last().unwrap(),
                1 => lines[(c.b / 4) as usize % lines.len()],
                _ => (c.b / 4) as usize % (end + 1),
            };
            d.data[t] = Some(full[..at].to_vec());
            d
        }
        2 => {
            let kept: Vec<usize> = (0..ts.len()).filter(|i| *i != t).collect();
            let mut d = with(ts, "a table is missing in the table of contents", Fail);
            let mut all: Vec<Option<RawTable>> = d.tables.drain(..).map(Some).collect();
            let rest: Vec<RawTable> = kept.iter().map(|i| all[*i].take().unwrap()).collect();
            d.toc = toc_of(&rest);
            d.tables = rest;
            d.data.remove(t);
            d
        }
        3 => {
            // cut before the file name of a needed table
            let name = ts[t].file.clone();
            let mut d = with(ts, "the table of contents is cut", Fail);
            let at = d.toc.windows(name.len() + 1).position(|w| &w[1..] == name.as_bytes() && !w[0].is_ascii_digit()).unwrap();
            d.toc.truncate((c.b % (at as u64 + name.len() as u64 + 1)) as usize);
            d
        }
        4 => {
            let mut d = with(ts, "no table of contents", Fail);
            d.toc.clear();
            d
        }
        5 => {
            let cols: Vec<usize> = (0..ts[t].columns.len()).filter(|k| relevant(&ts[t].name, &ts[t].columns[*k])).collect();
            let k = *pick(&cols, c.b).unwrap();
            ts[t].columns.remove(k);
            for r in &mut ts[t].rows {
                r.remove(k);
            }
            with(ts, "a table lacks a column", Fail)
        }
        6 => {
            let Some((t, r)) = pick(&live, c.a).copied() else { return none(ts) };
            let n = ts[t].rows[r].len();
            ts[t].rows[r].truncate(1 + (c.b % (n as u64 - 1)) as usize);
            with(ts, "a row lacks values", Fail)
        }
        7 => {
            let Some((t, r)) = pick(&live, c.a).copied() else { return none(ts) };
            let at = (c.b / 3) as usize % (ts[t].rows[r].len() + 1);
            let v: &[u8] = [&b""[..], b"t", b"1"][(c.b % 3) as usize];
            ts[t].rows[r].insert(at, v.to_vec());
            with(ts, "a row has too many values", Fail)
        }
        8 => {
            // every column alike
            let places: Vec<(usize, usize)> = need
                .iter()
                .filter(|t| live.iter().any(|l| l.0 == **t))
                .flat_map(|t| (0..ts[*t].columns.len()).map(move |k| (*t, k)))
                .filter(|(t, k)| relevant(&ts[*t].name, &ts[*t].columns[*k]) && !textual(&ts[*t].columns[*k]))
                .collect();
            let Some((t, k)) = pick(&places, c.b).copied() else { return none(ts) };
            let rows: Vec<usize> = live.iter().filter(|l| l.0 == t).map(|l| l.1).collect();
            let r = *pick(&rows, c.a).unwrap();
            let old = ts[t].rows[r][k].clone();
            let column = ts[t].columns[k].clone();
            let own: &[&[u8]] = match column.as_str() {
                "timestamp" => &[b"2021-02-29 00:00:00", b"2021-13-01 00:00:00", b"2021-01-01 25:00:00", b"2021-01-01"],
                "visible" => &[b"tf", b"x", b"\\N"],
                "member_type" => &[b"node", b"Area", b"Nod"],
                _ => &[b"9223372036854775808", b"1.5", b"0x10"],
            };
            let bad: Vec<u8> = match mix(c.b) % 8 {
                0 => vec![],
                1 | 2 => b"\\N".to_vec(),
                3 => [&old[..], b"x"].concat(),
                4 => [[&b"99999999999999999999"[..], b"-", b"x"][(mix(c.a) % 3) as usize]].concat(),
                5 => [b"x", &old[..]].concat(),
                _ => own[(mix(c.a) % own.len() as u64) as usize].to_vec(),
            };
            ts[t].rows[r][k] = bad;
            with(ts, "a value is malformed", Fail)
        }
        9 => {
            let Some((t, r)) = pick(&live, c.a).copied() else { return none(ts) };
            let cols: Vec<usize> = (0..ts[t].columns.len()).filter(|k| !relevant(&ts[t].name, &ts[t].columns[*k])).collect();
            let Some(k) = pick(&cols, c.b).copied() else { return none(ts) };
            let bad: &[u8] = [&b""[..], b"\\N", b"x", b"99999999999999999999", b"\xff"][(c.b / 64 % 5) as usize];
            ts[t].rows[r][k] = bad.to_vec();
            with(ts, "a value that is not used is malformed", Either)
        }
        10 => {
            let places: Vec<(usize, usize, usize)> =
                live.iter().flat_map(|(t, r)| ts[*t].columns.iter().enumerate().filter(|(_, n)| textual(n)).map(|(k, _)| (*t, *r, k))).collect();
            let Some((t, r, k)) = pick(&places, c.a).copied() else { return none(ts) };
            let bad: &[u8] = [&b"\\N"[..], b"\xff", b"a\xc3", b"\\377", b"\\xc3(", b"\\xED\\xA0\\x80"][(c.b % 6) as usize];
            ts[t].rows[r][k] = bad.to_vec();
            with(ts, ["text is NULL", "text is not UTF-8"][(c.b % 6 != 0) as usize], Fail)
        }
        11 | 12 => {
            let name = ["public.changesets", "public.users"][(c.kind % KINDS - 11) as usize];
            let rows: Vec<(usize, usize)> = live.iter().copied().filter(|(t, _)| ts[*t].name == name).collect();
            let Some((t, r)) = pick(&rows, c.a).copied() else { return none(ts) };
            if c.b % 3 == 0 {
                // all of them
                ts[t].rows.clear();
            } else {
                ts[t].rows.remove(r);
            }
            with(ts, if name == "public.users" { "a user is missing" } else { "a changeset is missing" }, Fail)
        }
        13 | 14 => {
            // a row of an object, or of a version, that does not exist
            let dependent = ["public.node_tags", "public.way_tags", "public.relation_tags", "public.way_nodes", "public.relation_members"];
            let name = dependent[(c.a % 5) as usize];
            let t = (0..ts.len()).find(|t| ts[*t].name == name).unwrap();
            let (id_col, rank) = match name {
                "public.node_tags" => ("node_id", 0),
                "public.way_tags" | "public.way_nodes" => ("way_id", 1),
                _ => ("relation_id", 2),
            };
            let of: Vec<&El> = els.iter().filter(|e| e.rank() == rank).collect();
            let base = pick(&of, c.b);
            let exists = |id: i64, v: i32| of.iter().any(|e| e.m.id == id && e.m.version == v);
            let (mut id, mut v) = base.map_or((5, 1), |e| (e.m.id, e.m.version));
            while exists(id, v) {
                match (c.b >> 8) % 4 {
                    0 => v += 1,
                    1 => id -= 1,
                    2 => id += 1,
                    _ => v -= 1,
                }
            }
            let row: Vec<Vec<u8>> = ts[t]
                .columns
                .iter()
                .map(|k| match k.as_str() {
                    k if k == id_col => id.to_string().into_bytes(),
                    "version" => v.to_string().into_bytes(),
                    "k" => b"highway".to_vec(),
                    "v" => b"orphan".to_vec(),
                    "member_type" => b"Way".to_vec(),
                    "member_role" => b"orphan".to_vec(),
                    _ => b"1".to_vec(),
                })
                .collect();
            let at = (mix(c.b) % (ts[t].rows.len() as u64 + 1)) as usize;
            ts[t].rows.insert(at, row);
            with(ts, "a row belongs to no element", Either)
        }
        15 => {
            // a version that the model of elements cannot hold
            let Some(e) = pick(&els, c.a) else { return none(ts) };
            let (main, id_col) = [("public.nodes", "node_id"), ("public.ways", "way_id"), ("public.relations", "relation_id")][e.rank() as usize];
            let (id, old) = (e.m.id.to_string(), e.m.version.to_string());
            let new = (e.m.version as i64 + [1i64 << 32, 1 << 40, 1 << 62, -(1i64 << 32)][(c.b % 4) as usize]).to_string();
            let stem = main.trim_end_matches('s');
            for t in &mut ts {
                if t.name == main || (t.name.starts_with(&format!("{stem}_"))) && needed(t) {
                    let (i, v) = (t.column(id_col), t.column("version"));
                    for r in &mut t.rows {
                        if r[i] == id.as_bytes() && r[v] == old.as_bytes() {
                            r[v] = new.clone().into_bytes();
                        }
                    }
                }
            }
            with(ts, "a version beyond 32 bits", Fail)
        }
        16 => {
            let Some(e) = pick(&els, c.a) else { return none(ts) };
            let old = e.m.uid.to_string();
            let new = (e.m.uid as i64 + [1i64 << 32, 1 << 40, 1 << 62, -(1i64 << 32)][(c.b % 4) as usize]).to_string();
            for t in &mut ts {
                let k = match t.name.as_str() {
                    "public.users" => t.column("id"),
                    "public.changesets" => t.column("user_id"),
                    _ => continue,
                };
                for r in &mut t.rows {
                    if r[k] == old.as_bytes() {
                        r[k] = new.clone().into_bytes();
                    }
                }
            }
            with(ts, "a user id beyond 32 bits", Fail)
        }
        17 => {
            let mut d = with(ts, "a stray line in a table", Either);
            let full = d.data[t].take().unwrap();
            let lines: Vec<usize> = (0..full.len() - 3).filter(|i| *i == 0 || full[i - 1] == b'\n').collect();
            let at = *pick(&lines, c.b).unwrap();
            let line: &[u8] = [&b"\n"[..], b"\\.\n", b"\\.x\n", b"#\n", b" \n"][(c.b / 64 % 5) as usize];
            d.data[t] = Some([&full[..at], line, &full[at..]].concat());
            d
        }
        18 => {
            let mut d = with(ts, "the temporary directory cannot be used", Fail);
            d.limit = Some(u64::MAX);
            d
        }
        _ => {
            let mut d = with(ts, "sorted tables cannot be written completely", Either);
            let sizes: Vec<u64> = d.tables.iter().filter(|t| needed(t)).map(|t| t.data().len() as u64 - 5).collect();
            let max = *sizes.iter().max().unwrap();
            // larger ones make the sorting library panic in a thread of its own and wait for ever
            if max == 0 || max >= 8192 {
                d.label = "nothing to damage";
                d.verdict = Intact;
                return d;
            }
            d.limit = Some(c.b % max);
            d
        }
    }
}

fn write(dir: &Path, d: &Damaged) -> R {
    let io = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(dir).map_err(io)?;
    for (t, data) in d.tables.iter().zip(&d.data) {
        if let Some(data) = data {
            std::fs::write(dir.join(&t.file), data).map_err(io)?;
        }
    }
    if !d.toc.is_empty() {
        std::fs::write(dir.join("toc.dat"), &d.toc).map_err(io)?;
    }
    Ok(())
}

/// A table above the sorting library's buffer whose sorted copy cannot be written: a known finding.
fn big_table_full_disk(c: &BrokenCase, ctx: &mut Ctx) -> R {
    ctx.label("sorted copy of a large table cannot be written");
    ctx.nontrivial(true);
    let (dir, tmp) = (ctx.path("dump"), ctx.path("tmp"));
    super::dump::write_foreign(&dir, &c.dump)?;
    let limit = FileLimit::set(c.b);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = catch(|| open_dump(&dir, &tmp).map(|_| ()));
        let _ = tx.send(match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(p),
        });
    });
    let mut panicked = None;
    loop {
        match rx.recv_timeout(std::time::Duration::from_millis(50)) {
            Ok(Err(_)) => {
                ctx.label("refused");
                return Ok(());
            }
            Ok(Ok(())) => return Err("opening succeeds although the sorted table is cut".into()),
            Err(_) => {}
        }
        // the pool of the sorting library waits for a thread that is gone
        if panicked.is_none() && panics().iter().any(|p| p.starts_with("[sorting") && p.contains("text-file-sort") && p.contains("FileTooLarge")) {
            panicked = Some(std::time::Instant::now());
        }
        if panicked.is_some_and(|t| t.elapsed().as_secs() >= 5) {
            drop(limit);
            return ctx.finding("C25", "sort-full-disk", "opening a dump never returns when a thread of the sorting library (text-file-sort) cannot write its sorted piece of a table above 8 KiB".into());
        }
    }
}

pub struct C25;
impl Prop for C25 {
    type Case = BrokenCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "Dumps made by the independent writer with one piece of damage each: missing or cut table file or table of contents, missing table or column, missing, surplus or malformed values, NULL or undecodable text, unlisted changesets and users, numbers beyond the model, rows that belong to no element, stray lines, a temporary directory that cannot be used or written completely; often with a temporary directory left over from reading the undamaged dump. Oracle: by kind of damage, must fail, or must fail or yield exactly the undamaged elements. Non-trivial: something was damaged.";
    const ASSUMPTIONS: &'static [&'static str] = &["a panic in the caller counts as refusal, as in the library's own handling of malformed rows", "write failures of temporary files only for tables below 8 KiB (see DESIGN.md)"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 5_000 } else { 100_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<BrokenCase> {
        (foreign(14), prop_oneof![5 => 0..KINDS, 1 => Just(8), 1 => Just(10)], any::<u64>(), any::<u64>(), any::<bool>()).prop_map(|(dump, kind, a, b, used)| BrokenCase { dump, kind, a, b, used }).boxed()
    }
    fn fixed(_: Tier) -> Vec<BrokenCase> {
        let bulk = |kind, n, heavy| Bulk { kind, n, start: 1, step: 1, salt: 7, vocab: 0, versions: 1, heavy, wide: false };
        let dump = ForeignCase { els: vec![], bulk: vec![bulk(0, 600, 0)], frac: vec![], rows: 0, cols: 0, files: 0, escapes: 0, nulls: false, extra_tables: false, unreferenced: 0 };
        vec![BrokenCase { dump, kind: KINDS, a: 1, b: 9000, used: false }]
    }
    fn run(c: &BrokenCase, ctx: &mut Ctx) -> R {
        if c.kind == KINDS {
            return big_table_full_disk(c, ctx);
        }
        let d = damage(c);
        ctx.label(d.label);
        ctx.when(c.used, "temporary directory used before");
        ctx.nontrivial(d.verdict != Verdict::Intact);
        let want = c.dump.expected();
        let tmp = ctx.path("tmp");
        if c.used {
            let whole = ctx.path("whole");
            super::dump::write_foreign(&whole, &c.dump)?;
            let got = check_dump_sentinels(&read_dump_lib(&whole, &tmp)?)?;
            if let Some(d) = diff_els(&want, &lib_sorted_tags(&got)?) {
                return Err(format!("undamaged: {d}"));
            }
        }
        let dir = ctx.path("dump");
        write(&dir, &d)?;
        let got = match d.limit {
            None => read_dump_lib(&dir, &tmp),
            Some(u64::MAX) => {
                let t = ctx.path("occupied");
                std::fs::write(&t, b"").map_err(|e| e.to_string())?;
                read_dump_lib(&dir, &if c.a % 2 == 0 { t } else { t.join("below") })
            }
            Some(n) => {
                let limit = FileLimit::set(n);
                let r = catch(|| open_dump(&dir, &tmp));
                drop(limit);
                match r {
                    Ok(Ok(r)) => catch(|| -> Result<Vec<_>, anyhow::Error> { Ok(r.elements()?.collect()) }).map_err(|p| p.to_string()).and_then(|r| r.map_err(|e| e.to_string())),
                    Ok(Err(e)) => Err(format!("{e:#}")),
                    Err(p) => Err(p),
                }
            }
        };
        let intact = match &got {
            Err(e) => Err(e.clone()),
            Ok(v) => match check_dump_sentinels(v).and_then(|v| lib_sorted_tags(&v)) {
                Err(e) => Ok(Some(e)),
                Ok(v) => Ok(diff_els(&want, &v)),
            },
        };
        match (d.verdict, intact) {
            (Verdict::Intact, Ok(None)) | (Verdict::Either, Ok(None)) => Ok(()),
            (Verdict::Fail, Err(_)) | (Verdict::Either, Err(_)) => {
                ctx.label("refused");
                Ok(())
            }
            (Verdict::Intact, Err(e)) => Err(format!("an undamaged dump is refused: {e}")),
            (Verdict::Fail, Ok(diff)) => Err(format!("{}, but reading succeeds{}", d.label, diff.map_or(" with the undamaged elements".into(), |d| format!(": {d}")))),
            (_, Ok(Some(diff))) => Err(format!("{}: {diff}", d.label)),
        }
    }
}
