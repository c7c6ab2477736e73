//! The schema in a dump's table of contents, and whether the dump's rows obey it.
use crate::copy::{Dump, Row};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Debug)]
pub struct Column {
    pub name: String,
    pub ty: String,
    pub not_null: bool,
}

#[derive(Debug)]
pub struct Reference {
    pub name: String,
    pub table: String,
    pub columns: Vec<String>,
    pub to: String,
    pub to_columns: Vec<String>,
}

#[derive(Debug, Default)]
pub struct Schema {
    pub enums: HashMap<String, Vec<String>>,
    pub tables: BTreeMap<String, Vec<Column>>,
    /// name, table, columns
    pub unique: Vec<(String, String, Vec<String>)>,
    pub references: Vec<Reference>,
}

fn names(s: &str) -> Vec<String> {
    s.split(',').map(|c| c.trim().trim_matches('"').to_string()).collect()
}

/// What is between two parentheses at the start of `s`, and what follows.
fn parens(s: &str) -> Option<(&str, &str)> {
    let a = s.find('(')?;
    let e = a + s[a..].find(')')?;
    Some((&s[a + 1..e], &s[e + 1..]))
}

pub fn parse(toc: &[u8]) -> Schema {
    let t = String::from_utf8_lossy(toc);
    let mut out = Schema::default();
    let after = |what: &'static str| t.match_indices(what).map(move |(i, _)| i + what.len()).collect::<Vec<_>>();
    for i in after("CREATE TYPE ") {
        let s = &t[i..];
        let Some((name, rest)) = s.split_once(" AS ENUM ") else { continue };
        if name.contains('\n') {
            continue;
        }
        if let Some((values, _)) = parens(rest) {
            out.enums.insert(name.to_string(), values.split(',').map(|v| v.trim().trim_matches('\'').to_string()).collect());
        }
    }
    for i in after("CREATE TABLE ") {
        let s = &t[i..];
        let Some((name, rest)) = s.split_once(" (\n") else { continue };
        let Some((body, _)) = rest.split_once("\n)") else { continue };
        let mut cols = vec![];
        for l in body.lines() {
            let l = l.trim().trim_end_matches(',');
            if l.starts_with("CONSTRAINT") {
                continue;
            }
            let Some((c, ty)) = l.split_once(' ') else { continue };
            let not_null = ty.ends_with("NOT NULL");
            let ty = ty.trim_end_matches("NOT NULL").trim();
            let ty = ty.split(" DEFAULT ").next().unwrap().trim();
            cols.push(Column { name: c.trim_matches('"').to_string(), ty: ty.to_string(), not_null });
        }
        out.tables.insert(name.to_string(), cols);
    }
    for i in after("ALTER TABLE ONLY ") {
        let s = &t[i..];
        let Some((table, rest)) = s.split_once("\n    ADD CONSTRAINT ") else { continue };
        if table.contains(['\n', ' ']) {
            continue;
        }
        let Some((name, rest)) = rest.split_once(' ') else { continue };
        if rest.starts_with("PRIMARY KEY") || rest.starts_with("UNIQUE") {
            if let Some((c, _)) = parens(rest) {
                out.unique.push((name.to_string(), table.to_string(), names(c)));
            }
        } else if rest.starts_with("FOREIGN KEY") {
            let Some((c, rest)) = parens(rest) else { continue };
            let Some(rest) = rest.strip_prefix(" REFERENCES ") else { continue };
            let to = rest.split('(').next().unwrap().to_string();
            let Some((d, _)) = parens(rest) else { continue };
            out.references.push(Reference { name: name.to_string(), table: table.to_string(), columns: names(c), to, to_columns: names(d) });
        }
    }
    for i in after("CREATE UNIQUE INDEX ") {
        let s = &t[i..];
        let Some((name, rest)) = s.split_once(" ON ") else { continue };
        let Some((table, rest)) = rest.split_once(" USING btree ") else { continue };
        if let Some((c, _)) = parens(rest) {
            out.unique.push((name.to_string(), table.to_string(), names(c)));
        }
    }
    out
}

fn timestamp(v: &str) -> bool {
    let b = v.as_bytes();
    if b.len() < 19 || !v.is_ascii() {
        return false;
    }
    let n = |r: std::ops::Range<usize>| v.get(r).and_then(|x| if x.bytes().all(|c| c.is_ascii_digit()) { x.parse::<u32>().ok() } else { None });
    let (Some(y), Some(m), Some(d), Some(h), Some(mi), Some(s)) = (n(0..4), n(5..7), n(8..10), n(11..13), n(14..16), n(17..19)) else { return false };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if (b[4], b[7], b[10], b[13], b[16]) != (b'-', b'-', b' ', b':', b':') || y == 0 || !(1..=12).contains(&m) || d == 0 || d > days[m as usize - 1] || h > 23 || mi > 59 || s > 59 {
        return false;
    }
    let rest = &v[19..];
    rest.is_empty() || (rest.len() <= 7 && rest.len() >= 2 && rest.starts_with('.') && rest[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn fits(s: &Schema, ty: &str, v: &str) -> bool {
    match ty {
        "bigint" => v.parse::<i64>().is_ok(),
        "integer" => v.parse::<i32>().is_ok(),
        "smallint" => v.parse::<i16>().is_ok(),
        "boolean" => v == "t" || v == "f",
        "double precision" => v.parse::<f64>().is_ok(),
        "timestamp without time zone" => timestamp(v),
        "text" | "character varying" => !v.contains('\0'),
        t if t.starts_with("character varying(") => t[18..t.len() - 1].parse::<usize>().is_ok_and(|n| v.chars().count() <= n) && !v.contains('\0'),
        t => s.enums.get(t).is_none_or(|e| e.iter().any(|x| x == v)),
    }
}

fn show(cols: &[String], r: &Row) -> String {
    cols.iter().zip(r).map(|(c, v)| format!("{c}={}", v.as_deref().unwrap_or("null"))).collect::<Vec<_>>().join(", ").chars().take(300).collect()
}

/// The first constraint that the dump breaks.
pub fn check(s: &Schema, d: &Dump) -> Result<(), String> {
    for (table, (cols, rows)) in &d.tables {
        let Some(decl) = s.tables.get(table) else { return Err(format!("table {table} has data but no declaration")) };
        let Some(decl) = cols.iter().map(|c| decl.iter().find(|x| x.name == *c)).collect::<Option<Vec<_>>>() else {
            return Err(format!("table {table} has data of columns {cols:?} which it does not declare"));
        };
        for r in rows {
            for (c, v) in decl.iter().zip(r) {
                match v {
                    None if c.not_null => return Err(format!("{table}: {} is null in row {}", c.name, show(cols, r))),
                    Some(v) if !fits(s, &c.ty, v) => return Err(format!("{table}: {v:?} is not of type {} in row {}", c.ty, show(cols, r))),
                    _ => {}
                }
            }
        }
    }
    let refs = |v: &[String]| v.iter().map(|c| c.clone()).collect::<Vec<_>>();
    for (name, table, cols) in &s.unique {
        let Some((_, all)) = d.tables.get(table) else { continue };
        if all.is_empty() {
            continue;
        }
        let c = refs(cols);
        let rows = d.rows(table, &c.iter().map(|x| x.as_str()).collect::<Vec<_>>())?;
        let mut seen = HashSet::new();
        for r in rows {
            if r.iter().all(|v| v.is_some()) && !seen.insert(r.clone()) {
                return Err(format!("{table} has two rows with {} ({name})", show(cols, &r)));
            }
        }
    }
    for f in &s.references {
        let Some((_, all)) = d.tables.get(&f.table) else { continue };
        if all.is_empty() {
            continue;
        }
        let from = d.rows(&f.table, &f.columns.iter().map(|x| x.as_str()).collect::<Vec<_>>())?;
        let to: HashSet<Row> = d.rows(&f.to, &f.to_columns.iter().map(|x| x.as_str()).collect::<Vec<_>>())?.into_iter().collect();
        for r in from {
            if r.iter().all(|v| v.is_some()) && !to.contains(&r) {
                return Err(format!("{} refers with {} to a row that {} does not have ({})", f.table, show(&f.columns, &r), f.to, f.name));
            }
        }
    }
    Ok(())
}
