//! Independent model of PostgreSQL directory-format dumps: COPY text escaping, table files,
//! the table of contents, and the rows the elements define.
use crate::gen::mix;
use crate::model::*;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

pub type Row = Vec<Option<String>>;

/// COPY text output of PostgreSQL (CopyAttributeOutText).
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{b}' => o.push_str("\\v"),
            c => o.push(c),
        }
    }
    o
}

/// Any of the spellings COPY FROM accepts for the same value, chosen by `salt`.
pub fn escape_any(s: &str, salt: u64) -> String {
    let mut o = String::new();
    let chars: Vec<char> = s.chars().collect();
    for (i, c) in chars.iter().enumerate() {
        let h = mix(salt ^ mix(i as u64 + 1));
        let next = chars.get(i + 1).copied().unwrap_or(' ');
        let named = match c {
            '\\' => Some('\\'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '\u{b}' => Some('v'),
            _ => None,
        };
        // an escaped digit is octal, but for these two
        if salt != 0 && matches!(c, '8' | '9') && h & (3 << 30) == 0 {
            o.push('\\');
            o.push(*c);
            continue;
        }
        let force = named.is_some() && !matches!(c, '\u{8}' | '\u{c}' | '\u{b}');
        let choice = h % 10;
        if salt == 0 || (choice < 6 && (named.is_none() || force)) {
            match named {
                Some(n) => {
                    o.push('\\');
                    o.push(n);
                }
                None => o.push(*c),
            }
            continue;
        }
        match (choice, named) {
            (0..=4, Some(n)) => {
                o.push('\\');
                o.push(n);
            }
            (5, Some(_)) => o.push(*c), // \b \f \v may stand for themselves
            // octal or hex per byte; full width, or short if the next character cannot extend it
            (6, _) | (7, _) => {
                for b in c.to_string().bytes() {
                    o.push_str(&format!("\\{:03o}", b));
                }
            }
            (8, _) => {
                for b in c.to_string().bytes() {
                    o.push_str(&format!("\\x{:02X}", b));
                }
            }
            (_, _) => {
                // digits end where the next character is not one; an escaped one starts with a backslash
                let code = *c as u32;
                let octal = code < 64 && !('0'..='7').contains(&next);
                let hex = code < 16 && !next.is_ascii_hexdigit();
                // a backslash before any other character is dropped
                let plain = match c {
                    '0'..='7' | 'b' | 'f' | 'n' | 'r' | 't' | 'v' | '.' => false,
                    'x' => !next.is_ascii_hexdigit(),
                    'N' => chars.len() > 1,
                    // a new line would end the row in other readers
                    _ => named.is_none(),
                };
                if hex && h & (3 << 20) == 0 {
                    o.push_str(&format!("\\x{code:x}"));
                } else if octal && (h & (1 << 24) != 0 || !plain) {
                    o.push_str(&format!("\\{code:o}"));
                } else if plain {
                    o.push('\\');
                    o.push(*c);
                } else {
                    match named {
                        Some(n) => {
                            o.push('\\');
                            o.push(n);
                        }
                        None => o.push(*c),
                    }
                }
            }
        }
    }
    o
}

/// COPY FROM text input (CopyReadAttributesText); None is SQL NULL.
pub fn unescape(f: &[u8]) -> Result<Option<String>, String> {
    if f == b"\\N" {
        return Ok(None);
    }
    let mut o = vec![];
    let mut i = 0;
    let oct = |c: Option<&u8>| c.filter(|c| (b'0'..=b'7').contains(c)).map(|c| c - b'0');
    let hex = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16)).map(|d| d as u8);
    while i < f.len() {
        let c = f[i];
        i += 1;
        if c != b'\\' {
            o.push(c);
            continue;
        }
        let Some(&c) = f.get(i) else {
            return Err("field ends with a lone backslash".into());
        };
        i += 1;
        match c {
            b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                for _ in 0..2 {
                    if let Some(d) = oct(f.get(i)) {
                        v = (v << 3) + d as u32;
                        i += 1;
                    } else {
                        break;
                    }
                }
                o.push(v as u8);
            }
            b'x' => {
                if let Some(d) = hex(f.get(i)) {
                    i += 1;
                    let mut v = d;
                    if let Some(d) = hex(f.get(i)) {
                        i += 1;
                        v = (v << 4) + d;
                    }
                    o.push(v);
                } else {
                    o.push(b'x');
                }
            }
            b'b' => o.push(8),
            b'f' => o.push(12),
            b'n' => o.push(10),
            b'r' => o.push(13),
            b't' => o.push(9),
            b'v' => o.push(11),
            c => o.push(c),
        }
    }
    String::from_utf8(o).map(Some).map_err(|_| "not UTF-8 after unescaping".into())
}

/// Parse one table data file: rows terminated by newline, then `\.`.
pub fn parse_table(b: &[u8]) -> Result<Vec<Row>, String> {
    let mut rows = vec![];
    let mut p = 0;
    loop {
        let e = b[p..].iter().position(|c| *c == b'\n').ok_or("last line has no newline / no end-of-data marker")? + p;
        let line = &b[p..e];
        p = e + 1;
        if line == b"\\." {
            if b[p..].iter().any(|c| *c != b'\n') {
                return Err("data after the end-of-data marker".into());
            }
            return Ok(rows);
        }
        if line.contains(&b'\r') {
            return Err("raw carriage return in a row".into());
        }
        let mut row = vec![];
        for f in line.split(|c| *c == b'\t') {
            row.push(unescape(f).map_err(|m| format!("row {}: {m}: {:?}", rows.len() + 1, String::from_utf8_lossy(line)))?);
        }
        rows.push(row);
    }
}

#[derive(Clone, Debug)]
pub struct TocEntry {
    pub table: String,
    pub columns: Vec<String>,
    pub file: String,
}

/// Find the COPY statements and their files in a directory-format toc.dat.
pub fn parse_toc(b: &[u8]) -> Vec<TocEntry> {
    let find = |from: usize, pat: &[u8]| -> Option<usize> { b[from..].windows(pat.len()).position(|w| w == pat).map(|i| i + from) };
    let mut out = vec![];
    let mut p = 0;
    while let Some(s) = find(p, b"COPY public.") {
        let s = s + 5;
        let Some(e) = find(s, b" FROM stdin;") else { break };
        let stmt = String::from_utf8_lossy(&b[s..e]).to_string();
        let Some(d) = find(e, b".dat") else { break };
        let mut n = d;
        while n > 0 && b[n - 1].is_ascii_digit() {
            n -= 1;
        }
        let file = String::from_utf8_lossy(&b[n..d + 4]).to_string();
        if let Some((t, cols)) = stmt.split_once(" (") {
            out.push(TocEntry {
                table: t.to_string(),
                columns: cols.trim_end_matches(')').split(", ").map(|c| c.trim_matches('"').to_string()).collect(),
                file,
            });
        }
        p = d;
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct Dump {
    pub tables: BTreeMap<String, (Vec<String>, Vec<Row>)>,
}

pub fn read_dump(dir: &Path) -> Result<Dump, String> {
    let toc = std::fs::read(dir.join("toc.dat")).map_err(|e| format!("toc.dat: {e}"))?;
    let mut d = Dump::default();
    let entries = parse_toc(&toc);
    if entries.is_empty() {
        return Err("no tables in toc.dat".into());
    }
    for e in entries {
        let b = std::fs::read(dir.join(&e.file)).map_err(|x| format!("{} ({}): {x}", e.table, e.file))?;
        let rows = parse_table(&b).map_err(|m| format!("table {} ({}): {m}", e.table, e.file))?;
        for r in &rows {
            if r.len() != e.columns.len() {
                return Err(format!("table {} has {} columns, row {:?} has {}", e.table, e.columns.len(), r, r.len()));
            }
        }
        if d.tables.insert(e.table.clone(), (e.columns, rows)).is_some() {
            return Err(format!("table {} twice in toc.dat", e.table));
        }
    }
    Ok(d)
}

impl Dump {
    /// Rows of a table with the columns in the given order.
    pub fn rows(&self, table: &str, cols: &[&str]) -> Result<Vec<Row>, String> {
        let (c, rows) = self.tables.get(table).ok_or_else(|| format!("no table {table}"))?;
        let mut ix = vec![];
        for w in cols {
            ix.push(c.iter().position(|x| x == w).ok_or_else(|| format!("table {table} has no column {w}"))?);
        }
        Ok(rows.iter().map(|r| ix.iter().map(|i| r[*i].clone()).collect()).collect())
    }
}

// ---------------------------------------------------------------- the rows elements define

/// Days since the epoch to civil date.
pub fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn sql_time(ms: i64) -> String {
    let s = ms.div_euclid(1000);
    let (y, m, d) = civil(s.div_euclid(86_400));
    let t = s.rem_euclid(86_400);
    format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", y, m, d, t / 3600, t / 60 % 60, t % 60)
}

/// The OSM database's quadtile, computed on 1e-7 degree integers with exact rational rounding.
pub fn tile(lat7: i64, lon7: i64) -> u64 {
    // round(((v + off) * 65535) / range), halves away from zero (the argument is never negative)
    let r = |num: i128, den: i128| -> u64 { ((2 * num + den) / (2 * den)) as u64 };
    let x = r((lon7 as i128 + 1_800_000_000) * 65_535, 3_600_000_000);
    let y = r((lat7 as i128 + 900_000_000) * 65_535, 1_800_000_000);
    let mut t = 0;
    for i in 0..16 {
        let b = 15 - i;
        t = (t << 2) | (((x >> b) & 1) << 1) | ((y >> b) & 1);
    }
    t
}

fn s(v: impl ToString) -> Option<String> {
    Some(v.to_string())
}

pub const MEMBER_TYPE: [&str; 3] = ["Node", "Way", "Relation"];

pub const HISTORY: &[(&str, &[&str])] = &[
    ("public.nodes", &["node_id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "tile", "version", "redaction_id"]),
    ("public.node_tags", &["node_id", "version", "k", "v"]),
    ("public.ways", &["way_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"]),
    ("public.way_nodes", &["way_id", "node_id", "version", "sequence_id"]),
    ("public.way_tags", &["way_id", "k", "v", "version"]),
    ("public.relations", &["relation_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"]),
    ("public.relation_members", &["relation_id", "member_type", "member_id", "member_role", "version", "sequence_id"]),
    ("public.relation_tags", &["relation_id", "k", "v", "version"]),
];

pub const CURRENT: &[(&str, &[&str])] = &[
    ("public.current_nodes", &["id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "tile", "version"]),
    ("public.current_node_tags", &["node_id", "k", "v"]),
    ("public.current_ways", &["id", "changeset_id", "timestamp", "visible", "version"]),
    ("public.current_way_nodes", &["way_id", "node_id", "sequence_id"]),
    ("public.current_way_tags", &["way_id", "k", "v"]),
    ("public.current_relations", &["id", "changeset_id", "timestamp", "visible", "version"]),
    ("public.current_relation_members", &["relation_id", "member_type", "member_id", "member_role", "sequence_id"]),
    ("public.current_relation_tags", &["relation_id", "k", "v"]),
];

fn tf(b: bool) -> Option<String> {
    s(if b { "t" } else { "f" })
}

pub fn history_rows(els: &[El]) -> BTreeMap<&'static str, Vec<Row>> {
    let mut t: BTreeMap<&'static str, Vec<Row>> = HISTORY.iter().map(|(n, _)| (*n, vec![])).collect();
    for e in els {
        let m = &e.m;
        match &e.b {
            Body::Node { lat, lon } => {
                let (a, o) = (lat / 100, lon / 100);
                t.get_mut("public.nodes").unwrap().push(vec![s(m.id), s(a), s(o), s(m.changeset), tf(m.visible), s(sql_time(m.ts)), s(tile(a, o)), s(m.version), None]);
                for (k, v) in &m.tags {
                    t.get_mut("public.node_tags").unwrap().push(vec![s(m.id), s(m.version), s(k), s(v)]);
                }
            }
            Body::Way { refs } => {
                t.get_mut("public.ways").unwrap().push(vec![s(m.id), s(m.changeset), s(sql_time(m.ts)), s(m.version), tf(m.visible), None]);
                for (i, r) in refs.iter().enumerate() {
                    t.get_mut("public.way_nodes").unwrap().push(vec![s(m.id), s(r), s(m.version), s(i + 1)]);
                }
                for (k, v) in &m.tags {
                    t.get_mut("public.way_tags").unwrap().push(vec![s(m.id), s(k), s(v), s(m.version)]);
                }
            }
            Body::Rel { members } => {
                t.get_mut("public.relations").unwrap().push(vec![s(m.id), s(m.changeset), s(sql_time(m.ts)), s(m.version), tf(m.visible), None]);
                for (i, (ty, id, role)) in members.iter().enumerate() {
                    t.get_mut("public.relation_members").unwrap().push(vec![s(m.id), s(MEMBER_TYPE[*ty as usize]), s(id), s(role), s(m.version), s(i + 1)]);
                }
                for (k, v) in &m.tags {
                    t.get_mut("public.relation_tags").unwrap().push(vec![s(m.id), s(k), s(v), s(m.version)]);
                }
            }
        }
    }
    t
}

/// els sorted by (type, id, version)
pub fn current_rows(els: &[El]) -> BTreeMap<&'static str, Vec<Row>> {
    let mut t: BTreeMap<&'static str, Vec<Row>> = CURRENT.iter().map(|(n, _)| (*n, vec![])).collect();
    let mut newest: BTreeMap<(u8, i64), &El> = BTreeMap::new();
    for e in els {
        newest.insert((e.rank(), e.m.id), e);
    }
    for e in newest.values() {
        let m = &e.m;
        if !m.visible {
            continue;
        }
        match &e.b {
            Body::Node { lat, lon } => {
                let (a, o) = (lat / 100, lon / 100);
                t.get_mut("public.current_nodes").unwrap().push(vec![s(m.id), s(a), s(o), s(m.changeset), tf(true), s(sql_time(m.ts)), s(tile(a, o)), s(m.version)]);
                for (k, v) in &m.tags {
                    t.get_mut("public.current_node_tags").unwrap().push(vec![s(m.id), s(k), s(v)]);
                }
            }
            Body::Way { refs } => {
                t.get_mut("public.current_ways").unwrap().push(vec![s(m.id), s(m.changeset), s(sql_time(m.ts)), tf(true), s(m.version)]);
                for (i, r) in refs.iter().enumerate() {
                    t.get_mut("public.current_way_nodes").unwrap().push(vec![s(m.id), s(r), s(i + 1)]);
                }
                for (k, v) in &m.tags {
                    t.get_mut("public.current_way_tags").unwrap().push(vec![s(m.id), s(k), s(v)]);
                }
            }
            Body::Rel { members } => {
                t.get_mut("public.current_relations").unwrap().push(vec![s(m.id), s(m.changeset), s(sql_time(m.ts)), tf(true), s(m.version)]);
                for (i, (ty, id, role)) in members.iter().enumerate() {
                    t.get_mut("public.current_relation_members").unwrap().push(vec![s(m.id), s(MEMBER_TYPE[*ty as usize]), s(id), s(role), s(i + 1)]);
                }
                for (k, v) in &m.tags {
                    t.get_mut("public.current_relation_tags").unwrap().push(vec![s(m.id), s(k), s(v)]);
                }
            }
        }
    }
    t
}

/// Compare as multisets: physical row order is not part of a table's content.
pub fn diff_rows(table: &str, expected: &[Row], got: &[Row]) -> Option<String> {
    let mut cnt: HashMap<&Row, i64> = HashMap::new();
    for r in expected {
        *cnt.entry(r).or_insert(0) += 1;
    }
    for r in got {
        *cnt.entry(r).or_insert(0) -= 1;
    }
    let mut missing: Vec<_> = cnt.iter().filter(|(_, c)| **c > 0).map(|(r, _)| *r).collect();
    let mut extra: Vec<_> = cnt.iter().filter(|(_, c)| **c < 0).map(|(r, _)| *r).collect();
    if missing.is_empty() && extra.is_empty() {
        return None;
    }
    missing.sort();
    extra.sort();
    Some(format!(
        "table {table}: {} expected rows, {} found; missing {:?}; unexpected {:?}",
        expected.len(),
        got.len(),
        missing.iter().take(3).collect::<Vec<_>>(),
        extra.iter().take(3).collect::<Vec<_>>()
    ))
}
