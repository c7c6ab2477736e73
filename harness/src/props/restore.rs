//! A dump obeys the schema it carries.
use super::dump::db_seq;
use crate::copy;
use crate::driver::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use crate::schema;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RestoreCase {
    pub seq: Seq,
    /// through a PBF file first
    pub pbf: bool,
    /// read back and written again
    pub again: bool,
    pub salt: u64,
}

/// The nearest consistent state of a database: names differ, and live ways have live nodes.
fn consistent(els: &mut [El], salt: u64) {
    let mut owner: HashMap<String, i32> = HashMap::new();
    let mut name: BTreeMap<i32, String> = BTreeMap::new();
    for e in els.iter() {
        name.entry(e.m.uid).or_insert_with(|| e.m.user.clone());
    }
    for (uid, n) in name.iter_mut() {
        while owner.contains_key(n) {
            n.push_str(&format!("_{uid}"));
        }
        owner.insert(n.clone(), *uid);
    }
    let mut live = BTreeSet::new();
    for e in els.iter_mut() {
        e.m.user = name[&e.m.uid].clone();
        if let Body::Node { .. } = e.b {
            if e.m.visible {
                live.insert(e.m.id);
            } else {
                live.remove(&e.m.id);
            }
        }
    }
    let list: Vec<i64> = live.iter().copied().collect();
    for i in 0..els.len() {
        let newest = els.get(i + 1).is_none_or(|n| (n.rank(), n.m.id) != (els[i].rank(), els[i].m.id));
        let visible = els[i].m.visible;
        if let Body::Way { refs } = &mut els[i].b {
            if newest && visible {
                if list.is_empty() {
                    refs.clear();
                }
                for (k, r) in refs.iter_mut().enumerate() {
                    if !live.contains(r) {
                        *r = list[(mix(salt ^ *r as u64 ^ (k as u64) << 32) % list.len() as u64) as usize];
                    }
                }
            }
        }
    }
}

fn copy_to_dump(dir: &std::path::Path, els: Vec<osm_io::osm::model::element::Element>) -> R {
    catch(|| -> Result<(), anyhow::Error> {
        let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(dir.to_path_buf(), 0)?;
        for e in els {
            w.write_element(e)?;
        }
        w.close()
    })
    .map_err(|p| format!("writing the dump panicked: {p}"))?
    .map_err(|e| format!("writing the dump failed: {e:#}"))
}

pub struct C34;
impl Prop for C34 {
    type Case = RestoreCase;
    const ID: &'static str = "C34";
    const RULE: &'static str = "Sorted element sequences in the database's domain, made consistent (user names differ, the newest version of a visible way refers to live nodes), written as a dump directly, by way of a PBF file, or read from a dump and written again. The schema (columns, types, not-null, enumerations, primary keys, unique indexes, foreign keys) is parsed from the SQL in the dump's own toc.dat, and every row of every table is checked against it. Non-trivial: at least two elements.";
    const ASSUMPTIONS: &'static [&'static str] = &["unique tag keys per object, one user per changeset, no NUL characters, user names differ, live ways refer to live nodes (otherwise the elements themselves break the schema)", "triggers and deferred actions are not modelled; the schema has none on these tables"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 4_000 } else { 100_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<RestoreCase> {
        (db_seq(t, 24), any::<bool>(), prop::bool::weighted(0.1), any::<u64>()).prop_map(|(seq, pbf, again, salt)| RestoreCase { seq, pbf, again, salt }).boxed()
    }
    fn run(c: &RestoreCase, ctx: &mut Ctx) -> R {
        let mut els = c.seq.all(Dom::Db);
        consistent(&mut els, c.salt);
        ctx.nontrivial(els.len() >= 2);
        ctx.when(els.windows(2).any(|w| w[0].rank() == w[1].rank() && w[0].m.id == w[1].m.id), "several versions of an object");
        ctx.when(els.iter().any(|e| !e.m.visible), "deleted");
        ctx.when(els.iter().any(|e| matches!(&e.b, Body::Way { refs } if !refs.is_empty())), "way with nodes");
        let mut p = ctx.path("dump");
        if c.pbf {
            let f = ctx.path("a.osm.pbf");
            write_seq_lib(&f, Info::basic().to_lib(), &els, &[0], true)?;
            let (_, lib) = read_seq(&f)?;
            copy_to_dump(&p, lib)?;
        } else {
            write_dump(&p, &els)?;
        }
        if c.again {
            ctx.label("from a dump");
            let lib = read_dump_lib(&p, &ctx.path("tmp"))?;
            p = ctx.path("dump2");
            copy_to_dump(&p, lib)?;
        }
        let toc = std::fs::read(p.join("toc.dat")).map_err(|e| e.to_string())?;
        let s = schema::parse(&toc);
        let of = |t: &str| copy::HISTORY.iter().chain(copy::CURRENT).any(|x| x.0 == t);
        let (k, f) = (s.unique.iter().filter(|x| of(&x.1)).count(), s.references.iter().filter(|x| of(&x.table)).count());
        if k < 12 || f < 16 || s.tables.len() < 40 || s.enums.is_empty() {
            return Err(format!("the table of contents declares {} tables, with {k} keys and {f} references for elements", s.tables.len()));
        }
        ctx.count("constraints", (s.unique.len() + s.references.len()) as u64);
        let d = copy::read_dump(&p)?;
        ctx.count("rows", d.tables.values().map(|t| t.1.len() as u64).sum());
        schema::check(&s, &d)
    }
}
