//! The contents of a dump do not depend on the order in which elements are written.
use super::dump::{check_tables, shuffle};
use crate::copy;
use crate::driver::*;
use crate::gen::*;
use crate::io::*;
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Order {
    /// types mixed, each in order
    Mixed,
    /// relations, ways, nodes, each in order
    TypesReversed,
    /// parts of a file with all types, one after the other, each type in order
    Parts(u8),
    /// the versions of an object not in order
    Versions,
    Reversed,
    /// blocks of elements exchanged
    Blocks(u8),
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrderCase {
    pub els: Seq,
    pub order: Order,
    pub salt: u64,
}

impl Order {
    /// whether elements of each type are in order
    fn by_type(self) -> bool {
        matches!(self, Order::Mixed | Order::TypesReversed | Order::Parts(_))
    }

    fn apply(self, v: &mut Vec<El>, salt: u64) {
        match self {
            // a random merge of the three types
            Order::Mixed => {
                let mut ranks: Vec<u8> = v.iter().map(El::rank).collect();
                shuffle(&mut ranks, salt | 1);
                let mut types: Vec<std::vec::IntoIter<El>> = (0..3u8).map(|r| v.iter().filter(|e| e.rank() == r).cloned().collect::<Vec<_>>().into_iter()).collect();
                *v = ranks.iter().map(|r| types[*r as usize].next().unwrap()).collect();
            }
            Order::TypesReversed => v.sort_by_key(|e| std::cmp::Reverse(e.rank())),
            Order::Parts(n) => {
                let n = n.max(1) as usize + 1;
                let mut at = [0usize; 3];
                let counts = [0u8, 1, 2].map(|r| v.iter().filter(|e| e.rank() == r).count().max(1));
                let mut keyed: Vec<(usize, El)> = std::mem::take(v)
                    .into_iter()
                    .map(|e| {
                        let r = e.rank() as usize;
                        let part = at[r] * n / counts[r];
                        at[r] += 1;
                        (part, e)
                    })
                    .collect();
                keyed.sort_by_key(|k| k.0);
                *v = keyed.into_iter().map(|k| k.1).collect();
            }
            Order::Versions => v.sort_by_key(|e| (e.rank(), e.m.id, mix(salt ^ e.m.version as u64))),
            Order::Reversed => v.reverse(),
            Order::Blocks(n) => {
                let n = n.max(1) as usize;
                let mut blocks: Vec<Vec<El>> = v.chunks(n).map(|c| c.to_vec()).collect();
                shuffle(&mut blocks, salt | 1);
                *v = blocks.concat();
            }
            Order::Any => shuffle(v, salt | 1),
        }
    }
}

pub struct C37;
impl Prop for C37 {
    type Case = OrderCase;
    const ID: &'static str = "C37";
    const RULE: &'static str = "Generated element sets in the database's domain are written to a dump in another order than that of type, id and version: types mixed, reversed or in several parts, versions of an object exchanged, blocks exchanged, all reversed, any order. Oracle: the history tables, users and changesets, parsed independently, hold the rows that the set of elements defines; reading the dump yields the elements in order; if the elements of each type come in order the current tables too hold what they define. Non-trivial: the order differs from the sorted one.";
    const ASSUMPTIONS: &'static [&'static str] = &["unique tag keys per object, one user per changeset, one name per user, no NUL characters (the constraints of the database)", "current tables are specified only if the elements of each type come in order"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<OrderCase> {
        let order = prop_oneof![
            3 => Just(Order::Mixed),
            1 => Just(Order::TypesReversed),
            2 => (1u8..8).prop_map(Order::Parts),
            2 => Just(Order::Versions),
            1 => Just(Order::Reversed),
            2 => (1u8..20).prop_map(Order::Blocks),
            3 => Just(Order::Any),
        ];
        (super::dump::db_seq(t, 24), order, any::<u64>()).prop_map(|(els, order, salt)| OrderCase { els, order, salt }).boxed()
    }
    fn run(c: &OrderCase, ctx: &mut Ctx) -> R {
        let els = c.els.all(Dom::Db);
        let mut other = els.clone();
        c.order.apply(&mut other, c.salt);
        ctx.label(format!("{:?}", c.order).split('(').next().unwrap().to_string());
        ctx.nontrivial(other != els);
        let p = ctx.path("dump");
        write_dump(&p, &other)?;
        let d = copy::read_dump(&p)?;
        check_tables(&d, &copy::history_rows(&els), copy::HISTORY)?;
        if c.order.by_type() {
            check_tables(&d, &copy::current_rows(&els), copy::CURRENT)?;
        }
        let mut users: BTreeMap<String, String> = BTreeMap::new();
        let mut css: BTreeMap<String, String> = BTreeMap::new();
        for e in &els {
            users.insert(e.m.uid.to_string(), e.m.user.clone());
            css.insert(e.m.changeset.to_string(), e.m.uid.to_string());
        }
        for (table, cols, want) in [("public.users", ["id", "display_name"], users), ("public.changesets", ["id", "user_id"], css)] {
            let want: Vec<copy::Row> = want.into_iter().map(|(a, b)| vec![Some(a), Some(b)]).collect();
            let got = d.rows(table, &cols)?;
            if let Some(m) = copy::diff_rows(table, &want, &got) {
                return Err(m);
            }
        }
        let got = check_dump_sentinels(&read_dump_lib(&p, &ctx.path("tmp"))?)?;
        diff_els(&sort_tags(els), &lib_sorted_tags(&got)?).map_or(Ok(()), Err)
    }
}
