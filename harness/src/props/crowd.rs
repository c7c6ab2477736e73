//! Parallel iteration really runs in parallel: callbacks wait for each other.
use crate::driver::*;
use crate::io::*;
use crate::model::*;
use crate::props::par::{pfile, PFile};
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::reader::Reader;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::path::Path;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::ThreadId;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    pub file: PFile,
    /// tasks of the iterations that run at the same time
    pub tasks: Vec<usize>,
    /// the call on each thread at which it waits for the others
    pub at: u8,
    /// what each thread does when all are there: 0 nothing, else uses the library itself
    pub nested: u8,
}

#[derive(Default)]
struct Meeting {
    there: Mutex<HashSet<ThreadId>>,
    all: Condvar,
}

impl Meeting {
    /// Waits until so many different threads wait here. If they never come, all threads are
    /// blocked, which the driver takes for a hang.
    fn wait(&self, many: usize) {
        let mut g = self.there.lock().unwrap();
        g.insert(std::thread::current().id());
        self.all.notify_all();
        while g.len() < many {
            g = self.all.wait(g).unwrap();
        }
    }
}

fn nested(path: &Path, r: &Reader, kind: u8, total: usize) -> Result<(), anyhow::Error> {
    let fail = |n: usize| if n == total { Ok(()) } else { Err(anyhow::anyhow!("nested reading (kind {kind}) delivers {n} elements instead of {total}")) };
    match kind {
        0 => Ok(()),
        1 => fail(Reader::new(path)?.elements()?.count()),
        2 => fail(r.elements()?.count()),
        3 => {
            let n = Arc::new(AtomicU64::new(0));
            let m = n.clone();
            r.parallel_for_each(2, move |e| {
                m.fetch_add(!e.is_sentinel() as u64, Ordering::SeqCst);
                Ok(())
            })?;
            fail(n.load(Ordering::SeqCst) as usize)
        }
        4 => {
            let (a, b, c) = r.count_objects()?;
            fail((a + b + c) as usize)
        }
        _ => {
            let _ = BoundingBoxCalculator::new(path).calc();
            Ok(())
        }
    }
}

pub struct C32;
impl Prop for C32 {
    type Case = Crowd;
    const ID: &'static str = "C32";
    const SHARDS: u32 = 2;
    const RULE: &'static str = "Independently encoded files x one to three parallel iterations at the same time with 1 to 24 tasks each. In the callback every thread waits at a generated call until as many threads wait as there are tasks (or data blocks, if fewer) in all iterations together; if they do not come the case hangs and that is a violation. Then some use the library in the callback: open and read the file, read with the same reader sequentially or in parallel, count, compute the bounding box. No iteration may use more threads than tasks, everything must be delivered, and nested reading must be complete. Non-trivial: at least two threads waited for each other.";
    const ASSUMPTIONS: &'static [&'static str] = &["thread schedules are sampled; the meeting in the callbacks makes all tasks run at the same time once per iteration"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 500 } else { 10_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Crowd> {
        let t = prop_oneof![1 => Just(1usize), 6 => 2usize..6, 2 => 6usize..12, 1 => Just(24usize)];
        (pfile(vec![3, 8, 30, 300]), prop_oneof![3 => prop::collection::vec(t.clone(), 1), 1 => prop::collection::vec(t, 2..4)], 0u8..3, prop_oneof![4 => Just(0u8), 5 => 1u8..6])
            .prop_map(|(file, tasks, at, nested)| Crowd { file, tasks, at, nested })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<Crowd> {
        vec![
            Crowd { file: PFile::Many { blocks: 1500, per: 2, salt: 3 }, tasks: vec![8], at: 0, nested: 0 },
            Crowd { file: PFile::Many { blocks: 40, per: 3, salt: 4 }, tasks: vec![32], at: 0, nested: 1 },
        ]
    }
    fn run(c: &Crowd, ctx: &mut Ctx) -> R {
        let f = c.file.file();
        let p = ctx.path("a.osm.pbf");
        f.write(&p, 0)?;
        let blocks: usize = f.blocks.iter().filter(|b| b.unknown.is_none()).map(|b| b.repeat as usize).sum();
        let (r, seq) = read_seq(&p)?;
        let total = seq.len();
        let many: usize = c.tasks.iter().map(|t| (*t).min(blocks)).sum();
        ctx.nontrivial(many >= 2);
        ctx.when(c.tasks.len() > 1, "several iterations at the same time");
        ctx.when(c.tasks.iter().any(|t| *t > blocks), "more tasks than blocks");
        ctx.label(["nothing nested", "opens and reads", "reads with the same reader", "reads in parallel", "counts", "computes the bounding box"][c.nested as usize % 6]);
        // nested pools spin
        let mut nesting = if c.nested == 0 { 0 } else { 4 };
        if c.nested >= 3 && many > 8 {
            nesting = 1;
        }
        let meeting = Arc::new(Meeting::default());
        let nests = Arc::new(AtomicI64::new(nesting));
        let one = |tasks: usize| -> R {
            let seen = Arc::new(Mutex::new((HashSet::<ThreadId>::new(), Vec::new())));
            let inside = Arc::new(AtomicI64::new(0));
            let most = Arc::new(AtomicI64::new(0));
            let (s2, i2, m2, meet, r2, p2, kind, at, nests) = (seen.clone(), inside.clone(), most.clone(), meeting.clone(), r.clone(), p.clone(), c.nested % 6, c.at as u64, nests.clone());
            let calls = Mutex::new(std::collections::HashMap::<ThreadId, u64>::new());
            catch(|| {
                r.parallel_for_each(tasks, move |e| {
                    let n = i2.fetch_add(1, Ordering::SeqCst) + 1;
                    m2.fetch_max(n, Ordering::SeqCst);
                    let me = std::thread::current().id();
                    let k = {
                        let mut g = calls.lock().unwrap();
                        let k = g.entry(me).or_insert(0);
                        *k += 1;
                        *k - 1
                    };
                    {
                        let mut g = s2.lock().unwrap();
                        g.0.insert(me);
                        if !e.is_sentinel() {
                            g.1.push(key_lib(&e));
                        }
                    }
                    // every block ends with a call, so that a thread that has got a block gets here
                    let res = if k == at && !e.is_sentinel() || k <= at && e.is_sentinel() {
                        meet.wait(many);
                        if nests.fetch_sub(1, Ordering::SeqCst) > 0 { nested(&p2, &r2, kind, total) } else { Ok(()) }
                    } else {
                        Ok(())
                    };
                    i2.fetch_sub(1, Ordering::SeqCst);
                    res
                })
            })
            .map_err(|p| format!("parallel_for_each panicked: {p}"))?
            .map_err(|e| format!("parallel_for_each failed: {e:#}"))?;
            let g = seen.lock().unwrap();
            if g.0.len() > tasks || most.load(Ordering::SeqCst) > tasks as i64 {
                return Err(format!("{} threads, {} at once, for {tasks} tasks", g.0.len(), most.load(Ordering::SeqCst)));
            }
            let mut got = g.1.clone();
            got.sort();
            let mut want: Vec<_> = seq.iter().map(key_lib).collect();
            want.sort();
            if got != want {
                return Err(format!("{} elements delivered of {total}", got.len()));
            }
            Ok(())
        };
        std::thread::scope(|s| {
            let hs: Vec<_> = c.tasks.iter().map(|t| s.spawn(|| one(*t))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect::<R>()
        })?;
        let n = meeting.there.lock().unwrap().len();
        ctx.count("threads that waited for each other", n as u64);
        Ok(())
    }
}
