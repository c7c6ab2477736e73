//! The PBF side without the apidb feature, compared with the build that has it.
use crate::driver::*;
use crate::enc::{efile, joined, spoiled, EBlock, EFile, SPOILS};
use crate::gen::{expand, mix, Bulk};
use crate::twin::{produce, Job};
use crate::wire::Comp;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::os::unix::process::CommandExt;
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlainCase {
    pub file: EFile,
    /// a long run instead of the blocks
    pub run: Option<Bulk>,
    /// how it is damaged
    pub spoil: Option<(u8, u64)>,
    pub zlib: bool,
    pub buffer: usize,
    pub block: usize,
    pub tasks: usize,
    pub time: i64,
}

fn other_build(input: &Path, out: &Path, j: &Job) -> R {
    let io = |e: std::io::Error| e.to_string();
    let exe = std::env::current_exe().map_err(io)?.with_file_name("plain");
    let mut cmd = std::process::Command::new(exe);
    cmd.args([input, out]).args([(j.zlib as u8).to_string(), j.buffer.to_string(), j.block.to_string(), j.tasks.to_string(), j.time.to_string()]);
    cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            // lost workers spin
            let l = libc::rlimit { rlim_cur: 200, rlim_max: 200 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(|e| format!("cannot run the other build: {e}"))?;
    let mut x = 1u64;
    let mut rounds = 0;
    loop {
        if let Some(s) = child.try_wait().map_err(io)? {
            return if s.success() { Ok(()) } else { Err(format!("the build without apidb ended with {s}")) };
        }
        // some work while waiting: a process whose threads all sleep is taken for hanging
        for _ in 0..20_000 {
            x = mix(x);
        }
        std::hint::black_box(x);
        std::thread::sleep(std::time::Duration::from_millis(1));
        rounds += 1;
        if rounds > 300_000 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the build without apidb does not come to an end".into());
        }
    }
}

pub struct C33;
impl Prop for C33 {
    type Case = PlainCase;
    const ID: &'static str = "C33";
    const SHARDS: u32 = 4;
    const RULE: &'static str = "Independently encoded files (all encoding choices, long runs, and damaged ones; one with 40000 empty blocks) and configurations, given to the same program built against osm-io with its default features and against osm-io without the apidb feature, without optimisation and with overflow checks: header, elements, counts, bounding box, parallel delivery, a formatted time, and the files written by the sequential writer, the parallel writer and a block copy must be the same to the byte, including whether each step succeeds. Non-trivial: the log of the run with default features has at least two elements.";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 400 } else { 20_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<PlainCase> {
        let run = (0u8..3, prop::sample::select(vec![100usize, 8000, 8001, 9000]), any::<u64>()).prop_map(|(kind, n, salt)| Bulk { kind, n, start: 1, step: 1, salt, vocab: 10, versions: 1, heavy: 0, wide: false });
        let spoil = prop_oneof![3 => Just(None), 1 => (0..SPOILS, any::<u64>()).prop_map(Some)];
        let conf = (any::<bool>(), prop::sample::select(vec![1usize, 3, 100, 20_000]), prop::sample::select(vec![1usize, 7, 100, 8000]), 1usize..5, any::<i64>());
        (joined(efile(400, false)), prop_oneof![30 => Just(None), 1 => run.prop_map(Some)], spoil, conf)
            .prop_map(|(file, run, spoil, (zlib, buffer, block, tasks, time))| PlainCase { file, run, spoil, zlib, buffer, block, tasks, time: if time % 3 == 0 { time } else { time % 4_000_000_000_000_000 } })
            .boxed()
    }
    fn fixed(_: Tier) -> Vec<PlainCase> {
        // many empty blocks between others: the other build is not optimised
        let run = |kind| expand(&Bulk { kind, n: 5, start: 10, step: 3, salt: 1, vocab: 4, versions: 1, heavy: 0, wide: false });
        let mut file = EFile::plain(vec![run(0), run(1)], Comp::Raw);
        file.blocks.insert(1, EBlock { unknown: None, comp: Comp::Raw, index: None, gran: None, date: None, lat_off: None, lon_off: None, groups: vec![], salt: 0, repeat: 40_000 });
        vec![PlainCase { file, run: None, spoil: None, zlib: true, buffer: 10, block: 10, tasks: 2, time: 0 }]
    }
    fn run(c: &PlainCase, ctx: &mut Ctx) -> R {
        let io = |e: std::io::Error| e.to_string();
        let input = ctx.path("in.osm.pbf");
        let f = match &c.run {
            Some(b) => EFile::plain(expand(b).chunks(3000).map(|v| v.to_vec()).collect(), Comp::Zlib(6)),
            None => c.file.clone(),
        };
        match c.spoil {
            Some((how, salt)) => std::fs::write(&input, spoiled(&f, how, salt)).map_err(io)?,
            None => f.write(&input, 0)?,
        }
        ctx.when(c.spoil.is_some(), "damaged");
        let job = Job { zlib: c.zlib, buffer: c.buffer.max(c.block), block: c.block, tasks: c.tasks, time: c.time };
        let dirs = [ctx.path("with"), ctx.path("without")];
        for d in &dirs {
            std::fs::create_dir(d).map_err(io)?;
        }
        // pools of as many threads as there are CPUs spin
        let pick = std::process::id().wrapping_add(c.time as u32);
        let _few = if c.time % 16 == 0 { None } else { crate::io::Cpus::limit(2, pick) };
        produce(&input, &dirs[0], &job);
        other_build(&input, &dirs[1], &job)?;
        let log = std::fs::read_to_string(dirs[0].join("log.txt")).map_err(io)?;
        ctx.nontrivial(log.lines().filter(|l| l.starts_with("Node {") || l.starts_with("Way {") || l.starts_with("Relation {")).count() >= 2);
        for name in ["log.txt", "seq.osm.pbf", "par.osm.pbf", "blocks.osm.pbf"] {
            let [a, b] = [0, 1].map(|i| std::fs::read(dirs[i].join(name)).ok());
            // of a parallel writer that failed nothing is promised
            if name != "log.txt" && c.spoil.is_some() {
                continue;
            }
            if a != b {
                let text = |x: Option<Vec<u8>>| x.map(|v| String::from_utf8_lossy(&v).into_owned()).unwrap_or_default();
                let (a, b) = (text(a), text(b));
                let at = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(a.lines().count().min(b.lines().count()));
                let line = |s: &str| s.lines().nth(at).unwrap_or("nothing").chars().take(300).collect::<String>();
                return Err(format!("{name} differs: {} bytes with apidb, {} without; line {at}: {:?} and {:?}", a.len(), b.len(), line(&a), line(&b)));
            }
            ctx.when(a.is_some() && name != "log.txt", "files compared");
        }
        Ok(())
    }
}
