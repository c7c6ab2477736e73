mod copy;
mod schema;
mod sysfault;
mod driver;
mod enc;
mod gen;
mod io;
mod model;
mod props;
mod twin;
mod wire;

#[global_allocator]
static ALLOC: props::damage::alloc::Tracking = props::damage::alloc::Tracking;

use driver::{entry, Entry, Tier};
use std::path::PathBuf;

fn registry() -> Vec<Entry> {
    use props::*;
    vec![
        entry::<pbf::C01>(),
        entry::<pbf::C02>(),
        entry::<pbf::C03>(),
        entry::<pbf::C04>(),
        entry::<par::C05>(),
        entry::<par::C06>(),
        entry::<par::C07>(),
        entry::<misc::C08>(),
        entry::<damage::C09>(),
        entry::<pbf::C10>(),
        entry::<par::C11>(),
        entry::<dump::C12>(),
        entry::<dump::C13>(),
        entry::<dump::C14>(),
        entry::<dump::C15>(),
        entry::<dump::C16>(),
        entry::<dump::C17>(),
        entry::<faults::C18>(),
        entry::<misc::C19>(),
        entry::<par::C20>(),
        entry::<dump::C21>(),
        entry::<pbf::C22>(),
        entry::<together::C23>(),
        entry::<pbf::C24>(),
        entry::<broken::C25>(),
        entry::<memory::C26>(),
        entry::<effects::C27>(),
        entry::<fine::C28>(),
        entry::<pipes::C29>(),
        entry::<refuse::C30>(),
        entry::<refuse::C31>(),
        entry::<crowd::C32>(),
        entry::<plain::C33>(),
        entry::<restore::C34>(),
        entry::<sys::C35>(),
        entry::<linear::C36>(),
        entry::<order::C37>(),
        entry::<values::C38>(),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // far from UTC, and changing during the year: nothing may depend on where a program runs
    if std::env::var_os("VERIF_ELSEWHERE").is_none() {
        std::env::set_var("TZ", "ZAA-5:45ZBB-7:15,M3.2.0,M11.1.0");
        std::env::set_var("LC_ALL", "tr_TR.UTF-8");
        std::env::set_var("LANG", "tr_TR.UTF-8");
    }
    if matches!(a.get(1).map(|s| s.as_str()), Some("shard" | "one" | "replay")) {
        // half of what systems usually allow: what keeps a file open for every block or object fails
        unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            l.rlim_cur = l.rlim_max.min(512);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
    }
    let reg = registry();
    let find = |id: &str| reg.iter().find(|e| e.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(3) });
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for e in &reg {
                println!("{}", e.id);
            }
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            std::process::exit(driver::supervise(find(&a[2]), tier(&t), seed));
        }
        Some("shard") => {
            let e = find(&a[2]);
            (e.shard)(tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &PathBuf::from(&a[7]), &PathBuf::from(&a[8]));
        }
        Some("one") => {
            let e = find(&a[2]);
            std::process::exit((e.one)(&PathBuf::from(&a[3]), &PathBuf::from(&a[4]), 1));
        }
        // the output of a case of C22, in a process of its own
        Some("produce") => std::process::exit(props::pbf::produce_main(&PathBuf::from(&a[2]), &PathBuf::from(&a[3]))),
        Some("replay") => {
            let e = find(&a[2]);
            let s = driver::new_scratch();
            let rc = (e.one)(&PathBuf::from(&a[3]), &s, a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1));
            let _ = std::fs::remove_dir_all(&s);
            if rc == 1 {
                println!("VIOLATION property={} replay={}", e.id, a[3]);
            }
            std::process::exit(rc);
        }
        _ => {
            eprintln!("usage: verif list | run ID [quick|thorough] | replay ID FILE [repeat]");
            std::process::exit(3);
        }
    }
}
