//! The PBF side of osm-io in a build without the apidb feature:
//! plain INPUT OUTDIR ZLIB BUFFER BLOCK TASKS TIME
#[path = "../../harness/src/twin.rs"]
mod twin;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let job = twin::Job { zlib: a[3] == "1", buffer: a[4].parse().unwrap(), block: a[5].parse().unwrap(), tasks: a[6].parse().unwrap(), time: a[7].parse().unwrap() };
    twin::produce(a[1].as_ref(), a[2].as_ref(), &job);
}
