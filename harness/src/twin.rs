//! What the PBF side of osm-io makes of a file. Compiled into the harness, where osm-io has its
//! default features, and into the program in plain/, where it has none.
use osm_io::osm::converters::timestamp_to_iso8601_seconds;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub struct Job {
    pub zlib: bool,
    pub buffer: usize,
    pub block: usize,
    pub tasks: usize,
    pub time: i64,
}

type E = anyhow::Error;

/// Writes log.txt, seq.osm.pbf, par.osm.pbf and blocks.osm.pbf to `out`.
pub fn produce(input: &Path, out: &Path, job: &Job) {
    let mut log = String::new();
    let comp = || if job.zlib { CompressionType::Zlib } else { CompressionType::Uncompressed };
    let mut step = |what: &str, f: &mut dyn FnMut() -> Result<String, E>| {
        let res = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(s)) => s,
            Ok(Err(_)) => "error".into(),
            Err(_) => "panic".into(),
        };
        writeln!(log, "{what}: {res}").unwrap();
    };
    step("time", &mut || timestamp_to_iso8601_seconds(job.time));
    step("header", &mut || {
        let r = Reader::new(input)?;
        Ok(format!("{:?} {:?}", r.info(), r.supported_features()))
    });
    step("elements", &mut || {
        let mut s = String::new();
        for e in Reader::new(input)?.elements()? {
            write!(s, "\n{e:?}")?;
        }
        Ok(s)
    });
    step("count", &mut || Ok(format!("{:?}", Reader::new(input)?.count_objects()?)));
    step("bounding box", &mut || Ok(format!("{:?}", BoundingBoxCalculator::new(input).calc()?)));
    step("parallel", &mut || {
        let all = Arc::new(Mutex::new(vec![]));
        let a = all.clone();
        Reader::new(input)?.parallel_for_each(job.tasks, move |e| {
            a.lock().unwrap().push(format!("{e:?}"));
            Ok(())
        })?;
        let mut all = all.lock().unwrap();
        all.sort();
        Ok(all.join("\n"))
    });
    step("sequential writer", &mut || {
        let r = Reader::new(input)?;
        let mut w = Writer::from_file_info(out.join("seq.osm.pbf"), r.info().clone(), comp())?;
        w.write_header()?;
        for e in r.elements()? {
            w.write_element(e)?;
        }
        w.close()?;
        Ok("written".into())
    });
    step("parallel writer", &mut || {
        let r = Reader::new(input)?;
        let mut w = ParallelWriter::from_file_info(job.buffer, job.block, out.join("par.osm.pbf"), r.info().clone(), comp())?;
        w.write_header()?;
        let mut res = Ok(());
        // all before an element that cannot be read; closed in any case, to end its threads
        let read = catch_unwind(AssertUnwindSafe(|| r.elements().map(|it| it.collect::<Vec<_>>())));
        match read {
            Ok(Ok(v)) => {
                for e in v {
                    res = res.and(w.write_element(e));
                }
            }
            _ => res = Err(anyhow::anyhow!("not read")),
        }
        let closed = w.close();
        res.and(closed)?;
        Ok("written".into())
    });
    step("block copy", &mut || {
        let r = Reader::new(input)?;
        let mut w = Writer::from_file_info(out.join("blocks.osm.pbf"), r.info().clone(), comp())?;
        for b in r.blocks()? {
            w.write_file_block(b)?;
        }
        Ok("written".into())
    });
    std::fs::write(out.join("log.txt"), log).unwrap();
}
