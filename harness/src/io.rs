//! Helpers that drive osm-io's public API.
use crate::driver::catch;
use crate::gen::{mix, split, Info};
use crate::model::*;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use std::path::Path;

pub fn comp(z: bool) -> CompressionType {
    if z {
        CompressionType::Zlib
    } else {
        CompressionType::Uncompressed
    }
}

/// Write with the sequential writer; errors and panics both become Err.
pub fn write_seq(path: &Path, info: &Info, els: &[El], batching: &[u16], zlib: bool) -> Result<(), String> {
    write_seq_lib(path, info.to_lib(), els, batching, zlib)
}

pub fn write_seq_lib(path: &Path, info: FileInfo, els: &[El], batching: &[u16], zlib: bool) -> Result<(), String> {
    // converted as they are written: some runs are large
    let calls = split(batching, els.len())
        .into_iter()
        .map(|(single, r)| if single { Call::One(els[r.start].to_lib()) } else { Call::Many(els[r].iter().map(|e| e.to_lib()).collect()) });
    write_seq_calls(path, info, calls, zlib)
}

pub fn write_seq_calls(path: &Path, info: FileInfo, calls: impl IntoIterator<Item = Call>, zlib: bool) -> Result<(), String> {
    catch(|| -> Result<(), anyhow::Error> {
        let mut w = Writer::from_file_info(path.to_path_buf(), info, comp(zlib))?;
        w.write_header()?;
        for c in calls {
            match c {
                Call::One(e) => w.write_element(e)?,
                Call::Many(v) => w.write_elements(v)?,
            }
        }
        w.close()?;
        Ok(())
    })
    .map_err(|p| format!("sequential writer panicked: {p}"))?
    .map_err(|e| format!("sequential writer failed: {e:#}"))
}

/// One call on a writer.
pub enum Call {
    One(Element),
    Many(Vec<Element>),
}

pub fn write_par(path: &Path, info: &Info, buffer: usize, block: usize, zlib: bool, calls: impl IntoIterator<Item = Call>) -> Result<(), String> {
    write_par_lib(path, info.to_lib(), buffer, block, zlib, calls)
}

pub fn write_par_lib(path: &Path, info: FileInfo, buffer: usize, block: usize, zlib: bool, calls: impl IntoIterator<Item = Call>) -> Result<(), String> {
    catch(|| -> Result<(), anyhow::Error> {
        let mut w = ParallelWriter::from_file_info(buffer, block, path.to_path_buf(), info, comp(zlib))?;
        w.write_header()?;
        for c in calls {
            match c {
                Call::One(e) => w.write_element(e)?,
                Call::Many(v) => w.write_elements(v)?,
            }
        }
        w.close()?;
        Ok(())
    })
    .map_err(|p| format!("parallel writer panicked: {p}"))?
    .map_err(|e| format!("parallel writer failed: {e:#}"))
}

pub fn calls_of(els: &[El], batching: &[u16]) -> Vec<Call> {
    split(batching, els.len())
        .into_iter()
        .map(|(single, r)| if single { Call::One(els[r.start].to_lib()) } else { Call::Many(els[r].iter().map(|e| e.to_lib()).collect()) })
        .collect()
}

/// Sentinels between and within the calls, as a stream from a dump or a parallel iteration has them;
/// none if `salt` is 0.
pub fn sprinkle(calls: Vec<Call>, salt: u32) -> Vec<Call> {
    if salt == 0 {
        return calls;
    }
    let mut n = 0_u64;
    let mut some = || {
        n += 1;
        match mix(salt as u64 ^ n << 32) % 16 {
            0 | 1 => 1,
            2 => 2,
            _ => 0,
        }
    };
    let mut out = vec![];
    for c in calls {
        (0..some()).for_each(|_| out.push(Call::One(Element::Sentinel)));
        out.push(match c {
            Call::Many(v) if v.len() < 10_000 => {
                let mut w = vec![];
                for e in v {
                    (0..some()).for_each(|_| w.push(Element::Sentinel));
                    w.push(e);
                }
                Call::Many(w)
            }
            c => c,
        });
    }
    (0..some()).for_each(|_| out.push(Call::One(Element::Sentinel)));
    (0..some()).for_each(|_| out.push(Call::Many(vec![Element::Sentinel, Element::Sentinel])));
    (0..some()).for_each(|_| out.push(Call::Many(vec![])));
    out
}

/// Open and read everything sequentially.
pub fn read_seq(path: &Path) -> Result<(Reader, Vec<Element>), String> {
    let r = catch(|| Reader::new(path)).map_err(|p| format!("Reader::new panicked: {p}"))?.map_err(|e| format!("Reader::new failed: {e:#}"))?;
    let els = catch(|| -> Result<Vec<Element>, anyhow::Error> { Ok(r.elements()?.collect()) })
        .map_err(|p| format!("reading elements panicked: {p}"))?
        .map_err(|e| format!("elements() failed: {e:#}"))?;
    Ok((r, els))
}

/// Elements without sentinels, as model elements.
pub fn els_of(v: &[Element]) -> Result<Vec<El>, String> {
    v.iter().map(|e| from_lib(e).map(|f| f.el)).collect()
}

/// For half of the sequences with sentinels in between, as a parallel iteration delivers them.
pub fn write_dump(dir: &Path, els: &[El]) -> Result<(), String> {
    let salt = els.first().map_or(0, |e| mix(e.m.id as u64 ^ (els.len() as u64) << 40));
    catch(|| -> Result<(), anyhow::Error> {
        let mut w = osm_io::osm::apidb_dump::write::writer::Writer::new(dir.to_path_buf(), 0)?;
        for (i, e) in els.iter().enumerate() {
            if salt & 1 == 1 && mix(salt ^ i as u64) % 6 == 0 {
                w.write_element(Element::Sentinel)?;
            }
            w.write_element(e.to_lib())?;
        }
        if salt & 3 == 3 {
            w.write_element(Element::Sentinel)?;
        }
        w.close()?;
        Ok(())
    })
    .map_err(|p| format!("dump writer panicked: {p}"))?
    .map_err(|e| format!("dump writer failed: {e:#}"))
}

/// Open a dump. Opening sorts every table with as many spinning threads as the process has CPUs,
/// which dominates the cost of a small dump; most calls therefore see one CPU, every 16th two.
pub fn open_dump(dir: &Path, tmp: &Path) -> Result<osm_io::osm::apidb_dump::read::reader::Reader, anyhow::Error> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let _g = Cpus::limit(if n % 16 == 3 { 2 } else { 1 }, std::process::id() + n);
    osm_io::osm::apidb_dump::read::reader::Reader::new(dir.to_path_buf(), tmp.to_path_buf())
}

pub struct Cpus(libc::cpu_set_t);

impl Cpus {
    /// The calling thread, and the threads and processes it makes, have only so many CPUs until this is dropped.
    pub fn limit(count: u32, pick: u32) -> Option<Cpus> {
        unsafe {
            let mut old: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of_val(&old), &mut old) != 0 {
                return None;
            }
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &old)).collect();
            let mut new: libc::cpu_set_t = std::mem::zeroed();
            for i in 0..count {
                libc::CPU_SET(*cpus.get((pick + i) as usize % cpus.len().max(1))?, &mut new);
            }
            libc::sched_setaffinity(0, std::mem::size_of_val(&new), &new);
            Some(Cpus(old))
        }
    }
}

impl Drop for Cpus {
    fn drop(&mut self) {
        unsafe {
            libc::sched_setaffinity(0, std::mem::size_of_val(&self.0), &self.0);
        }
    }
}

pub fn read_dump_lib(dir: &Path, tmp: &Path) -> Result<Vec<Element>, String> {
    let r = catch(|| open_dump(dir, tmp))
        .map_err(|p| format!("dump Reader::new panicked: {p}"))?
        .map_err(|e| format!("dump Reader::new failed: {e:#}"))?;
    catch(|| -> Result<Vec<Element>, anyhow::Error> { Ok(r.elements()?.collect()) })
        .map_err(|p| format!("reading dump elements panicked: {p}"))?
        .map_err(|e| format!("dump elements() failed: {e:#}"))
}

/// Split a dump reader's output into elements, checking the sentinels: one after each type.
pub fn check_dump_sentinels(got: &[Element]) -> Result<Vec<Element>, String> {
    let mut out = vec![];
    let mut rank = 0u8;
    for (i, e) in got.iter().enumerate() {
        if e.is_sentinel() {
            if rank > 2 {
                return Err(format!("more than three sentinels (at {i})"));
            }
            rank += 1;
        } else {
            let k = key_lib(e);
            if k.0 != rank {
                return Err(format!("element {k:?} at {i} after {rank} sentinels"));
            }
            out.push(e.clone());
        }
    }
    if rank != 3 {
        return Err(format!("{rank} sentinels instead of 3"));
    }
    Ok(out)
}

pub fn lib_sorted_tags(v: &[Element]) -> Result<Vec<El>, String> {
    Ok(sort_tags(els_of(v)?))
}

pub fn diff_els(expected: &[El], got: &[El]) -> Option<String> {
    for (i, (e, g)) in expected.iter().zip(got).enumerate() {
        if e != g {
            return Some(format!("element #{i} of {}: expected {e:?}\n     got {g:?}", expected.len()));
        }
    }
    if expected.len() != got.len() {
        return Some(format!("expected {} elements, got {}", expected.len(), got.len()));
    }
    None
}
