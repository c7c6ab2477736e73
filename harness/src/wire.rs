//! Independent encoder and strict decoder of the .osm.pbf format, written from the published
//! format description. Shares no code with osm-io (only zlib itself comes from flate2).
use crate::model::*;
use std::io::{Read, Write};

// ---------------------------------------------------------------- protobuf writing

#[derive(Clone, Default)]
pub struct Pb(pub Vec<u8>);

pub fn put_varint(b: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        b.push((v as u8) | 0x80);
        v >>= 7;
    }
    b.push(v as u8);
}

pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

impl Pb {
    pub fn new() -> Pb {
        Pb(vec![])
    }
    pub fn key(&mut self, field: u32, wt: u32) {
        put_varint(&mut self.0, ((field << 3) | wt) as u64);
    }
    pub fn varint(&mut self, field: u32, v: u64) -> &mut Self {
        self.key(field, 0);
        put_varint(&mut self.0, v);
        self
    }
    pub fn int(&mut self, field: u32, v: i64) -> &mut Self {
        self.varint(field, v as u64)
    }
    pub fn sint(&mut self, field: u32, v: i64) -> &mut Self {
        self.varint(field, zigzag(v))
    }
    pub fn bytes(&mut self, field: u32, b: &[u8]) -> &mut Self {
        self.key(field, 2);
        put_varint(&mut self.0, b.len() as u64);
        self.0.extend_from_slice(b);
        self
    }
    pub fn packed(&mut self, field: u32, vals: &[u64]) -> &mut Self {
        if vals.is_empty() {
            return self;
        }
        let mut p = vec![];
        for v in vals {
            put_varint(&mut p, *v);
        }
        self.bytes(field, &p)
    }
    pub fn unpacked(&mut self, field: u32, vals: &[u64]) -> &mut Self {
        for v in vals {
            self.varint(field, *v);
        }
        self
    }
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize, Hash)]
pub enum Comp {
    Raw,
    /// raw with the redundant raw_size
    RawSized,
    Zlib(u8),
}

/// Encode a Blob message.
pub fn blob(payload: &[u8], comp: Comp) -> Vec<u8> {
    let mut b = Pb::new();
    match comp {
        Comp::Raw => {
            b.bytes(1, payload);
        }
        Comp::RawSized => {
            b.bytes(1, payload);
            b.int(2, payload.len() as i64);
        }
        Comp::Zlib(l) => {
            b.int(2, payload.len() as i64);
            b.bytes(3, &zlib(payload, l as u32));
        }
    }
    b.0
}

/// Length prefix, BlobHeader and Blob.
pub fn frame(ty: &str, blob: &[u8], indexdata: Option<&[u8]>) -> Vec<u8> {
    let mut h = Pb::new();
    h.bytes(1, ty.as_bytes());
    if let Some(ix) = indexdata {
        h.bytes(2, ix);
    }
    h.int(3, blob.len() as i64);
    let mut out = (h.0.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(&h.0);
    out.extend_from_slice(blob);
    out
}

pub fn header_block(i: &crate::gen::Info) -> Vec<u8> {
    let mut h = Pb::new();
    if let Some(b) = i.bbox {
        let mut p = Pb::new();
        // left, right, top, bottom
        p.sint(1, b[0]).sint(2, b[2]).sint(3, b[3]).sint(4, b[1]);
        h.bytes(1, &p.0);
    }
    for f in &i.required {
        h.bytes(4, f.as_bytes());
    }
    for f in &i.optional {
        h.bytes(5, f.as_bytes());
    }
    if let Some(s) = &i.program {
        h.bytes(16, s.as_bytes());
    }
    if let Some(s) = &i.source {
        h.bytes(17, s.as_bytes());
    }
    if let Some(v) = i.ts {
        h.int(32, v);
    }
    if let Some(v) = i.seq {
        h.int(33, v);
    }
    if let Some(s) = &i.url {
        h.bytes(34, s.as_bytes());
    }
    h.0
}

// ---------------------------------------------------------------- protobuf reading

#[derive(Debug, Clone)]
pub enum Val<'a> {
    V(u64),
    B(&'a [u8]),
    F64(u64),
    F32(u32),
}

pub fn get_varint(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*p).ok_or("truncated varint")?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}

pub fn unzig(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}

pub fn fields(b: &[u8]) -> Result<Vec<(u32, Val<'_>)>, String> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let k = get_varint(b, &mut p)?;
        let f = (k >> 3) as u32;
        if f == 0 {
            return Err("field number 0".into());
        }
        match k & 7 {
            0 => out.push((f, Val::V(get_varint(b, &mut p)?))),
            1 => {
                let s = b.get(p..p + 8).ok_or("truncated fixed64")?;
                p += 8;
                out.push((f, Val::F64(u64::from_le_bytes(s.try_into().unwrap()))));
            }
            2 => {
                let n = get_varint(b, &mut p)? as usize;
                let s = b.get(p..p.checked_add(n).ok_or("length")?).ok_or("truncated bytes")?;
                p += n;
                out.push((f, Val::B(s)));
            }
            5 => {
                let s = b.get(p..p + 4).ok_or("truncated fixed32")?;
                p += 4;
                out.push((f, Val::F32(u32::from_le_bytes(s.try_into().unwrap()))));
            }
            w => return Err(format!("wire type {w}")),
        }
    }
    Ok(out)
}

fn ints(v: &Val, out: &mut Vec<u64>) -> Result<(), String> {
    match v {
        Val::V(x) => out.push(*x),
        Val::B(b) => {
            let mut p = 0;
            while p < b.len() {
                out.push(get_varint(b, &mut p)?);
            }
        }
        _ => return Err("fixed in a varint field".into()),
    }
    Ok(())
}

fn one(v: &Val) -> Result<u64, String> {
    match v {
        Val::V(x) => Ok(*x),
        _ => Err("varint expected".into()),
    }
}

fn bytes<'a>(v: &Val<'a>) -> Result<&'a [u8], String> {
    match v {
        Val::B(x) => Ok(x),
        _ => Err("bytes expected".into()),
    }
}

fn string(v: &Val) -> Result<String, String> {
    String::from_utf8(bytes(v)?.to_vec()).map_err(|_| "not UTF-8".into())
}

fn i32_of(v: u64, what: &str) -> Result<i32, String> {
    i32::try_from(v as i64).map_err(|_| format!("{what} does not fit int32"))
}

// ---------------------------------------------------------------- file level

#[derive(Debug, Clone)]
pub struct RawBlock {
    pub ty: String,
    /// file offsets: start of the length prefix, of the header, of the blob, and the end
    pub at: [usize; 4],
    pub comp: &'static str,
    pub payload: Vec<u8>,
    pub has_index: bool,
}

/// Split a file into blocks, checking every size against the format.
pub fn split_file(b: &[u8]) -> Result<Vec<RawBlock>, String> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let n = out.len();
        let e = |m: String| format!("block {n}: {m}");
        let at0 = p;
        let lenb = b.get(p..p + 4).ok_or_else(|| e("truncated length".into()))?;
        let hl = u32::from_be_bytes(lenb.try_into().unwrap()) as usize;
        p += 4;
        if hl == 0 || hl >= 64 * 1024 {
            return Err(e(format!("header length {hl} outside the limits")));
        }
        let hb = b.get(p..p + hl).ok_or_else(|| e("truncated header".into()))?;
        let at1 = p;
        p += hl;
        let mut ty = None;
        let mut size = None;
        let mut has_index = false;
        for (f, v) in fields(hb).map_err(&e)? {
            match f {
                1 => ty = Some(string(&v).map_err(&e)?),
                2 => has_index = true,
                3 => size = Some(i32_of(one(&v).map_err(&e)?, "datasize").map_err(&e)?),
                _ => {}
            }
        }
        let ty = ty.ok_or_else(|| e("no type".into()))?;
        let size = size.ok_or_else(|| e("no datasize".into()))?;
        if !(0..32 * 1024 * 1024).contains(&size) {
            return Err(e(format!("datasize {size} outside the limits")));
        }
        let at2 = p;
        let bb = b.get(p..p + size as usize).ok_or_else(|| e("truncated blob".into()))?;
        p += size as usize;
        let mut raw = None;
        let mut raw_size = None;
        let mut z = None;
        for (f, v) in fields(bb).map_err(&e)? {
            match f {
                1 => raw = Some(bytes(&v).map_err(&e)?),
                2 => raw_size = Some(i32_of(one(&v).map_err(&e)?, "raw_size").map_err(&e)?),
                3 => z = Some(bytes(&v).map_err(&e)?),
                _ => return Err(e(format!("unexpected blob field {f}"))),
            }
        }
        let (comp, payload) = match (raw, z) {
            (Some(r), None) => ("raw", r.to_vec()),
            (None, Some(z)) => {
                let mut d = flate2::read::ZlibDecoder::new(z);
                let mut o = vec![];
                d.read_to_end(&mut o).map_err(|x| e(format!("zlib: {x}")))?;
                if d.total_in() as usize != z.len() {
                    return Err(e("bytes after the zlib stream".into()));
                }
                if raw_size.is_none() {
                    return Err(e("zlib without raw_size".into()));
                }
                ("zlib", o)
            }
            _ => return Err(e("blob without exactly one payload".into())),
        };
        if let Some(rs) = raw_size {
            if rs as usize != payload.len() {
                return Err(e(format!("raw_size {rs} but payload has {}", payload.len())));
            }
        }
        if payload.len() >= 32 * 1024 * 1024 {
            return Err(e("payload above 32 MiB".into()));
        }
        out.push(RawBlock { ty, at: [at0, at1, at2, p], comp, payload, has_index });
    }
    Ok(out)
}

pub fn decode_header(b: &[u8]) -> Result<crate::gen::Info, String> {
    let mut i = crate::gen::Info { bbox: None, required: vec![], optional: vec![], program: None, source: None, ts: None, seq: None, url: None };
    for (f, v) in fields(b)? {
        match f {
            1 => {
                let (mut l, mut r, mut t, mut bo) = (None, None, None, None);
                for (f, v) in fields(bytes(&v)?)? {
                    let x = unzig(one(&v)?);
                    match f {
                        1 => l = Some(x),
                        2 => r = Some(x),
                        3 => t = Some(x),
                        4 => bo = Some(x),
                        _ => {}
                    }
                }
                match (l, bo, r, t) {
                    (Some(l), Some(b), Some(r), Some(t)) => i.bbox = Some([l, b, r, t]),
                    _ => return Err("bbox with a missing edge".into()),
                }
            }
            4 => i.required.push(string(&v)?),
            5 => i.optional.push(string(&v)?),
            16 => i.program = Some(string(&v)?),
            17 => i.source = Some(string(&v)?),
            32 => i.ts = Some(one(&v)? as i64),
            33 => i.seq = Some(one(&v)? as i64),
            34 => i.url = Some(string(&v)?),
            _ => {}
        }
    }
    Ok(i)
}

#[derive(Debug, Clone, Default)]
pub struct DataBlock {
    pub strings: Vec<String>,
    pub groups: Vec<Vec<El>>,
    pub unused_strings: usize,
}

struct Dec<'a> {
    st: Vec<&'a [u8]>,
    used: std::cell::RefCell<Vec<bool>>,
    gran: i64,
    lat_off: i64,
    lon_off: i64,
    date: i64,
}

impl<'a> Dec<'a> {
    fn s(&self, i: u64) -> Result<String, String> {
        let b = self.st.get(i as usize).ok_or_else(|| format!("string index {i} of {}", self.st.len()))?;
        self.used.borrow_mut()[i as usize] = true;
        String::from_utf8(b.to_vec()).map_err(|_| "string not UTF-8".into())
    }
    fn tags(&self, k: &[u64], v: &[u64]) -> Result<Vec<(String, String)>, String> {
        if k.len() != v.len() {
            return Err("keys and vals differ in length".into());
        }
        k.iter()
            .zip(v)
            .map(|(k, v)| {
                if *k == 0 {
                    return Err("tag key uses the reserved string 0".to_string());
                }
                Ok((self.s(*k)?, self.s(*v)?))
            })
            .collect()
    }
    /// full metadata is required of a writer
    fn info(&self, b: Option<&[u8]>, id: i64, tags: Vec<(String, String)>) -> Result<Meta, String> {
        let b = b.ok_or("no metadata")?;
        let mut m = Meta { id, version: 0, ts: 0, changeset: 0, uid: 0, user: String::new(), visible: true, tags };
        let mut seen = 0;
        for (f, v) in fields(b)? {
            let x = one(&v)?;
            match f {
                1 => m.version = i32_of(x, "version")?,
                2 => m.ts = (x as i64).wrapping_mul(self.date),
                3 => m.changeset = x as i64,
                4 => m.uid = i32_of(x, "uid")?,
                5 => m.user = self.s(x)?,
                6 => m.visible = x != 0,
                _ => continue,
            }
            seen |= 1 << f;
        }
        if seen & 0x3e != 0x3e {
            return Err(format!("metadata incomplete ({seen:b})"));
        }
        Ok(m)
    }
}

pub fn decode_data(b: &[u8]) -> Result<DataBlock, String> {
    let fs = fields(b)?;
    let mut d = Dec { st: vec![], used: Default::default(), gran: 100, lat_off: 0, lon_off: 0, date: 1000 };
    let mut has_st = false;
    for (f, v) in &fs {
        match f {
            1 => {
                has_st = true;
                for (f, v) in fields(bytes(v)?)? {
                    if f == 1 {
                        d.st.push(bytes(&v)?);
                    }
                }
            }
            17 => d.gran = i32_of(one(v)?, "granularity")? as i64,
            18 => d.date = i32_of(one(v)?, "date_granularity")? as i64,
            19 => d.lat_off = one(v)? as i64,
            20 => d.lon_off = one(v)? as i64,
            _ => {}
        }
    }
    if !has_st {
        return Err("no string table".into());
    }
    d.used = std::cell::RefCell::new(vec![false; d.st.len()]);
    let mut groups = vec![];
    for (f, v) in &fs {
        if *f != 2 {
            continue;
        }
        let mut els = vec![];
        let mut kinds = std::collections::HashSet::new();
        for (f, v) in fields(bytes(v)?)? {
            kinds.insert(f);
            let b = bytes(&v)?;
            match f {
                1 => els.push(dec_node(&d, b)?),
                2 => dec_dense(&d, b, &mut els)?,
                3 => els.push(dec_way(&d, b)?),
                4 => els.push(dec_rel(&d, b)?),
                5 => return Err("changeset group".into()),
                _ => {}
            }
        }
        if kinds.len() > 1 {
            return Err("a group mixes types".into());
        }
        groups.push(els);
    }
    let strings = d.st.iter().map(|b| String::from_utf8(b.to_vec()).map_err(|_| "string not UTF-8".to_string())).collect::<Result<Vec<_>, _>>()?;
    let unused = d.used.borrow().iter().skip(1).filter(|u| !**u).count();
    Ok(DataBlock { strings, groups, unused_strings: unused })
}

fn dec_node(d: &Dec, b: &[u8]) -> Result<El, String> {
    let (mut id, mut lat, mut lon, mut k, mut vv, mut info) = (None, None, None, vec![], vec![], None);
    for (f, v) in fields(b)? {
        match f {
            1 => id = Some(unzig(one(&v)?)),
            2 => ints(&v, &mut k)?,
            3 => ints(&v, &mut vv)?,
            4 => info = Some(bytes(&v)?),
            8 => lat = Some(unzig(one(&v)?)),
            9 => lon = Some(unzig(one(&v)?)),
            _ => {}
        }
    }
    let tags = d.tags(&k, &vv)?;
    let m = d.info(info, id.ok_or("no id")?, tags)?;
    Ok(El { m, b: Body::Node { lat: d.lat_off + d.gran * lat.ok_or("no lat")?, lon: d.lon_off + d.gran * lon.ok_or("no lon")? } })
}

fn dec_way(d: &Dec, b: &[u8]) -> Result<El, String> {
    let (mut id, mut refs, mut k, mut vv, mut info) = (None, vec![], vec![], vec![], None);
    for (f, v) in fields(b)? {
        match f {
            1 => id = Some(one(&v)? as i64),
            2 => ints(&v, &mut k)?,
            3 => ints(&v, &mut vv)?,
            4 => info = Some(bytes(&v)?),
            8 => ints(&v, &mut refs)?,
            _ => {}
        }
    }
    let tags = d.tags(&k, &vv)?;
    let m = d.info(info, id.ok_or("no id")?, tags)?;
    let mut last = 0i64;
    let refs = refs
        .into_iter()
        .map(|r| {
            last = last.wrapping_add(unzig(r));
            last
        })
        .collect();
    Ok(El { m, b: Body::Way { refs } })
}

fn dec_rel(d: &Dec, b: &[u8]) -> Result<El, String> {
    let (mut id, mut roles, mut ids, mut types, mut k, mut vv, mut info) = (None, vec![], vec![], vec![], vec![], vec![], None);
    for (f, v) in fields(b)? {
        match f {
            1 => id = Some(one(&v)? as i64),
            2 => ints(&v, &mut k)?,
            3 => ints(&v, &mut vv)?,
            4 => info = Some(bytes(&v)?),
            8 => ints(&v, &mut roles)?,
            9 => ints(&v, &mut ids)?,
            10 => ints(&v, &mut types)?,
            _ => {}
        }
    }
    if roles.len() != ids.len() || ids.len() != types.len() {
        return Err("member arrays differ in length".into());
    }
    let tags = d.tags(&k, &vv)?;
    let m = d.info(info, id.ok_or("no id")?, tags)?;
    let mut last = 0i64;
    let mut members = vec![];
    for i in 0..ids.len() {
        last = last.wrapping_add(unzig(ids[i]));
        if types[i] > 2 {
            return Err(format!("member type {}", types[i]));
        }
        members.push((types[i] as u8, last, d.s(roles[i])?));
    }
    Ok(El { m, b: Body::Rel { members } })
}

fn dec_dense(d: &Dec, b: &[u8], els: &mut Vec<El>) -> Result<(), String> {
    let (mut id, mut lat, mut lon, mut kv, mut info) = (vec![], vec![], vec![], vec![], None);
    for (f, v) in fields(b)? {
        match f {
            1 => ints(&v, &mut id)?,
            5 => info = Some(bytes(&v)?),
            8 => ints(&v, &mut lat)?,
            9 => ints(&v, &mut lon)?,
            10 => ints(&v, &mut kv)?,
            _ => {}
        }
    }
    let n = id.len();
    let (mut ver, mut ts, mut cs, mut uid, mut sid, mut vis) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    for (f, v) in fields(info.ok_or("no dense metadata")?)? {
        match f {
            1 => ints(&v, &mut ver)?,
            2 => ints(&v, &mut ts)?,
            3 => ints(&v, &mut cs)?,
            4 => ints(&v, &mut uid)?,
            5 => ints(&v, &mut sid)?,
            6 => ints(&v, &mut vis)?,
            _ => {}
        }
    }
    for (what, l) in [("lat", lat.len()), ("lon", lon.len()), ("version", ver.len()), ("timestamp", ts.len()), ("changeset", cs.len()), ("uid", uid.len()), ("user_sid", sid.len())] {
        if l != n {
            return Err(format!("dense array {what} has {l} entries for {n} nodes"));
        }
    }
    if !vis.is_empty() && vis.len() != n {
        return Err("dense visible array length".into());
    }
    let mut kvi = kv.iter();
    let (mut lid, mut llat, mut llon, mut lts, mut lcs, mut luid, mut lsid) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i64, 0i64);
    for i in 0..n {
        lid = lid.wrapping_add(unzig(id[i]));
        llat += unzig(lat[i]);
        llon += unzig(lon[i]);
        lts += unzig(ts[i]);
        lcs = lcs.wrapping_add(unzig(cs[i]));
        luid += unzig(uid[i]);
        lsid += unzig(sid[i]);
        if uid[i] > u32::MAX as u64 || sid[i] > u32::MAX as u64 {
            return Err("sint32 delta too large".into());
        }
        let mut tags = vec![];
        if !kv.is_empty() {
            loop {
                let k = *kvi.next().ok_or("keys_vals too short")?;
                if k == 0 {
                    break;
                }
                let v = *kvi.next().ok_or("keys_vals too short")?;
                tags.push((d.s(k)?, d.s(v)?));
            }
        }
        if lsid < 0 {
            return Err("negative user_sid".into());
        }
        els.push(El {
            m: Meta {
                id: lid,
                version: i32_of(ver[i], "version")?,
                ts: lts * d.date,
                changeset: lcs,
                uid: i32::try_from(luid).map_err(|_| "uid does not fit int32")?,
                user: d.s(lsid as u64)?,
                visible: vis.is_empty() || vis[i] != 0,
                tags,
            },
            b: Body::Node { lat: d.lat_off + d.gran * llat, lon: d.lon_off + d.gran * llon },
        });
    }
    if kvi.next().is_some() {
        return Err("keys_vals too long".into());
    }
    Ok(())
}
