//! Archive records: generation, a plain model, and an encoder and decoder of
//! the published format that share nothing with the code under test but the
//! compression libraries.
use std::io::{Read, Write};
use std::path::Path;

use barc::*;
use body_image::{BodyImage, Recorded, RequestRecorded, Tunables, Tuner};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use crate::ctx::diff;
use crate::gen::{self, canon};
use crate::rng::Rng;

/// Name to values, sorted by name.
pub type Canon = Vec<(String, Vec<Vec<u8>>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Model { pub meta: Canon, pub req_h: Canon, pub req_b: Vec<u8>, pub res_h: Canon, pub res_b: Vec<u8> }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Alg { Plain, Gzip, Brotli }

#[derive(Clone, Copy, Debug)]
pub struct Strat { pub alg: Alg, pub level: u32, pub min: u64, pub check: bool }

impl Strat {
    pub fn plain() -> Strat { Strat { alg: Alg::Plain, level: 0, min: 0, check: false } }

    /// Any strategy; most compress whatever they are given.
    pub fn any(r: &mut Rng) -> Strat {
        match r.below(3) {
            0 => Strat::plain(),
            1 => Strat { alg: Alg::Gzip, level: r.below(10) as u32, min: if r.chance(3, 4) { 0 } else { r.below(9000) }, check: r.chance(1, 2) },
            _ => Strat { alg: Alg::Brotli, level: if r.chance(1, 30) { 2 + r.below(8) as u32 } else { 2 + r.below(3) as u32 }, min: if r.chance(3, 4) { 0 } else { r.below(9000) }, check: r.chance(1, 2) },
        }
    }

    pub fn force(alg: Alg) -> Strat { Strat { alg, level: 2, min: 0, check: false } }

    /// Certain to compress whatever the record.
    pub fn boxed(&self) -> Box<dyn CompressStrategy + Send + Sync> {
        match self.alg {
            Alg::Plain => Box::new(NoCompressStrategy::default()),
            Alg::Gzip => Box::new(GzipCompressStrategy::default().set_min_len(self.min).set_compression_level(self.level).set_check_identity(self.check)),
            Alg::Brotli => Box::new(BrotliCompressStrategy::default().set_min_len(self.min).set_compression_level(self.level).set_check_identity(self.check)),
        }
    }
    pub fn short(&self) -> String { format!("{:?}{}m{}{}", self.alg, self.level, self.min, if self.check { "c" } else { "" }) }
}

pub fn type_headers(r: &mut Rng, mut m: HeaderMap) -> HeaderMap {
    m.remove("content-type");
    if r.chance(3, 4) { m.insert("content-type", HeaderValue::from_static(*r.pick(&["text/plain", "text/html; charset=utf-8", "application/json"]))); }
    m
}

pub fn body_data(r: &mut Rng, max: u64) -> Vec<u8> {
    let l = if r.chance(1, 4) { 0 } else { gen::len(r, max) as usize };
    if r.chance(1, 2) { r.bytes(l) } else { r.text(l) }
}

/// A record with bodies in random states, and its model.
pub fn record(r: &mut Rng, dir: &Path, max: u64) -> (Record, Model) {
    let meta = gen::headers(r);
    let rq = gen::headers(r);
    let req_headers = type_headers(r, rq);
    let rs = gen::headers(r);
    let res_headers = type_headers(r, rs);
    let (q, s) = (body_data(r, max / 2), body_data(r, max));
    let (sq, ss) = (*r.pick(&gen::STATES), *r.pick(&gen::STATES));
    let req_body = gen::body(r, sq, &q, dir);
    let res_body = gen::body(r, ss, &s, dir);
    let m = Model { meta: canon(&meta), req_h: canon(&req_headers), req_b: q, res_h: canon(&res_headers), res_b: s };
    (Record { rec_type: RecordType::Dialog, meta, req_headers, req_body, res_headers, res_body }, m)
}

/// A small record all in RAM, recognisable by its tag.
pub fn tagged(tag: &str, q: Vec<u8>, s: Vec<u8>) -> (Record, Model) {
    let mut meta = HeaderMap::new();
    meta.insert("tag", tag.parse().unwrap());
    let mut h = HeaderMap::new();
    h.insert("content-type", HeaderValue::from_static("text/plain"));
    let m = Model { meta: canon(&meta), req_h: canon(&h), req_b: q.clone(), res_h: canon(&h), res_b: s.clone() };
    (Record { rec_type: RecordType::Dialog, meta, req_headers: h.clone(), req_body: BodyImage::from_slice(q), res_headers: h, res_body: BodyImage::from_slice(s) }, m)
}

/// What differs between a record read and the model, if anything.
pub fn differs(rec: &Record, m: &Model) -> Option<String> {
    if rec.rec_type != RecordType::Dialog { return Some(format!("type {:?}", rec.rec_type)); }
    for (what, got, want) in [("meta", &rec.meta, &m.meta), ("request headers", &rec.req_headers, &m.req_h), ("response headers", &rec.res_headers, &m.res_h)] {
        if &canon(got) != want { return Some(format!("{} differ: {:?} instead of {:?}", what, short(&canon(got)), short(want))); }
    }
    for (what, got, want) in [("request body", rec.req_body(), &m.req_b), ("response body", rec.res_body(), &m.res_b)] {
        if got.len() != want.len() as u64 { return Some(format!("{} length {} instead of {}", what, got.len(), want.len())); }
        match gen::read_all(got) {
            Ok(g) => if &g != want { return Some(format!("{}: {}", what, diff(&g, want))); }
            Err(e) => return Some(format!("{} unreadable: {}", what, e)),
        }
    }
    None
}

fn short(c: &Canon) -> String { let mut s = format!("{:?}", c); if s.len() > 200 { let mut k = 200; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); } s }

/// Reader tunables that accept anything generated here.
pub fn reader_tune(r: &mut Rng, dir: &Path) -> Tunables {
    let ram = match r.below(5) { 0 => 0, 1 => r.below(50), 2 => r.below(5000), 3 => 1 << 24, _ => gen::len(r, 100_000) };
    let mut t = Tuner::new();
    let (ram, max) = match r.below(16) { 0 => (u64::MAX, u64::MAX), 1 => (ram, u64::MAX), _ => (ram, 1 << 30) };
    t.set_max_body_ram(ram).set_max_body(max).set_temp_dir(dir);
    t.set_buffer_size_ram(gen::buf_size(r)).set_buffer_size_fs(gen::buf_size(r));
    t.finish()
}

pub fn model_of(rec: &Record) -> std::io::Result<Model> {
    Ok(Model { meta: canon(&rec.meta), req_h: canon(&rec.req_headers), req_b: gen::read_all(&rec.req_body)?, res_h: canon(&rec.res_headers), res_b: gen::read_all(&rec.res_body)? })
}

// ---- independent format code -------------------------------------------

/// One record as found in a file by the published format.
#[derive(Clone, Debug)]
pub struct Raw { pub at: u64, pub end: u64, pub kind: u8, pub alg: Alg, pub model: Model,
    /// Lengths as given by the head: total, meta, request headers, request body, response headers.
    pub lens: [u64; 5],
    /// Header lines in file order, for meta, request and response.
    pub lines: [Vec<(Vec<u8>, Vec<u8>)>; 3] }

fn hexfield(b: &[u8]) -> Result<u64, String> {
    let mut v = 0u64;
    for d in b {
        let x = match d { b'0'..=b'9' => d - b'0', b'a'..=b'f' => d - b'a' + 10, _ => return Err(format!("byte {:#x} is not a lower-case hex digit", d)) };
        v = v * 16 + u64::from(x);
    }
    Ok(v)
}

pub struct Head { pub len: u64, pub kind: u8, pub alg: u8, pub meta: u64, pub req_h: u64, pub req_b: u64, pub res_h: u64 }

pub fn head(b: &[u8]) -> Result<Head, String> {
    if b.len() < 54 { return Err(format!("head of {} bytes", b.len())); }
    if &b[..6] != b"BARC2 " { return Err(format!("head starts with {:?}", &b[..6])); }
    for i in [18usize, 21, 27, 33, 44] { if b[i] != b' ' { return Err(format!("no space at {} of the head", i)); } }
    if &b[50..54] != b"\r\n\r\n" { return Err("head does not end with a blank line".into()); }
    Ok(Head { len: hexfield(&b[6..18])?, kind: b[19], alg: b[20], meta: hexfield(&b[22..27])?, req_h: hexfield(&b[28..33])?, req_b: hexfield(&b[34..44])?, res_h: hexfield(&b[45..50])? })
}

pub fn head_bytes(h: &Head) -> Vec<u8> {
    let mut v = b"BARC2 ".to_vec();
    v.extend(format!("{:012x}", h.len).bytes());
    v.push(b' ');
    v.push(h.kind);
    v.push(h.alg);
    v.extend(format!(" {:05x} {:05x} {:010x} {:05x}", h.meta, h.req_h, h.req_b, h.res_h).bytes());
    v.extend_from_slice(b"\r\n\r\n");
    v
}

fn lines(block: &[u8]) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let mut out = Vec::new();
    let mut b = block;
    while !b.is_empty() {
        let e = b.windows(2).position(|w| w == b"\r\n").ok_or("header line without CR LF")?;
        let l = &b[..e];
        b = &b[e + 2..];
        let c = l.windows(2).position(|w| w == b": ").ok_or_else(|| format!("header line without separator: {:?}", String::from_utf8_lossy(l)))?;
        out.push((l[..c].to_vec(), l[c + 2..].to_vec()));
    }
    Ok(out)
}

fn group(ls: &[(Vec<u8>, Vec<u8>)]) -> Canon {
    let mut m: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    for (n, v) in ls { m.entry(String::from_utf8_lossy(n).to_lowercase()).or_default().push(v.clone()); }
    m.into_iter().collect()
}

/// A complete gzip stream and nothing else.
pub fn gunzip(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut d = flate2::bufread::GzDecoder::new(b);
    let mut v = Vec::new();
    d.read_to_end(&mut v).map_err(|e| format!("gzip: {}", e))?;
    let left = d.into_inner();
    if !left.is_empty() { return Err(format!("{} bytes after the gzip stream", left.len())); }
    Ok(v)
}

/// A complete Brotli stream and nothing else.
pub fn unbrotli(b: &[u8]) -> Result<Vec<u8>, String> {
    use brotli::{BrotliDecompressStream, BrotliResult, BrotliState};
    let mut st = BrotliState::new(brotli::enc::StandardAlloc::default(), brotli::enc::StandardAlloc::default(), brotli::enc::StandardAlloc::default());
    let (mut avail, mut off, mut total) = (b.len(), 0usize, 0usize);
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let (mut ao, mut oo) = (buf.len(), 0usize);
        let r = BrotliDecompressStream(&mut avail, &mut off, b, &mut ao, &mut oo, &mut buf, &mut total, &mut st);
        out.extend_from_slice(&buf[..oo]);
        match r {
            BrotliResult::ResultSuccess => break,
            BrotliResult::NeedsMoreOutput => {}
            BrotliResult::NeedsMoreInput => return Err("Brotli stream without an end".into()),
            BrotliResult::ResultFailure => return Err("corrupt Brotli stream".into()),
        }
    }
    if avail != 0 { return Err(format!("{} bytes after the Brotli stream", avail)); }
    Ok(out)
}

fn block<'a>(b: &'a [u8], at: &mut usize, len: u64, what: &str) -> Result<&'a [u8], String> {
    let s = *at;
    let e = s.checked_add(len as usize).filter(|e| *e <= b.len()).ok_or_else(|| format!("{} of {} exceeds the record", what, len))?;
    *at = e;
    Ok(&b[s..e])
}

/// Uncompressed blocks end with CR LF unless empty.
fn unpad<'a>(b: &'a [u8], what: &str) -> Result<&'a [u8], String> {
    if b.is_empty() { return Ok(b); }
    if b.len() < 3 || &b[b.len() - 2..] != b"\r\n" { return Err(format!("{} of {} bytes does not end with a blank line", what, b.len())); }
    Ok(&b[..b.len() - 2])
}

/// Decode the record at `at`; None at the end of the file.
pub fn decode_at(f: &[u8], at: u64) -> Result<Option<Raw>, String> {
    let i = at as usize;
    if i == f.len() { return Ok(None); }
    if i > f.len() { return Err(format!("offset {} beyond the file", at)); }
    let h = head(&f[i..])?;
    if h.kind != b'D' { return Err(format!("record type {:?} at {}", h.kind as char, at)); }
    let alg = match h.alg { b'P' => Alg::Plain, b'Z' => Alg::Gzip, b'B' => Alg::Brotli, x => return Err(format!("compression {:?}", x as char)) };
    let p0 = i + 54;
    let p1 = p0.checked_add(h.len as usize).filter(|e| *e <= f.len()).ok_or_else(|| format!("record at {} of {} bytes exceeds the file", at, h.len))?;
    let payload = &f[p0..p1];
    let raw;
    let b: &[u8] = match alg { Alg::Plain => payload, Alg::Gzip => { raw = gunzip(payload)?; &raw } Alg::Brotli => { raw = unbrotli(payload)?; &raw } };
    let mut k = 0;
    let meta = block(b, &mut k, h.meta, "meta")?;
    let rqh = block(b, &mut k, h.req_h, "request headers")?;
    let rqb = block(b, &mut k, h.req_b, "request body")?;
    let rsh = block(b, &mut k, h.res_h, "response headers")?;
    let rsb = &b[k..];
    let (meta, rqh, rqb, rsh, rsb) = if alg == Alg::Plain {
        (unpad(meta, "meta")?, unpad(rqh, "request headers")?, unpad(rqb, "request body")?, unpad(rsh, "response headers")?, unpad(rsb, "response body")?)
    } else { (meta, rqh, rqb, rsh, rsb) };
    let ls = [lines(meta)?, lines(rqh)?, lines(rsh)?];
    Ok(Some(Raw { at, end: p1 as u64, kind: h.kind, alg, lens: [h.len, h.meta, h.req_h, h.req_b, h.res_h],
        model: Model { meta: group(&ls[0]), req_h: group(&ls[1]), req_b: rqb.to_vec(), res_h: group(&ls[2]), res_b: rsb.to_vec() }, lines: ls }))
}

/// Every record of a whole file.
pub fn decode_all(f: &[u8]) -> Result<Vec<Raw>, String> {
    let mut v = Vec::new();
    let mut at = 0;
    while let Some(r) = decode_at(f, at).map_err(|e| format!("record {} at {}: {}", v.len(), at, e))? {
        at = r.end;
        v.push(r);
    }
    Ok(v)
}

/// Encode one record by the published format.
pub fn encode(r: &mut Rng, m: &Model, alg: Alg) -> Vec<u8> {
    let pad = alg == Alg::Plain;
    let hb = |r: &mut Rng, c: &Canon| {
        // Any order of names is legal; values of one name keep theirs.
        let mut ls: Vec<(String, Vec<u8>)> = Vec::new();
        let mut q: Vec<(String, std::collections::VecDeque<Vec<u8>>)> = c.iter().map(|(n, v)| (n.clone(), v.iter().cloned().collect())).collect();
        while !q.is_empty() {
            let i = r.usize(q.len());
            let v = q[i].1.pop_front().unwrap();
            ls.push((q[i].0.clone(), v));
            if q[i].1.is_empty() { q.swap_remove(i); }
        }
        let mut b = Vec::new();
        for (n, v) in ls { b.extend_from_slice(n.as_bytes()); b.extend_from_slice(b": "); b.extend_from_slice(&v); b.extend_from_slice(b"\r\n"); }
        if pad && !b.is_empty() { b.extend_from_slice(b"\r\n"); }
        b
    };
    let bb = |d: &[u8]| { let mut b = d.to_vec(); if pad && !b.is_empty() { b.extend_from_slice(b"\r\n"); } b };
    let (meta, rqh, rqb, rsh, rsb) = (hb(r, &m.meta), hb(r, &m.req_h), bb(&m.req_b), hb(r, &m.res_h), bb(&m.res_b));
    let mut all = Vec::new();
    for x in [&meta, &rqh, &rqb, &rsh, &rsb] { all.extend_from_slice(x); }
    let payload = match alg {
        Alg::Plain => all,
        Alg::Gzip => {
            let lv = r.below(10) as u32;
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(lv));
            for c in gen::chunks(r, &all) { e.write_all(&c).unwrap(); if r.chance(1, 6) { e.flush().unwrap(); } }
            e.finish().unwrap()
        }
        Alg::Brotli => {
            let mut out = Vec::new();
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, 2 + r.below(4) as u32, 16 + r.below(7) as u32);
                for c in gen::chunks(r, &all) { e.write_all(&c).unwrap(); }
            }
            out
        }
    };
    let h = Head { len: payload.len() as u64, kind: b'D', alg: match alg { Alg::Plain => b'P', Alg::Gzip => b'Z', Alg::Brotli => b'B' },
        meta: meta.len() as u64, req_h: rqh.len() as u64, req_b: rqb.len() as u64, res_h: rsh.len() as u64 };
    let mut v = head_bytes(&h);
    v.extend(payload);
    v
}

/// Header map from its canonical form.
pub fn uncanon(c: &Canon) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (n, vs) in c { for v in vs { m.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap()); } }
    m
}

pub fn size_of(c: &Canon) -> usize { c.iter().map(|(n, vs)| vs.iter().map(|v| v.len() + n.len() + 4).sum::<usize>()).sum() }
