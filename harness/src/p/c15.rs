//! C15: the compression policy.
use std::fs::File;
use std::io::Write;

use barc::*;
use body_image::{Recorded, RequestRecorded};
use http::header::{HeaderMap, HeaderValue};

use crate::archive::*;
use crate::ctx::*;
use crate::gen::{self, canon};

/// (content type, counted as compressible)
const TYPES: [(&str, bool); 43] = [
    ("text/plain", true), ("text/html; charset=utf-8", true), ("TEXT/HTML", true), ("text/css", true), ("text/x-anything", true), ("text/csv;header=present", true),
    ("application/json", true), ("application/javascript", true), ("application/xml", true), ("Application/XML; charset=us-ascii", true),
    ("application/rss", true), ("application/rss+xml", true), ("application/atom+xml", true), ("application/atom", true), ("application/xhtml+xml", true),
    ("application/x-font-ttf", true), ("application/x-font-opentype", true), ("application/x-font-truetype", true),
    ("image/svg+xml", true), ("image/svg", true), ("font/ttf", true), ("font/otf", true), ("font/opentype", true),
    ("image/png", false), ("image/jpeg", false), ("application/octet-stream", false), ("application/gzip", false), ("video/mp4", false),
    ("audio/mpeg", false), ("font/woff2", false), ("application/pdf", false), ("image/webp", false), ("", false), ("nonsense", false),
    (" text/html", true), ("text/html ", true), ("  image/svg+xml  ", true), (" image/png ", false),
    ("application/html", true), ("application/xhtml", true), ("application/json; charset=utf-8", true), ("text/caf\u{e9}", false), ("application/zip; name=text/plain", false),
];

/// The documented policy, over plain values.
pub struct Policy { pub min: u64, pub check: bool, pub coef: f64 }

impl Policy {
    pub fn compress(&self, req: (u64, bool), res: (u64, bool), identity: bool, header_bytes: u64) -> bool {
        let mut have = 0u64;
        let mut need = self.min;
        let res_counts = res.1 && (identity || !self.check);
        for (len, counts) in [(res.0, res_counts), (req.0, req.1)] {
            if counts { have += len } else { need = need.saturating_add((len as f64 * self.coef) as u64) }
        }
        have + header_bytes >= need
    }
}

/// Whether a content type counts as compressible, where this table can tell.
pub fn type_counts(h: &Canon) -> Option<bool> {
    match h.iter().find(|(n, _)| n == "content-type") {
        None => Some(false),
        Some((_, v)) if v.len() == 1 => TYPES.iter().find(|(t, _)| t.as_bytes() == &v[0][..]).map(|t| t.1),
        _ => None,
    }
}

/// An application's own strategy.
struct Own { min: u64, check: bool, coef: f64 }
impl CompressStrategy for Own {
    fn wrap_encoder<'a>(&self, rec: &dyn MetaRecorded, file: &'a File) -> Result<EncodeWrapper<'a>, BarcError> {
        if self.is_compressible(rec) { Ok(EncodeWrapper::gzip(file, 1)) } else { Ok(EncodeWrapper::plain(file)) }
    }
    fn min_len(&self) -> u64 { self.min }
    fn non_compressible_coef(&self) -> f64 { self.coef }
    fn check_identity(&self) -> bool { self.check }
}

/// A strategy with everything set, in any order; the last setting of a value counts.
macro_rules! configured {
    ($s:expr, $order:expr, $min:expr, $check:expr, $level:expr) => {
        match $order {
            0 => $s.set_min_len($min).set_check_identity($check).set_compression_level($level),
            1 => $s.set_check_identity($check).set_compression_level($level).set_min_len($min),
            2 => $s.set_compression_level($level).set_min_len($min).set_check_identity($check),
            _ => $s.set_min_len(77).set_compression_level(2).set_check_identity(!$check).set_compression_level($level).set_check_identity($check).set_min_len($min),
        }
    };
}

fn case(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut q_h = if c.rng.chance(1, 2) { HeaderMap::new() } else { gen::headers(&mut c.rng) };
    let mut s_h = if c.rng.chance(1, 2) { HeaderMap::new() } else { gen::headers(&mut c.rng) };
    let mut meta = if c.rng.chance(1, 2) { HeaderMap::new() } else { gen::headers(&mut c.rng) };
    q_h.remove("content-type");
    s_h.remove("content-type");
    let mut types = Vec::new();
    for h in [&mut q_h, &mut s_h] {
        if c.rng.chance(1, 6) { types.push(("-", false)); continue; }
        let t = *c.rng.pick(&TYPES);
        h.insert("content-type", HeaderValue::from_bytes(t.0.as_bytes()).unwrap());
        types.push(t);
    }
    let dec = *c.rng.pick(&[("", false), ("identity", true), ("gzip, identity", true), ("chunked, br, identity", true), ("chunked", false), ("gzip", false), ("chunked, gzip", false)]);
    meta.remove("response-decoded");
    if !dec.0.is_empty() { meta.insert("response-decoded", HeaderValue::from_static(dec.0)); }
    let (lq, ls) = (if c.rng.chance(1, 3) { 0 } else { gen::len(&mut c.rng, 12_000) as usize }, if c.rng.chance(1, 4) { 0 } else { gen::len(&mut c.rng, 20_000) as usize });
    let kind = c.rng.below(6);
    let hb = (size_of(&canon(&meta)) + size_of(&canon(&q_h)) + size_of(&canon(&s_h))) as u64;
    let mut ls = ls;
    if (kind == 1 || kind == 2) && types[1].1 && dec.1 && c.rng.chance(2, 3) {
        // A strategy's own minimum just reached, or just missed.
        let min = if kind == 1 { 4096 } else { 1024 } + if types[0].1 { 0 } else { lq as u64 / 2 } + c.rng.below(6);
        ls = min.saturating_sub(hb + 3 + if types[0].1 { lq as u64 } else { 0 }) as usize;
    }
    let (q, s) = if c.rng.chance(1, 2) { (c.rng.bytes(lq), c.rng.bytes(ls)) } else { (c.rng.text(lq), c.rng.text(ls)) };
    let (sq, ss) = (*c.rng.pick(&gen::STATES), *c.rng.pick(&gen::STATES));
    let rec = Record { rec_type: RecordType::Dialog, req_body: gen::body(&mut c.rng, sq, &q, &dir), res_body: gen::body(&mut c.rng, ss, &s, &dir), meta: meta.clone(), req_headers: q_h.clone(), res_headers: s_h.clone() };
    let check = c.rng.chance(1, 2);
    let coef = if kind == 5 { *c.rng.pick(&[0.0, 0.25, 0.5, 1.0, 2.0, 0.333]) } else { 0.5 };
    // Minimum near where the answer changes.
    let count = |check: bool| {
        let res = types[1].1 && (dec.1 || !check);
        let mut have = hb;
        let mut extra = 0u64;
        for (l, k) in [(ls, res), (lq, types[0].1)] { if k { have += l as u64 } else { extra += (l as f64 * coef) as u64 } }
        (have, extra)
    };
    let (have, extra) = count(check);
    let edge = have.saturating_sub(extra);
    let min = match c.rng.below(6) { 0 => edge, 1 => edge + 1, 2 => edge.saturating_sub(1), 3 => c.rng.below(edge * 2 + 2), 4 => 0, _ => *c.rng.pick(&[1024, 4096, u64::MAX, 1 << 40]) };
    let order = c.rng.below(4);
    let (strategy, policy, alg): (Box<dyn CompressStrategy>, Option<Policy>, Alg) = match kind {
        0 => (Box::new(NoCompressStrategy::default()), None, Alg::Plain),
        1 => (Box::new(GzipCompressStrategy::default()), Some(Policy { min: 4096, check: true, coef: 0.5 }), Alg::Gzip),
        2 => (Box::new(BrotliCompressStrategy::default().set_compression_level(3)), Some(Policy { min: 1024, check: true, coef: 0.5 }), Alg::Brotli),
        3 => (Box::new(configured!(GzipCompressStrategy::default(), order, min, check, c.rng.below(10) as u32)), Some(Policy { min, check, coef: 0.5 }), Alg::Gzip),
        4 => (Box::new(configured!(BrotliCompressStrategy::default(), order, min, check, 2 + c.rng.below(3) as u32)), Some(Policy { min, check, coef: 0.5 }), Alg::Brotli),
        _ => (Box::new(Own { min, check, coef }), Some(Policy { min, check, coef }), Alg::Gzip),
    };
    let want = match &policy { None => false, Some(p) => p.compress((lq as u64, types[0].1), (ls as u64, types[1].1), dec.1, hb) };
    c.step(format!("strategy {} min {:?} check {:?}, req {} {:?} {:?}, res {} {:?} {:?}, decoded {:?}, headers {}: {}", kind, policy.as_ref().map(|p| p.min), policy.as_ref().map(|p| p.check),
        lq, types[0].0, sq, ls, types[1].0, ss, dec.0, hb, want));
    let path = dir.join("a.barc");
    BarcFile::new(&path).writer().and_then(|mut w| w.write(&rec, &*strategy)).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
    let img = std::fs::read(&path)?;
    let h = head(&img).map_err(Stop::Violation)?;
    let stored = match h.alg { b'P' => Alg::Plain, b'Z' => Alg::Gzip, b'B' => Alg::Brotli, x => return violation(format!("stored with flag {:?}", x as char)) };
    ensure!(stored == if want { alg } else { Alg::Plain }, "stored as {:?}, policy says {}: {}", stored, if want { "compressed" } else { "plain" }, c.trace[0]);
    // What is stored is what the head says.
    let raw = decode_at(&img, 0).map_err(Stop::Violation)?.unwrap();
    ensure!(raw.model.res_b == s && raw.model.req_b == q, "stored bodies differ");
    c.count(if want { "compressed" } else { "plain" }, 1);
    if let Some(p) = &policy {
        let (have, extra) = count(p.check);
        if have == p.min.saturating_add(extra) { c.count("decided exactly at the threshold", 1); }
        if have + 1 == p.min.saturating_add(extra) { c.count("decided one below the threshold", 1); }
    }
    c.distinct_str(&c.trace[0].clone());
    let _ = (rec.req_body(), rec.res_body());
    Ok(())
}

/// Text whose compressed size depends on the effort made: words of a small vocabulary, phrases repeated at a distance.
fn prose(r: &mut crate::rng::Rng, len: usize) -> Vec<u8> {
    let words: Vec<Vec<u8>> = (0..400).map(|_| { let n = r.range(2, 10) as usize; (0..n).map(|_| b'a' + r.below(26) as u8).collect() }).collect();
    let mut v: Vec<u8> = Vec::with_capacity(len + 64);
    while v.len() < len {
        if v.len() > 2000 && r.chance(1, 12) {
            let n = 10 + r.usize(60);
            let at = r.usize(v.len() - n);
            v.extend_from_within(at..at + n);
        } else {
            let k = r.usize(400);
            let k = if r.chance(2, 3) { k * k / 400 } else { k };
            v.extend_from_slice(&words[k]);
            v.push(b' ');
        }
    }
    v.truncate(len);
    v
}

/// The size an encoder set to a level makes of bytes.
fn packed(alg: Alg, level: u32, b: &[u8]) -> u64 {
    let mut out = Vec::new();
    if alg == Alg::Gzip {
        let mut e = flate2::write::GzEncoder::new(&mut out, flate2::Compression::new(level));
        e.write_all(b).unwrap();
        e.finish().unwrap();
    } else {
        brotli::CompressorWriter::new(&mut out, 4096, level, 21).write_all(b).unwrap();
    }
    out.len() as u64
}

/// The level the strategy was given is the level used.
fn level(c: &mut Case<'_>) -> CaseResult {
    let n = 20_000 + c.rng.usize(80_000);
    let body = prose(&mut c.rng, n);
    let dir = c.dir.clone();
    let state = *c.rng.pick(&[gen::State::RamOne, gen::State::RamMany, gen::State::FsRead]);
    let mut h = HeaderMap::new();
    h.insert("content-type", HeaderValue::from_static("text/html"));
    let mut meta = HeaderMap::new();
    meta.insert("response-decoded", HeaderValue::from_static("identity"));
    let on_req = c.rng.chance(1, 3);
    let b = gen::body(&mut c.rng, state, &body, &dir);
    let mut rec = Record { meta, ..Record::default() };
    if on_req { rec.req_headers = h; rec.req_body = b; } else { rec.res_headers = h; rec.res_body = b; }
    let alg = if cfg!(feature = "brotli") && c.rng.chance(1, 2) { Alg::Brotli } else { Alg::Gzip };
    let set = if c.rng.chance(1, 4) { None } else if alg == Alg::Gzip { Some(c.rng.below(10) as u32) } else { Some(2 + c.rng.below(8) as u32) };
    c.step(format!("{} of {} bytes in {:?}, {:?} at level {:?}", if on_req { "request body" } else { "response body" }, n, state, alg, set));
    let (order, min, check) = (c.rng.below(5), c.rng.below(20_000), c.rng.chance(1, 2));
    let strategy: Box<dyn CompressStrategy> = match (alg, set) {
        (Alg::Gzip, None) => Box::new(GzipCompressStrategy::default()),
        (Alg::Gzip, Some(l)) => if order > 3 { Box::new(GzipCompressStrategy::default().set_compression_level(l)) } else { Box::new(configured!(GzipCompressStrategy::default(), order, min, check, l)) },
        (_, None) => Box::new(BrotliCompressStrategy::default()),
        (_, Some(l)) => if order > 3 { Box::new(BrotliCompressStrategy::default().set_compression_level(l)) } else { Box::new(configured!(BrotliCompressStrategy::default(), order, min, check, l)) },
    };
    let path = dir.join("l.barc");
    BarcFile::new(&path).writer().and_then(|mut w| w.write(&rec, &*strategy)).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
    let img = std::fs::read(&path)?;
    let hd = head(&img).map_err(Stop::Violation)?;
    ensure!(hd.alg == if alg == Alg::Gzip { b'Z' } else { b'B' }, "stored with flag {:?}", hd.alg as char);
    let stored = &img[54..54 + hd.len as usize];
    let plain = if alg == Alg::Gzip { gunzip(stored) } else { unbrotli(stored) }.map_err(Stop::Violation)?;
    let at = |l: u32| packed(alg, l, &plain);
    let l = set.unwrap_or(6);
    let want = at(l);
    let near = |a: u64, b: u64| a.max(b) - a.min(b) <= b / 100 + 32;
    ensure!(near(hd.len, want), "{} bytes stored as {}, where {:?} level {} gives {}", plain.len(), hd.len, alg, l, want);
    // How often another level would have been told apart.
    let other = if alg == Alg::Gzip { c.rng.below(10) as u32 } else { 2 + c.rng.below(8) as u32 };
    c.count("stored at the given level", 1);
    if !near(at(other), want) { c.count("a level other than the given one told apart", 1); }
    c.distinct_str(&format!("{:?} {:?} {}", alg, set, on_req));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(4000, 30_000);
    x.run("policy", n, case);
    let n = x.tier(300, 2000);
    x.run("level", n, level);
    x.require("compressed", 500);
    x.require("plain", 500);
    x.require("decided exactly at the threshold", 100);
    x.require("decided one below the threshold", 100);
    x.require("stored at the given level", 100);
    x.require("a level other than the given one told apart", 50);
}
