//! C03: the maximum body length.
use std::io::{Read, Write};

use body_image::{BodyError, BodyImage, BodySink, Dialog, Encoding, Epilog, Prolog, Tunables, Tuner};
use body_image_futio::{decode_res_body, FutioError, UniBodyBuf};
use bytes::Bytes;

use super::c02::{estimate, Source};
use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::rng::Rng;

/// The two possible answers.
#[derive(Debug, PartialEq)]
enum Answer { Accepted(u64), TooLong, Other(String) }

fn body_answer(r: Result<BodyImage, BodyError>) -> Answer {
    match r {
        Ok(b) => Answer::Accepted(b.len()),
        Err(BodyError::BodyTooLong(_)) => Answer::TooLong,
        Err(e) => Answer::Other(e.to_string()),
    }
}

fn judge(c: &mut Case<'_>, what: &str, len: u64, max: u64, a: Answer) -> CaseResult {
    if len <= max {
        ensure!(a == Answer::Accepted(len), "{}: body of {} with maximum {} answered {:?}", what, len, max, a);
        c.count("accepted", 1);
        if len == max { c.count("accepted at exactly the maximum", 1); }
    } else {
        ensure!(a == Answer::TooLong, "{}: body of {} with maximum {} answered {:?}", what, len, max, a);
        c.count("refused", 1);
        if len == max + 1 { c.count("refused one byte over", 1); }
    }
    Ok(())
}

/// (length, maximum, ram limit), with the length near the maximum.
fn limits(r: &mut Rng, top: u64) -> (u64, u64, u64) {
    let max = match r.below(4) { 0 => r.below(10), 1 => r.below(3000), _ => gen::len(r, top) };
    let len = match r.below(8) {
        0 | 1 => max,
        2 | 3 | 4 => max + 1,
        5 => max.saturating_sub(1 + r.below(3)),
        6 => max + 1 + r.below(20000),
        _ => r.below(max * 2 + 2),
    };
    let ram = match r.below(5) {
        0 => 0,
        1 => max,
        2 => r.below(max + 1),
        3 => max.saturating_sub(1),
        _ => max / 2,
    };
    (len, max, ram)
}

fn tunables(r: &mut Rng, max: u64, ram: u64, dir: &std::path::Path) -> Tunables {
    let mut t = Tuner::new();
    t.set_max_body_ram(ram).set_max_body(max).set_temp_dir(dir);
    t.set_buffer_size_ram(gen::buf_size(r)).set_buffer_size_fs(gen::buf_size(r));
    t.set_size_estimate_gzip(*r.pick(&[1u16, 4, 100])).set_size_estimate_deflate(*r.pick(&[1u16, 4, 100]));
    t.set_size_estimate_brotli(*r.pick(&[1u16, 6, 100]));
    t.finish()
}

fn ingest(c: &mut Case<'_>) -> CaseResult {
    let (len, max, ram) = limits(&mut c.rng, 60_000);
    let dir = c.dir.clone();
    let tune = tunables(&mut c.rng, max, ram, &dir);
    let est = estimate(&mut c.rng, len, ram);
    let style = if len > 5000 { 2 + c.rng.below(4) } else { c.rng.below(6) };
    let seed = c.rng.next();
    let mut src = Source::new(vec![b'x'; len as usize], Rng::new(seed), style);
    c.step(format!("len {} max {} ram {} est {} style {} bufs {}/{}", len, max, ram, est, style, tune.buffer_size_ram(), tune.buffer_size_fs()));
    let r = BodyImage::read_from(&mut src, est, &tune);
    c.distinct_str(&format!("{}/{}/{}/{}/{}/{}", len, max, ram, est, tune.buffer_size_ram(), tune.buffer_size_fs()));
    judge(c, "ingest", len, max, body_answer(r))
}

fn sinks(c: &mut Case<'_>) -> CaseResult {
    let kind = *c.rng.pick(&SINKS);
    let (len, max, ram) = limits(&mut c.rng, 60_000);
    let dir = c.dir.clone();
    let tune = tunables(&mut c.rng, max, ram, &dir);
    let sem = semaphore(1);
    let ft = futio(tune, Some(sink_policy(kind, sem)), 4096);
    let start = match c.rng.below(3) { 0 => BodySink::with_fs(&dir).unwrap(), 1 => BodySink::with_ram(len), _ => BodySink::empty() };
    let data = vec![7u8; len as usize];
    let parts = gen::chunks(&mut c.rng, &data);
    let (p, desc) = pool(&mut c.rng);
    let _reg = if kind == SinkKind::Dispatch { Some(register(p)) } else { None };
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let mut d = Driver::new(c.rng.next(), drive, alone_sink(kind));
    d.contend(ft.blocking_semaphore());
    c.step(format!("{:?} len {} max {} ram {} chunks {} {} {:?}", kind, len, max, ram, parts.len(), desc, drive));
    let uni = c.rng.chance(1, 2);
    let (r, len_in) = if uni {
        let mut s = AnySink::<UniBodyBuf>::new(kind, start, ft);
        let items = parts.iter().map(|p| UniBodyBuf::from(Bytes::from(p.clone()))).collect();
        let r = s.send_all(items, &mut d).map_err(|_| Stop::Violation("sink pending without a wake-up".into()))?;
        let l = if r.is_ok() { s.into_inner().len() } else { 0 };
        (r, l)
    } else {
        let mut s = AnySink::<Bytes>::new(kind, start, ft);
        let items = parts.iter().map(|p| Bytes::from(p.clone())).collect();
        let r = s.send_all(items, &mut d).map_err(|_| Stop::Violation("sink pending without a wake-up".into()))?;
        let l = if r.is_ok() { s.into_inner().len() } else { 0 };
        (r, l)
    };
    let a = match r {
        Ok(()) => Answer::Accepted(len_in),
        Err(FutioError::Body(BodyError::BodyTooLong(_))) => Answer::TooLong,
        Err(e) => Answer::Other(e.to_string()),
    };
    c.distinct_str(&format!("{:?}/{}/{}/{}/{}/{}", kind, len, max, ram, parts.len(), uni));
    judge(c, &format!("{:?} sink", kind), len, max, a)
}

pub fn compress(enc: Encoding, level: u32, data: &[u8]) -> Vec<u8> {
    match enc {
        Encoding::Gzip => {
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Encoding::Deflate => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Encoding::Brotli => {
            let mut v = Vec::new();
            brotli::CompressorReader::new(data, 4096, level.max(2).min(9), 20).read_to_end(&mut v).unwrap();
            v
        }
        _ => data.to_vec(),
    }
}

pub fn dialog(headers: http::HeaderMap, body: BodyImage) -> Dialog {
    Dialog::new(
        Prolog { method: http::Method::GET, url: "http://h/p".parse().unwrap(), req_headers: http::HeaderMap::new(), req_body: BodyImage::empty() },
        Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_headers: headers, res_body: body, res_decoded: Vec::new() },
    )
}

fn decode(c: &mut Case<'_>) -> CaseResult {
    let (enc, name) = *c.rng.pick(&[(Encoding::Gzip, "gzip"), (Encoding::Deflate, "deflate"), (Encoding::Brotli, "br")]);
    let (len, max, ram) = limits(&mut c.rng, 60_000);
    let dir = c.dir.clone();
    let tune = tunables(&mut c.rng, max, ram, &dir);
    let data = if c.rng.chance(1, 2) { vec![b'y'; len as usize] } else { c.rng.bytes(len as usize) };
    let level = c.rng.below(6) as u32;
    let comp = compress(enc, level, &data);
    let mut h = http::HeaderMap::new();
    h.insert(http::header::CONTENT_ENCODING, name.parse().unwrap());
    let st = *c.rng.pick(&gen::STATES);
    let body = gen::body(&mut c.rng, st, &comp, &dir);
    let mut dl = dialog(h, body);
    c.step(format!("{} len {} max {} ram {} state {:?} compressed {}", name, len, max, ram, st, comp.len()));
    use body_image::Recorded;
    let a = match decode_res_body(&mut dl, &tune) {
        Ok(true) => Answer::Accepted(dl.res_body().len()),
        Ok(false) => Answer::Other("reported as not decoded".into()),
        Err(FutioError::Body(BodyError::BodyTooLong(_))) => Answer::TooLong,
        Err(e) => Answer::Other(e.to_string()),
    };
    c.distinct_str(&format!("{}/{}/{}/{}/{:?}", name, len, max, ram, st));
    judge(c, &format!("{} decode", name), len, max, a)
}

fn archive(c: &mut Case<'_>) -> CaseResult {
    use barc::*;
    let (len, max, ram) = limits(&mut c.rng, 60_000);
    let dir = c.dir.clone();
    let tune = tunables(&mut c.rng, max, ram, &dir);
    let path = dir.join("a.barc");
    let data = vec![b'z'; len as usize];
    let file = BarcFile::new(&path);
    let br = c.rng.chance(1, 2);
    let mut res_headers = http::HeaderMap::new();
    res_headers.insert(http::header::CONTENT_TYPE, "text/plain".parse().unwrap());
    let rec = Record {
        rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: http::HeaderMap::new(),
        req_body: BodyImage::empty(), res_headers, res_body: BodyImage::from_slice(data),
    };
    {
        let mut w = file.writer().map_err(|e| Stop::Harness(e.to_string()))?;
        let r = if br { w.write(&rec, &BrotliCompressStrategy::default().set_min_len(0).set_check_identity(false)) }
            else { w.write(&rec, &GzipCompressStrategy::default().set_min_len(0).set_check_identity(false)) };
        r.map_err(|e| Stop::Harness(e.to_string()))?;
    }
    // Only compressed records state no response body length.
    let head = std::fs::read(&path)?;
    let compressed = head.get(20).map(|b| *b != b'P').unwrap_or(false);
    if !compressed { c.count("stored plain, not judged", 1); return Ok(()); }
    c.step(format!("archive br {} len {} max {} ram {}", br, len, max, ram));
    let mut rd = file.reader().map_err(|e| Stop::Harness(e.to_string()))?;
    let a = match rd.read(&tune) {
        Ok(Some(r)) => { use body_image::Recorded; Answer::Accepted(r.res_body().len()) }
        Ok(None) => Answer::Other("no record".into()),
        Err(BarcError::Body(BodyError::BodyTooLong(_))) => Answer::TooLong,
        Err(e) => Answer::Other(e.to_string()),
    };
    c.count("archive bodies judged", 1);
    c.distinct_str(&format!("{}/{}/{}/{}", br, len, max, ram));
    judge(c, "compressed archive body", len, max, a)
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(3000, 25000);
    x.run("ingest", n, ingest);
    let n = x.tier(2000, 15000);
    x.run("sinks", n, sinks);
    let n = x.tier(1500, 10000);
    x.run("decode", n, decode);
    let n = x.tier(800, 6000);
    x.run("archive", n, archive);
    x.require("accepted at exactly the maximum", 500);
    x.require("refused one byte over", 500);
    x.require("archive bodies judged", 200);
}
