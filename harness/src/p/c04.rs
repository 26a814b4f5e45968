//! C04: RAM bound and placement.
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use body_image::{BodyImage, BodySink, Encoding, Recorded, RequestRecorded, Tunables, Tuner};
use body_image_futio::{decode_res_body, UniBodyBuf};
use bytes::Bytes;

use super::c03::{compress, dialog};
use crate::alloc;
use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Hook, Op};
use crate::rng::Rng;

/// A long source that holds nothing.
pub struct Long { pub left: u64, pub at: u64, pub style: u64, pub rng: Rng }

impl Long {
    pub fn byte(i: u64) -> u8 { (i ^ (i >> 8) ^ (i >> 17)) as u8 }
}

impl Read for Long {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = match self.style {
            0 => 1 + self.rng.usize(700),
            1 => b.len(),
            2 => 1 + self.rng.usize(20_000),
            _ => 1024,
        };
        let n = n.min(b.len()).min(self.left as usize);
        for x in &mut b[..n] { *x = Long::byte(self.at); self.at += 1; }
        self.left -= n as u64;
        Ok(n)
    }
}

fn verify(b: &BodyImage, len: u64) -> CaseResult {
    ensure!(b.len() == len, "length {} instead of {}", b.len(), len);
    let mut r = b.reader();
    let mut buf = vec![0u8; 65536];
    let mut at = 0u64;
    loop {
        let n = r.read(&mut buf).map_err(|e| Stop::Violation(format!("reading back: {}", e)))?;
        if n == 0 { break; }
        for x in &buf[..n] {
            ensure!(*x == Long::byte(at), "byte {} altered", at);
            at += 1;
        }
    }
    ensure!(at == len, "read {} of {}", at, len);
    Ok(())
}

/// Counts files opened below the watched directory.
fn opens() -> (Hook, Arc<AtomicU64>) {
    let n = Arc::new(AtomicU64::new(0));
    let m = n.clone();
    (Arc::new(move |e: &interpose::Event| {
        if e.op == Op::Open { m.fetch_add(1, SeqCst); }
        Action::Go
    }), n)
}

fn tunables(c: &mut Case<'_>, top: u64) -> Tunables {
    let ram = match c.rng.below(5) {
        0 => 0,
        1 => 192 * 1024,
        2 => c.rng.below(20_000),
        _ => c.rng.below(top),
    };
    let sizes = [2048usize, 4096, 8192, 16384, 65536];
    let mut t = Tuner::new();
    t.set_max_body_ram(ram).set_max_body(1 << 40).set_temp_dir(&c.dir);
    t.set_buffer_size_ram(*c.rng.pick(&sizes)).set_buffer_size_fs(*c.rng.pick(&sizes));
    t.finish()
}

fn bound(t: &Tunables) -> i64 {
    2 * t.max_body_ram() as i64 + 4 * (t.buffer_size_ram() + t.buffer_size_fs()) as i64 + 64 * 1024
}

fn long_len(c: &mut Case<'_>, ram: u64) -> u64 {
    let top = if c.thorough { 24 << 20 } else { 4 << 20 };
    match c.rng.below(6) {
        0 => ram,
        1 => ram + 1,
        2 => c.rng.below(ram + 1),
        3 => ram.saturating_sub(1),
        _ => ram + c.rng.below(top),
    }
}

fn placed(c: &mut Case<'_>, what: &str, is_ram: bool, len: u64, ram: u64, expected: u64, files: u64) -> CaseResult {
    if len > ram {
        ensure!(!is_ram, "{}: body of {} stayed in RAM with a RAM limit of {}", what, len, ram);
        c.count("file backed beyond the limit", 1);
    } else if expected <= ram {
        ensure!(is_ram, "{}: body of {} (expected {}) left RAM with a RAM limit of {}", what, len, expected, ram);
        ensure!(files == 0, "{}: {} files opened for a body of {} within the RAM limit {}", what, files, len, ram);
        c.count("in RAM without files", 1);
    }
    Ok(())
}

fn ingest(c: &mut Case<'_>) -> CaseResult {
    let t = tunables(c, 1 << 20);
    let ram = t.max_body_ram();
    let len = long_len(c, ram);
    let est = match c.rng.below(4) { 0 => len, 1 => ram, 2 => c.rng.below(2 * len + 1), _ => 0 };
    let mut src = Long { left: len, at: 0, style: c.rng.below(4), rng: Rng::new(c.seed) };
    c.step(format!("ingest {} est {} ram {} bufs {}/{} style {}", len, est, ram, t.buffer_size_ram(), t.buffer_size_fs(), src.style));
    let dir = c.dir.clone();
    let (hook, n) = opens();
    let w = interpose::watch(&[&dir], hook);
    let m = alloc::mark();
    let r = BodyImage::read_from(&mut src, est, &t);
    let (peak, held) = (m.peak(), m.held());
    drop(w);
    let b = r.map_err(|e| Stop::Violation(format!("ingest failed: {}", e)))?;
    ensure!(peak <= bound(&t), "peak heap {} ingesting {} with RAM limit {} (bound {})", peak, len, ram, bound(&t));
    ensure!(held <= bound(&t), "heap {} held for a body of {} with RAM limit {}", held, len, ram);
    if !b.is_ram() { ensure!(held <= 64 * 1024, "heap {} held by a file backed body", held); }
    placed(c, "ingest", b.is_ram(), len, ram, est, n.load(SeqCst))?;
    verify(&b, len)?;
    c.count("bytes ingested", len);
    c.count("heap measurements", 2);
    c.distinct_str(&format!("{}/{}/{}/{}/{}", len, est, ram, t.buffer_size_ram(), t.buffer_size_fs()));
    Ok(())
}

fn sink(c: &mut Case<'_>) -> CaseResult {
    let kind = *c.rng.pick(&SINKS);
    let t = tunables(c, 1 << 20);
    let ram = t.max_body_ram();
    let len = long_len(c, ram);
    let item = 64 + c.rng.usize(16_000);
    let ft = futio(t.clone(), Some(sink_policy(kind, semaphore(1))), 4096);
    let (p, _) = pool(&mut c.rng);
    let _reg = if kind == SinkKind::Dispatch { Some(register(p)) } else { None };
    let dir = c.dir.clone();
    let (hook, n) = opens();
    let mut d = Driver::new(c.rng.next(), Drive::Woken, alone_sink(kind));
    let mut s = AnySink::<UniBodyBuf>::new(kind, BodySink::with_ram(c.rng.below(ram + 1)), ft);
    c.step(format!("{:?} sink {} ram {} items of {}", kind, len, ram, item));
    let w = interpose::watch(&[&dir], hook);
    let m = alloc::mark();
    let mut at = 0u64;
    while at < len {
        let k = (item as u64).min(len - at);
        let b: Bytes = (at..at + k).map(Long::byte).collect::<Vec<u8>>().into();
        at += k;
        d.run(|cx| s.poll_ready(cx)).map_err(|_| Stop::Violation("no wake-up".into()))?
            .map_err(|e| Stop::Violation(format!("sink failed: {}", e)))?;
        s.start_send(UniBodyBuf::from(b)).map_err(|e| Stop::Violation(format!("sink failed: {}", e)))?;
    }
    d.run(|cx| s.poll_close(cx)).map_err(|_| Stop::Violation("no wake-up".into()))?
        .map_err(|e| Stop::Violation(format!("sink failed: {}", e)))?;
    let body = s.into_inner();
    let is_ram = body.is_ram();
    let held = m.held();
    let b = body.prepare().map_err(|e| Stop::Violation(format!("prepare failed: {}", e)))?;
    let peak = m.peak();
    drop(w);
    let limit = bound(&t) + 4 * item as i64;
    ensure!(peak <= limit, "{:?} sink: peak heap {} for {} with RAM limit {} (bound {})", kind, peak, len, ram, limit);
    if !is_ram { ensure!(held <= 128 * 1024, "{:?} sink: heap {} held by a file backed body", kind, held); }
    placed(c, "sink", is_ram, len, ram, 0, n.load(SeqCst))?;
    verify(&b, len)?;
    c.count("bytes through sinks", len);
    c.count("heap measurements", 2);
    c.distinct_str(&format!("{:?}/{}/{}/{}", kind, len, ram, item));
    Ok(())
}

/// Heap a decoder needs by itself.
fn decoder_cost(enc: Encoding, comp: &[u8], buf: usize) -> i64 {
    let m = alloc::mark();
    let mut out = std::io::sink();
    match enc {
        Encoding::Gzip => { std::io::copy(&mut flate2::read::GzDecoder::new(comp), &mut out).unwrap(); }
        Encoding::Deflate => { std::io::copy(&mut flate2::read::DeflateDecoder::new(comp), &mut out).unwrap(); }
        _ => { std::io::copy(&mut brotli::Decompressor::new(comp, buf), &mut out).unwrap(); }
    }
    m.peak()
}

fn decode(c: &mut Case<'_>) -> CaseResult {
    let (enc, name) = *c.rng.pick(&[(Encoding::Gzip, "gzip"), (Encoding::Deflate, "deflate"), (Encoding::Brotli, "br")]);
    let t = tunables(c, 300_000);
    let ram = t.max_body_ram();
    let len = long_len(c, ram);
    let data: Vec<u8> = (0..len).map(Long::byte).collect();
    let comp = compress(enc, 3, &data);
    drop(data);
    let cost = decoder_cost(enc, &comp, t.buffer_size_ram());
    let mut h = http::HeaderMap::new();
    h.insert(http::header::CONTENT_ENCODING, name.parse().unwrap());
    let est = comp.len() as u64 * u64::from(match enc { Encoding::Gzip => t.size_estimate_gzip(), Encoding::Deflate => t.size_estimate_deflate(), _ => t.size_estimate_brotli() });
    let mut dl = dialog(h, BodyImage::from_slice(comp));
    c.step(format!("decode {} to {} ram {} decoder {}", name, len, ram, cost));
    let dir = c.dir.clone();
    let (hook, n) = opens();
    let w = interpose::watch(&[&dir], hook);
    let m = alloc::mark();
    let r = decode_res_body(&mut dl, &t);
    let peak = m.peak();
    drop(w);
    r.map_err(|e| Stop::Violation(format!("decode failed: {}", e)))?;
    let limit = bound(&t) + cost + cost / 4 + 64 * 1024;
    ensure!(peak <= limit, "{} decode: peak heap {} for {} bytes with RAM limit {} (bound {})", name, peak, len, ram, limit);
    placed(c, "decode", dl.res_body().is_ram(), len, ram, est, n.load(SeqCst))?;
    verify(dl.res_body(), len)?;
    c.count("bytes decoded", len);
    c.count("heap measurements", 1);
    c.distinct_str(&format!("{}/{}/{}", name, len, ram));
    Ok(())
}

fn archive(c: &mut Case<'_>) -> CaseResult {
    use barc::*;
    let t = tunables(c, 300_000);
    let ram = t.max_body_ram();
    // The blank line stored after a plain body counts towards its block.
    let away = |c: &mut Case<'_>| { let l = long_len(c, ram); if l <= ram && l + 4 > ram { ram.saturating_sub(4) } else { l } };
    let (q, s) = (away(c), away(c));
    let path = c.dir.join("a.barc");
    let file = BarcFile::new(&path);
    let mode = c.rng.below(3);
    let mut res_headers = http::HeaderMap::new();
    res_headers.insert(http::header::CONTENT_TYPE, "text/plain".parse().unwrap());
    let rec = Record {
        rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: res_headers.clone(), res_headers,
        req_body: BodyImage::from_slice((0..q).map(Long::byte).collect::<Vec<u8>>()),
        res_body: BodyImage::from_slice((0..s).map(Long::byte).collect::<Vec<u8>>()),
    };
    {
        let mut w = file.writer().map_err(|e| Stop::Harness(e.to_string()))?;
        match mode {
            0 => w.write(&rec, &NoCompressStrategy::default()),
            1 => w.write(&rec, &GzipCompressStrategy::default().set_min_len(0).set_compression_level(2).set_check_identity(false)),
            _ => w.write(&rec, &BrotliCompressStrategy::default().set_min_len(0).set_compression_level(2).set_check_identity(false)),
        }.map_err(|e| Stop::Harness(e.to_string()))?;
    }
    drop(rec);
    let raw = std::fs::read(&path)?;
    let cost = match mode {
        0 => 0,
        1 => decoder_cost(Encoding::Gzip, &raw[54..], t.buffer_size_ram()),
        _ => decoder_cost(Encoding::Brotli, &raw[54..], t.buffer_size_ram()),
    };
    drop(raw);
    c.step(format!("archive mode {} req {} res {} ram {} decoder {}", mode, q, s, ram, cost));
    let mut rd = file.reader().map_err(|e| Stop::Harness(e.to_string()))?;
    let m = alloc::mark();
    let r = rd.read(&t).map_err(|e| Stop::Violation(format!("archive read failed: {}", e)))?;
    let (peak, held) = (m.peak(), m.held());
    let r = match r { Some(r) => r, None => return violation("no record") };
    // Two bodies.
    let limit = 2 * bound(&t) + cost + cost / 4 + 64 * 1024;
    ensure!(peak <= limit, "archive mode {}: peak heap {} reading {}+{} bytes with RAM limit {} (bound {})", mode, peak, q, s, ram, limit);
    ensure!(held <= 2 * bound(&t), "archive mode {}: heap {} held", mode, held);
    for (b, len, what) in [(r.req_body(), q, "archive request"), (r.res_body(), s, "archive response")].iter() {
        // Expectation for a compressed response body is a fixed small one.
        let expected = if mode > 0 && *what == "archive response" { 4096 } else { *len };
        if *len > 0 { placed(c, what, b.is_ram(), *len, ram, expected, 0)?; }
        verify(b, *len)?;
    }
    c.count("bytes read from archives", q + s);
    c.count("heap measurements", 2);
    c.distinct_str(&format!("{}/{}/{}/{}", mode, q, s, ram));
    Ok(())
}

/// Small bodies by default settings stay in RAM; the boundary is exact.
fn boundary(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let ram = gen::len(&mut c.rng, 70_000);
    let len = match c.rng.below(4) { 0 => ram, 1 => ram + 1, 2 => ram.saturating_sub(1), _ => c.rng.below(2 * ram + 2) };
    let t = Tuner::new().set_max_body_ram(ram).set_temp_dir(&dir)
        .set_buffer_size_ram(gen::buf_size(&mut c.rng)).set_buffer_size_fs(gen::buf_size(&mut c.rng)).finish();
    let est = c.rng.below(ram + 1);
    let mut src = Long { left: len, at: 0, style: c.rng.below(4), rng: Rng::new(c.seed) };
    let (hook, n) = opens();
    let w = interpose::watch(&[&dir], hook);
    let r = BodyImage::read_from(&mut src, est, &t);
    drop(w);
    let b = r.map_err(|e| Stop::Violation(format!("ingest failed: {}", e)))?;
    c.step(format!("len {} ram {} est {}", len, ram, est));
    placed(c, "ingest", b.is_ram(), len, ram, est, n.load(SeqCst))?;
    c.distinct_str(&format!("{}/{}/{}", len, ram, est));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 15000);
    x.run("boundary", n, boundary);
    let n = x.tier(80, 240);
    x.run("ingest", n, ingest);
    x.run("sink", n, sink);
    let n = x.tier(40, 120);
    x.run("decode", n, decode);
    x.run("archive", n, archive);
    x.require("heap measurements", 300);
    x.require("file backed beyond the limit", 200);
    x.require("in RAM without files", 200);
}
