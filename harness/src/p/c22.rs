//! C22: decoding of response bodies.
use std::io::{Read, Write};

use body_image::{BodyError, Dialog, Encoding, Epilog, Recorded, Tuner};
use body_image_futio::{decode_res_body, FutioError};
use http::header::{HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};

use super::c14::{self, plain, Plain};
use super::c23::spell;
use crate::archive::body_data;
use crate::ctx::*;
use crate::gen;
use crate::rng::Rng;

const COMPS: [Encoding; 3] = [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli];

/// Compress with any of the settings the format allows.
fn compress(r: &mut Rng, enc: Encoding, data: &[u8]) -> (Vec<u8>, String) {
    // A gzip stream may have several members.
    if enc == Encoding::Gzip && r.chance(1, 4) {
        let (mut v, mut n, mut at) = (Vec::new(), 0, 0);
        while n == 0 || at < data.len() {
            let k = if r.chance(1, 8) { 0 } else { 1 + r.usize(data.len() - at + 1) }.min(data.len() - at);
            v.extend(member(r, enc, false, &data[at..at + k]).0);
            at += k;
            n += 1;
        }
        return (v, format!("gzip in {}", if n == 1 { "one member" } else { "members" }));
    }
    let zlib = r.chance(1, 2);
    member(r, enc, zlib, data)
}

fn member(r: &mut Rng, enc: Encoding, zlib: bool, data: &[u8]) -> (Vec<u8>, String) {
    let level = flate2::Compression::new(r.below(10) as u32);
    // Written in parts, with flushes that leave their own marks.
    let mut feed = |w: &mut dyn Write, flush: bool| {
        for p in gen::chunks(r, data) { w.write_all(&p).unwrap(); if flush && r.chance(1, 4) { w.flush().unwrap(); } }
    };
    match enc {
        Encoding::Gzip => {
            let mut b = flate2::GzBuilder::new();
            let mut d = format!("gzip level {}", level.level());
            let k = data.len() % 4;
            if k & 1 == 1 { b = b.filename("some name.txt").mtime(12345); d.push_str(" named"); }
            if k & 2 == 2 { b = b.comment("a comment").extra(vec![1, 2, 3, 0, 5]).operating_system(3); d.push_str(" commented"); }
            let mut e = b.write(Vec::new(), level);
            feed(&mut e, true);
            (e.finish().unwrap(), d)
        }
        Encoding::Deflate if zlib => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), level);
            feed(&mut e, true);
            let mut z = e.finish().unwrap();
            // A smaller window may be announced where the data does not need more, and any level.
            let bits = (8..15).find(|b| data.len() <= 1 << b).unwrap_or(15);
            let bits = if r.chance(1, 2) { 15 } else { bits + r.below(16 - bits) };
            let cmf = 8 | ((bits - 8) as u16) << 4;
            let flevel = (r.below(4) as u16) << 6;
            let head = cmf << 8 | flevel;
            let head = head + (31 - head % 31) % 31;
            z[..2].copy_from_slice(&head.to_be_bytes());
            (z, format!("zlib level {} window {}", level.level(), bits))
        }
        Encoding::Deflate => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), level);
            feed(&mut e, true);
            (e.finish().unwrap(), format!("deflate level {}", level.level()))
        }
        _ => {
            let (q, w) = (2 + r.below(8) as u32, 16 + r.below(7) as u32);
            let mut v = Vec::new();
            brotli::CompressorReader::new(data, 4096, q, w).read_to_end(&mut v).unwrap();
            (v, format!("brotli quality {} window {}", q, w))
        }
    }
}

fn name(e: Encoding, r: &mut Rng) -> String {
    let s = match e { Encoding::Gzip => if r.chance(1, 4) { "x-gzip" } else { "gzip" }, Encoding::Deflate => "deflate", Encoding::Brotli => "br", Encoding::Compress => "compress", _ => "identity" };
    spell(r, s)
}

/// Headers naming `comp`, and whether chunked is named too.
fn headers(r: &mut Rng, h: &mut http::HeaderMap, comp: Option<Encoding>) -> bool {
    h.remove(CONTENT_ENCODING);
    h.remove(TRANSFER_ENCODING);
    let chunked = r.chance(1, 2);
    let te = comp.is_some() && r.chance(1, 4);
    let mut t: Vec<String> = Vec::new();
    let mut e: Vec<String> = Vec::new();
    if let Some(x) = comp {
        let n = name(x, r);
        if te {
            t.push(n);
            // Of lesser rank, so never considered.
            if r.chance(1, 4) { e.push("br".into()); }
        } else {
            if r.chance(1, 4) { e.push(r.pick(&["identity", "zstd", "compress"]).to_string()); }
            e.push(n);
        }
    }
    if r.chance(1, 6) { e.push(spell(r, "identity")); }
    if r.chance(1, 6) { e.push("unknown".into()); }
    if chunked { let c = spell(r, "chunked"); t.push(c); }
    for (k, v) in [(TRANSFER_ENCODING, t), (CONTENT_ENCODING, e)] {
        if v.is_empty() { continue; }
        if r.chance(1, 3) { for x in v { h.append(k.clone(), HeaderValue::from_str(&x).unwrap()); } }
        else { h.append(k.clone(), HeaderValue::from_str(&v.join(if r.chance(1, 2) { ", " } else { "," })).unwrap()); }
    }
    chunked
}

struct Shown { plain: Plain, ram: bool, map: bool }

fn shown(d: &Dialog) -> Result<Shown, Stop> {
    Ok(Shown { plain: plain(d).map_err(|e| Stop::Violation(format!("dialog unreadable: {}", e)))?, ram: d.res_body().is_ram(), map: d.res_body().is_mem_map() })
}

fn same(before: &Shown, d: &Dialog, what: &str) -> CaseResult {
    let now = shown(d)?;
    ensure!(now.plain.decoded == before.plain.decoded, "{}: decoded list now {:?}, was {:?}", what, now.plain.decoded, before.plain.decoded);
    ensure!(now.plain == before.plain, "{}: the dialog changed: {}", what, diff(&now.plain.res_b, &before.plain.res_b));
    ensure!(now.ram == before.ram && now.map == before.map, "{}: the body moved", what);
    Ok(())
}

/// A dialog with this response body and headers naming the compression.
fn dialog(c: &mut Case<'_>, stored: &[u8], comp: Option<Encoding>) -> (Dialog, bool) {
    let dir = c.dir.clone();
    let d = c14::dialog(&mut c.rng, &dir);
    let (p, e) = d.explode();
    let mut h = e.res_headers;
    let chunked = headers(&mut c.rng, &mut h, comp);
    let st = *c.rng.pick(&gen::STATES);
    let body = gen::body(&mut c.rng, st, stored, &dir);
    let dec = if chunked && c.rng.chance(1, 2) { vec![Encoding::Chunked] } else { Vec::new() };
    (Dialog::new(p, Epilog { version: e.version, status: e.status, res_decoded: dec, res_headers: h, res_body: body }), chunked)
}

fn tune(r: &mut Rng, len: u64, max: u64, dir: &std::path::Path) -> body_image::Tunables {
    let ram = match r.below(5) { 0 => 0, 1 => len, 2 => len.saturating_sub(1), 3 => len + 1, _ => r.below(len + 1) }.min(max);
    let mut t = Tuner::new();
    t.set_max_body_ram(ram).set_max_body(max).set_temp_dir(dir);
    let least = if len > 1 << 20 { 2048 } else { 1 };
    t.set_buffer_size_ram(gen::buf_size(r).max(least)).set_buffer_size_fs(gen::buf_size(r).max(least));
    t.set_size_estimate_gzip(*r.pick(&[1u16, 4, 1000])).set_size_estimate_deflate(*r.pick(&[1u16, 4, 1000])).set_size_estimate_brotli(*r.pick(&[1u16, 6, 1000]));
    t.finish()
}

/// What differs between two dialogs besides response body and decoded list.
fn rest_equal(a: &Plain, b: &Plain) -> bool {
    (&a.method, &a.url, a.version, a.status, &a.req_h, &a.res_h, &a.req_b) == (&b.method, &b.url, b.version, b.status, &b.req_h, &b.res_h, &b.req_b)
}

fn exact(c: &mut Case<'_>) -> CaseResult {
    let mut data = body_data(&mut c.rng, 60_000);
    if c.rng.chance(1, 12) { data = vec![b'a'; 200_000 + c.rng.usize(400_000)]; }
    let enc = *c.rng.pick(&COMPS);
    decoded(c, data, enc)
}

/// Many mebibytes before and after decoding.
fn large(c: &mut Case<'_>) -> CaseResult {
    let n = (2 << 20) + c.rng.usize(8 << 20);
    let mut data = c.rng.bytes(n);
    if c.rng.chance(1, 2) { let t = data.clone(); data.extend_from_slice(&t[..n / 2]); }
    c.count("large bodies", 1);
    let enc = COMPS[c.index as usize % 3];
    decoded(c, data, enc)
}

fn decoded(c: &mut Case<'_>, data: Vec<u8>, enc: Encoding) -> CaseResult {
    let dir = c.dir.clone();
    let (z, how) = compress(&mut c.rng, enc, &data);
    let (mut d, chunked) = dialog(c, &z, Some(enc));
    let len = data.len() as u64;
    let max = if c.rng.chance(1, 2) { len } else { len + c.rng.below(100_000) };
    let t = tune(&mut c.rng, len, max, &dir);
    let before = shown(&d)?;
    let what = format!("{} of {} bytes to {}, {:?}, RAM {}, buffers {}/{}", how, len, z.len(), d.res_headers().get_all(CONTENT_ENCODING).iter().chain(d.res_headers().get_all(TRANSFER_ENCODING)).collect::<Vec<_>>(), t.max_body_ram(), t.buffer_size_ram(), t.buffer_size_fs());
    c.step(what.clone());
    match decode_res_body(&mut d, &t) {
        Ok(true) => {}
        Ok(false) => return violation(format!("{}: said not to be encoded", what)),
        Err(e) => return violation(format!("{}: {}", what, e)),
    }
    let after = shown(&d)?;
    ensure!(after.plain.res_b == data, "{}: {}", what, diff(&after.plain.res_b, &data));
    let mut want = Vec::new();
    if chunked { want.push(Encoding::Chunked); }
    want.push(enc);
    want.push(Encoding::Identity);
    ensure!(after.plain.decoded == want, "{}: decoded list {:?} instead of {:?}", what, after.plain.decoded, want);
    ensure!(rest_equal(&after.plain, &before.plain), "{}: other parts of the dialog changed", what);
    ensure!(d.res_body().len() == len, "{}: length {}", what, d.res_body().len());
    c.count("bodies decoded", 1);
    c.in_set_str("settings", &how);
    c.distinct_str(&what);
    Ok(())
}

fn plainly(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let data = body_data(&mut c.rng, 20_000);
    let (mut d, chunked) = dialog(c, &data, None);
    let t = { let r = c.rng.below(30_000); tune(&mut c.rng, data.len() as u64, r, &dir) };
    let before = shown(&d)?;
    let what = format!("{} bytes not compressed, chunked {}", data.len(), chunked);
    c.step(what.clone());
    match decode_res_body(&mut d, &t) {
        Ok(false) => {}
        Ok(true) => return violation(format!("{}: said to be decoded", what)),
        Err(e) => return violation(format!("{}: {}", what, e)),
    }
    let after = shown(&d)?;
    let want = if chunked { vec![Encoding::Chunked, Encoding::Identity] } else { vec![Encoding::Identity] };
    ensure!(after.plain.decoded == want, "{}: decoded list {:?}", what, after.plain.decoded);
    ensure!(after.plain.res_b == before.plain.res_b && after.ram == before.ram && after.map == before.map, "{}: body changed", what);
    ensure!(rest_equal(&after.plain, &before.plain), "{}: other parts of the dialog changed", what);
    c.count("bodies left alone", 1);
    c.distinct_str(&format!("{}{:?}", what, before.plain.res_h));
    Ok(())
}

/// Cut at many places.
fn truncated(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let data = body_data(&mut c.rng, 20_000);
    let enc = *c.rng.pick(&COMPS);
    let (z, how) = compress(&mut c.rng, enc, &data);
    let mut cuts: Vec<usize> = if z.len() <= 40 { (0..z.len()).collect() } else {
        let mut v: Vec<usize> = (0..12).chain(z.len() - 12..z.len()).collect();
        for _ in 0..10 { v.push(c.rng.usize(z.len())); }
        v
    };
    cuts.dedup();
    for cut in cuts {
        // A cut between members leaves a whole stream.
        if enc == Encoding::Gzip && reference(enc, &z[..cut]).map_or(false, |r| r.1) { c.count("cut between members", 1); continue; }
        let (mut d, _) = dialog(c, &z[..cut], Some(enc));
        let t = tune(&mut c.rng, data.len() as u64, data.len() as u64 + 1000, &dir);
        let before = shown(&d)?;
        let what = format!("{} of {} bytes cut at {} of {}", how, data.len(), cut, z.len());
        match decode_res_body(&mut d, &t) {
            Err(_) => {}
            Ok(b) => return violation(format!("{}: {} with {} bytes, list {:?}", what, b, d.res_body().len(), d.res_decoded())),
        }
        same(&before, &d, &what)?;
        c.count("truncations refused", 1);
        c.distinct_str(&what);
    }
    Ok(())
}

/// What the content says by the format, decoded with the dependency directly, and whether all of it was used.
fn reference(enc: Encoding, z: &[u8]) -> Option<(Vec<u8>, bool)> {
    let mut v = Vec::new();
    let mut src = std::io::Cursor::new(z);
    let ok = match enc {
        Encoding::Gzip => {
            // Complete members, as far as they go.
            let mut n = 0;
            loop {
                let (at, len) = (src.position(), v.len());
                if !flate2::bufread::GzDecoder::new(&mut src).take(50_000_000).read_to_end(&mut v).is_ok() {
                    v.truncate(len);
                    src.set_position(at);
                    break;
                }
                n += 1;
                if src.position() as usize == z.len() { break; }
            }
            n > 0
        }
        Encoding::Deflate if zlib_like(z) => flate2::bufread::ZlibDecoder::new(&mut src).take(50_000_000).read_to_end(&mut v).is_ok(),
        Encoding::Deflate => flate2::bufread::DeflateDecoder::new(&mut src).take(50_000_000).read_to_end(&mut v).is_ok(),
        _ => brotli::Decompressor::new(&mut src, 64).take(50_000_000).read_to_end(&mut v).is_ok(),
    };
    if ok { Some((v, src.position() as usize == z.len())) } else { None }
}

/// The two bytes that start the zlib format, by its specification.
fn zlib_like(z: &[u8]) -> bool {
    z.len() > 1 && z[0] & 15 == 8 && z[0] >> 4 < 8 && (z[0] as u32 * 256 + z[1] as u32) % 31 == 0
}

/// Damaged content: an error or, where the damage does not show, exactly what
/// the content now says.
fn corrupt(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let data = body_data(&mut c.rng, 8000);
    let enc = *c.rng.pick(&COMPS);
    let (z, how) = compress(&mut c.rng, enc, &data);
    for _ in 0..8 {
        let mut y = z.clone();
        let style = c.rng.below(5);
        let mut must = false;
        match style {
            0 => { let i = c.rng.usize(y.len()); y[i] ^= 1 << c.rng.below(8); }
            1 => { for _ in 0..1 + c.rng.usize(6) { let i = c.rng.usize(y.len()); y[i] = c.rng.next() as u8; } }
            2 if enc == Encoding::Gzip => { let n = y.len(); let i = n - 1 - c.rng.usize(8); y[i] ^= 1 << c.rng.below(8); must = true; }
            2 if zlib_like(&y) && enc == Encoding::Deflate => { let n = y.len(); let i = n - 1 - c.rng.usize(4); y[i] ^= 1 << c.rng.below(8); must = true; }
            2 | 3 => { let l = y.len(); y = c.rng.bytes(l); }
            _ => { y = data.clone(); }
        }
        // Damage that leaves it open which of the two forms of deflate it is.
        if enc == Encoding::Deflate && y.len() > 1 && y[0] & 15 == 8 && !must && y[..2] != z[..2] { continue; }
        let want = reference(enc, &y);
        let (mut d, _) = dialog(c, &y, Some(enc));
        let max = 60_000_000;
        let t = tune(&mut c.rng, data.len() as u64, max, &dir);
        let before = shown(&d)?;
        let what = format!("{} of {} bytes damaged (style {})", how, data.len(), style);
        match decode_res_body(&mut d, &t) {
            Err(_) => {
                ensure!(want.as_ref().map_or(true, |w| !w.1), "{}: refused though well formed", what);
                same(&before, &d, &what)?;
                c.count("damaged content refused", 1);
            }
            Ok(true) => {
                ensure!(!must, "{}: accepted with a wrong check sum or length", what);
                match want {
                    None => return violation(format!("{}: accepted with {} bytes", what, d.res_body().len())),
                    Some((v, _)) => { let got = gen::read_all(d.res_body())?; ensure!(got == v, "{}: {}", what, diff(&got, &v)); }
                }
                c.count("damage that does not show", 1);
            }
            Ok(false) => return violation(format!("{}: said not to be encoded", what)),
        }
        c.distinct(crate::rng::hash_bytes(&y));
    }
    Ok(())
}

fn limits(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut data = body_data(&mut c.rng, 30_000);
    if data.is_empty() { data.push(1); }
    if c.rng.chance(1, 6) { data = vec![0; 1_000_000 + c.rng.usize(1_000_000)]; }
    let len = data.len() as u64;
    let enc = *c.rng.pick(&COMPS);
    let (z, how) = compress(&mut c.rng, enc, &data);
    let max = match c.rng.below(3) { 0 => len - 1, 1 => c.rng.below(len), _ => len.saturating_sub(2 + c.rng.below(300)) };
    let (mut d, _) = dialog(c, &z, Some(enc));
    let t = tune(&mut c.rng, len, max, &dir);
    let before = shown(&d)?;
    let what = format!("{} of {} bytes with maximum {}", how, len, max);
    c.step(what.clone());
    match decode_res_body(&mut d, &t) {
        Err(FutioError::Body(BodyError::BodyTooLong(_))) => {}
        Err(e) => return violation(format!("{}: {}", what, e)),
        Ok(_) => return violation(format!("{}: accepted", what)),
    }
    same(&before, &d, &what)?;
    c.count("over-long content refused", 1);
    c.distinct_str(&what);
    Ok(())
}

/// Encodings that cannot be decoded, and nowhere to put what can.
fn cannot(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let data = body_data(&mut c.rng, 9000);
    if c.rng.chance(1, 2) {
        let (mut d, _) = dialog(c, &data, Some(Encoding::Compress));
        let before = shown(&d)?;
        let t = tune(&mut c.rng, data.len() as u64, 1 << 30, &dir);
        match decode_res_body(&mut d, &t) {
            Err(FutioError::UnsupportedEncoding(Encoding::Compress)) => {}
            other => return violation(format!("unsupported encoding answered {:?}", other)),
        }
        same(&before, &d, "unsupported encoding")?;
        c.count("unsupported encodings refused", 1);
        c.distinct_str(&format!("unsupported {} {:?}", data.len(), before.plain.res_h));
    } else {
        if data.is_empty() { return Ok(()); }
        let enc = *c.rng.pick(&COMPS);
        let (z, how) = compress(&mut c.rng, enc, &data);
        let (mut d, _) = dialog(c, &z, Some(enc));
        let before = shown(&d)?;
        let ram = c.rng.below(data.len() as u64);
        let est = *c.rng.pick(&[1u16, 50]);
        let t = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 30).set_temp_dir(dir.join("not-there"))
            .set_buffer_size_ram(64).set_size_estimate_gzip(est).set_size_estimate_deflate(est).set_size_estimate_brotli(est).finish();
        match decode_res_body(&mut d, &t) {
            Err(_) => { same(&before, &d, &how)?; c.count("failed for lack of storage", 1); }
            Ok(b) => {
                // The RAM limit counts whole buffers, so a little more may fit.
                let got = gen::read_all(d.res_body())?;
                ensure!(b && got == data, "{}: {}", how, diff(&got, &data));
                ensure!(d.res_body().is_ram(), "{}: stored nowhere", how);
            }
        }
        c.distinct_str(&format!("{} {} {}", how, data.len(), ram));
    }
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1200, 10_000);
    x.run("exact", n, exact);
    let n = x.tier(400, 3000);
    x.run("plain", n, plainly);
    let n = x.tier(80, 600);
    x.run("truncated", n, truncated);
    let n = x.tier(200, 2000);
    x.run("corrupt", n, corrupt);
    let n = x.tier(300, 2000);
    x.run("limits", n, limits);
    let n = x.tier(200, 1500);
    x.run("cannot", n, cannot);
    let n = x.tier(6, 36);
    x.run("large", n, large);
    x.require("large bodies", 4);
    x.require("bodies decoded", 800);
    x.require("bodies left alone", 300);
    x.require("truncations refused", 1000);
    x.require("damaged content refused", 300);
    x.require("over-long content refused", 200);
    x.require("unsupported encodings refused", 50);
    x.require("failed for lack of storage", 20);
    x.require("distinct settings", 40);
}
