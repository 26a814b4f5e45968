//! C12: malformed archives.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use barc::*;
use body_image::{BodyImage, Tunables};

use crate::archive::*;
use crate::ctx::*;
use crate::gen;
use crate::interpose::{self, Action, Event};
use crate::rng::{hash_bytes, Rng};

/// Room for header blocks of the largest size, codec state and the harness'
/// own copies of small bodies; far below what a head can announce.
const HEAP: u64 = 128 << 20;

/// What any head at `at` announces, read without judging it.
fn announced(f: &[u8], at: usize) -> Option<Head> {
    let b = f.get(at..at + 54)?;
    let n = |r: std::ops::Range<usize>| b[r].iter().fold(0u64, |a, d| a * 16 + (*d as char).to_digit(16).unwrap_or(0) as u64);
    Some(Head { len: n(6..18), kind: b[19], alg: b[20], meta: n(22..27), req_h: n(28..33), req_b: n(34..44), res_h: n(45..50) })
}

fn usable(b: &BodyImage, c: &mut Case<'_>) -> Result<Vec<u8>, Stop> {
    // Everything done with a body of a returned record ends in bytes or an error.
    let v = gen::read_all(b);
    let mut o = Vec::new();
    let w = b.write_to(&mut o);
    let mut m = b.clone();
    if m.mem_map().is_ok() {
        if let Ok(x) = gen::read_all(&m) { c.count("mapped bodies read", 1); if let Ok(v) = &v { ensure!(&x == v, "mapped body differs from the one read: {}", diff(&x, v)); } }
    }
    match (v, w) {
        (Ok(v), Ok(n)) => {
            ensure!(v.len() as u64 == b.len() && n == b.len() && o == v, "body of length {} gave {} bytes read, {} copied", b.len(), v.len(), n);
            Ok(v)
        }
        (a, z) => violation(format!("a body of a returned record is unreadable: {:?} {:?}", a.err().map(|e| e.to_string()), z.err().map(|e| e.to_string()))),
    }
}

/// Read `f` from `from` until the end, an error, or many records.
fn probe(c: &mut Case<'_>, name: &str, f: &[u8], from: u64, t: &Tunables) -> CaseResult {
    let path = c.dir.join("m.barc");
    std::fs::write(&path, f)?;
    let ops = Arc::new(AtomicU64::new(0));
    let o2 = ops.clone();
    let dir = c.dir.clone();
    let limit = 200_000 + f.len() as u64 * 8 + t.max_body().min(1 << 26) * 2;
    let w = interpose::watch(&[&dir], Arc::new(move |_: &Event| {
        if o2.fetch_add(1, SeqCst) > limit { return Action::Fail(libc::EIO); }
        Action::Go
    }));
    let mark = crate::alloc::mark();
    let mut rd = BarcFile::new(&path).reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    if rd.seek(from).is_err() { c.count("seeks refused", 1); return Ok(()); }
    let mut n = 0;
    let mut outcome = "cut";
    while n < 12 {
        let at = rd.offset();
        let r = match no_panic(|| rd.read(t)) { Ok(r) => r, Err(p) => return violation(format!("{}: read at {} of {}: {}", name, at, f.len(), p.show())) };
        ensure!(ops.load(SeqCst) <= limit, "{}: read at {} of {} bytes took over {} file operations", name, at, f.len(), limit);
        match r {
            Ok(Some(rec)) => {
                c.count("records returned", 1);
                ensure!(rd.offset() > at, "{}: a record was returned and the offset stayed at {}", name, at);
                let q = match no_panic(|| usable(&rec.req_body, c)) { Ok(r) => r?, Err(p) => return violation(format!("{}: request body: {}", name, p.show())) };
                let s = match no_panic(|| usable(&rec.res_body, c)) { Ok(r) => r?, Err(p) => return violation(format!("{}: response body: {}", name, p.show())) };
                // Only a whole, proper head starts a record.
                let hb = match f.get(at as usize..at as usize + 54) { Some(b) => b, None => return violation(format!("{}: a record without a head at {}", name, at)) };
                let digits = [6..18usize, 22..27, 28..33, 34..44, 45..50];
                let proper = &hb[..6] == b"BARC2 " && b"RD".contains(&hb[19]) && digits.iter().all(|r| hb[r.clone()].iter().all(|b| b.is_ascii_hexdigit()));
                ensure!(proper, "{}: a record was returned for {:?} at {}", name, String::from_utf8_lossy(hb), at);
                // All bytes announced are there and are what was returned.
                let h = match announced(f, at as usize) { Some(h) => h, None => return violation(format!("{}: a record without a head at {}", name, at)) };
                let p0 = at as usize + 54;
                let pl = match f.get(p0..p0.saturating_add(h.len as usize)) { Some(p) => p, None => return violation(format!("{}: record at {} announces {} bytes, the file ends before that", name, at, h.len)) };
                let raw = match h.alg { b'P' => Some(pl.to_vec()), b'Z' => lenient_gunzip(pl), b'B' => lenient_unbrotli(pl), _ => return violation("unknown compression accepted") };
                if let Some(raw) = raw {
                    let pad = if h.alg == b'P' { 2 } else { 0 };
                    let a = (h.meta + h.req_h) as usize;
                    let z = a + h.req_b as usize;
                    let cut = |from: usize, to: usize| -> Option<&[u8]> { let b = raw.get(from..to)?; Some(if b.is_empty() { b } else { b.get(..b.len().checked_sub(pad)?)? }) };
                    let wq = cut(a, z);
                    let ws = cut(z + h.res_h as usize, raw.len());
                    match (wq, ws) {
                        (Some(wq), Some(ws)) => {
                            ensure!(q == wq, "{}: record at {}: request body: {}", name, at, diff(&q, wq));
                            ensure!(s == ws, "{}: record at {}: response body: {}", name, at, diff(&s, ws));
                            c.count("returned records verified", 1);
                            let blocks = [(0, h.meta as usize, &rec.meta), (h.meta as usize, a, &rec.req_headers), (z, z + h.res_h as usize, &rec.res_headers)];
                            for (i, (from, to, got)) in blocks.iter().enumerate() {
                                let mut block = raw[*from..*to].to_vec();
                                if !block.is_empty() && pad == 0 { block.extend_from_slice(b"\r\n"); }
                                if let Some(e) = block_differs(&block, got) { return violation(format!("{}: record at {}: header block {}: {}", name, at, i, e)); }
                                if !block.is_empty() { c.count("header blocks compared", 1); }
                            }
                        }
                        _ => return violation(format!("{}: record at {} returned although its lengths exceed its content", name, at)),
                    }
                }
                n += 1;
            }
            Ok(None) => { outcome = "end"; ensure!(rd.offset() == at, "{}: offset moved from {} to {} at the end of records", name, at, rd.offset()); break; }
            Err(_) => {
                ensure!(rd.offset() == at, "{}: offset moved from {} to {} by a failed read", name, at, rd.offset());
                // And failing again is no different.
                let again = match no_panic(|| rd.read(t).is_err()) { Ok(r) => r, Err(p) => return violation(format!("{}: second read: {}", name, p.show())) };
                ensure!(again && rd.offset() == at, "{}: second read at {} differs from the first, which failed", name, at);
                outcome = "error";
                break;
            }
        }
    }
    drop(w);
    ensure!(mark.peak() <= HEAP as i64 && mark.biggest() <= HEAP, "{}: {} heap bytes in use for a file of {} (largest request {})", name, mark.peak(), f.len(), mark.biggest());
    c.count(&format!("outcome {}", outcome), 1);
    c.count("reads probed", 1);
    c.distinct(hash_bytes(f) ^ from);
    Ok(())
}

/// How the headers returned for a block differ from it, as far as it can be
/// read in just one way.
fn block_differs(block: &[u8], got: &http::HeaderMap) -> Option<String> {
    if block.is_empty() { return if got.is_empty() { None } else { Some(format!("{} headers from nothing", got.len())) }; }
    let blank = if block.starts_with(b"\r\n") { 2 } else { block.windows(4).position(|w| w == b"\r\n\r\n").map(|p| p + 4).unwrap_or(0) };
    if blank > 0 && blank < block.len() { return Some(format!("accepted although it goes on for {} bytes after its empty line", block.len() - blank)); }
    let mut rest = match block.strip_suffix(b"\r\n") { Some(r) => r, None => return None };
    let mut want: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    let trim = |v: &[u8]| -> Vec<u8> { let s = v.iter().position(|b| !b" \t".contains(b)).unwrap_or(v.len()); let e = v.iter().rposition(|b| !b" \t".contains(b)).map(|p| p + 1).unwrap_or(s); v[s..e].to_vec() };
    while !rest.is_empty() {
        let e = rest.windows(2).position(|w| w == b"\r\n")?;
        let l = &rest[..e];
        rest = &rest[e + 2..];
        let n = l.iter().position(|b| *b == b':')?;
        if n == 0 || !l[..n].iter().all(|b| b.is_ascii_alphanumeric() || b"-_".contains(b)) { return None; }
        if l[n..].iter().any(|b| *b < 32 && *b != 9 || *b == 127) { return None; }
        want.entry(String::from_utf8_lossy(&l[..n]).to_lowercase()).or_default().push(trim(&l[n + 1..]));
    }
    let have: std::collections::BTreeMap<String, Vec<Vec<u8>>> = got.keys().map(|k| (k.as_str().to_string(), got.get_all(k).iter().map(|v| trim(v.as_bytes())).collect())).collect();
    if have == want { return None; }
    let k = want.keys().chain(have.keys()).find(|k| want.get(*k) != have.get(*k));
    let show = |m: &std::collections::BTreeMap<String, Vec<Vec<u8>>>| k.and_then(|k| m.get(k)).map(|v| v.iter().map(|v| String::from_utf8_lossy(&v[..v.len().min(60)]).into_owned()).collect::<Vec<_>>());
    Some(format!("header {:?} returned as {:?} instead of {:?}", k, show(&have), show(&want)))
}

fn lenient_gunzip(b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    flate2::read::GzDecoder::new(b).take(64 << 20).read_to_end(&mut v).ok()?;
    if v.len() >= 64 << 20 { None } else { Some(v) }
}

fn lenient_unbrotli(b: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    brotli::Decompressor::new(b, 4096).take(64 << 20).read_to_end(&mut v).ok()?;
    if v.len() >= 64 << 20 { None } else { Some(v) }
}

fn tune(r: &mut Rng, dir: &std::path::Path) -> Tunables {
    let ram = match r.below(4) { 0 => 0, 1 => r.below(10), 2 => r.below(3000), _ => 1 << 20 };
    let mut t = body_image::Tuner::new();
    t.set_max_body_ram(ram).set_max_body(ram.max(1 << 20)).set_temp_dir(dir);
    t.set_buffer_size_ram(gen::buf_size(r).max(64)).set_buffer_size_fs(gen::buf_size(r).max(64));
    t.finish()
}

/// With a limit that only announced lengths come near.
fn roomy(r: &mut Rng, dir: &std::path::Path) -> Tunables {
    let t = tune(r, dir);
    if r.chance(1, 2) { return t; }
    let mut b = body_image::Tuner::new();
    // Also to RAM: more than there is.
    let (ram, max) = if r.chance(1, 4) { let m = *r.pick(&[1 << 40, 1 << 62, u64::MAX]); (m, m) } else { (t.max_body_ram(), 1 << (28 + r.below(20))) };
    b.set_max_body_ram(ram).set_max_body(max).set_temp_dir(dir);
    b.set_buffer_size_ram(t.buffer_size_ram()).set_buffer_size_fs(t.buffer_size_fs());
    b.finish()
}

/// A valid file to damage, and where its records start.
fn valid(r: &mut Rng, dir: &std::path::Path, max: u64) -> (Vec<u8>, Vec<usize>) {
    let mut f = Vec::new();
    let mut at = Vec::new();
    for _ in 0..1 + r.usize(3) {
        let (_, m) = record(r, dir, max);
        at.push(f.len());
        let a = *r.pick(&[Alg::Plain, Alg::Plain, Alg::Gzip, Alg::Brotli]);
        let e = encode(r, &m, a);
        f.extend(e);
    }
    (f, at)
}

fn start(r: &mut Rng, at: &[usize], len: usize) -> u64 {
    match r.below(6) { 0 => r.below(len as u64 + 3), 1 => *r.pick(at) as u64, _ => 0 }
}

fn truncated(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut f, at) = valid(&mut c.rng, &dir, 3000);
    let k = match c.rng.below(3) {
        0 => { let a = *c.rng.pick(&at); (a + c.rng.usize(56)).min(f.len()) }
        1 => f.len().saturating_sub(1 + c.rng.usize(6)),
        _ => c.rng.usize(f.len() + 1),
    };
    f.truncate(k);
    let t = tune(&mut c.rng, &dir);
    let from = start(&mut c.rng, &at, f.len());
    c.step(format!("{} bytes of a valid file, from {}, ram {}", k, from, t.max_body_ram()));
    probe(c, "truncated", &f, from, &t)
}

fn heads(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut f, at) = valid(&mut c.rng, &dir, 3000);
    let a = *c.rng.pick(&at);
    let total = f.len() as u64;
    let mut what = String::new();
    for _ in 0..1 + c.rng.usize(2) {
        // Field (start, digits).
        let (s, n) = *c.rng.pick(&[(6usize, 12usize), (22, 5), (28, 5), (34, 10), (45, 5)]);
        let old = announced(&f, a).map(|h| match s { 6 => h.len, 22 => h.meta, 28 => h.req_h, 34 => h.req_b, _ => h.res_h }).unwrap_or(0);
        let max = (1u64 << (4 * n)) - 1;
        let v = match c.rng.below(12) {
            0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => max, 5 => max - c.rng.below(60), 6 => old.wrapping_add(1), 7 => old.wrapping_sub(1), 8 => old.wrapping_add(2),
            9 => total - a as u64, 10 => c.rng.below(total * 2), _ => c.rng.next() >> c.rng.below(60),
        } & max;
        f[a + s..a + s + n].copy_from_slice(format!("{:0w$x}", v, w = n).as_bytes());
        what = format!("{} field@{}={}", what, s, v);
    }
    if c.rng.chance(1, 6) { let i = a + c.rng.usize(54); f[i] = c.rng.next() as u8; what.push_str(" byte"); }
    let t = roomy(&mut c.rng, &dir);
    c.step(format!("head at {}:{} ram {}", a, what, t.max_body_ram()));
    probe(c, "head", &f, if c.rng.clone().chance(1, 2) { a as u64 } else { 0 }, &t)
}

/// Lengths spelled in ways that are not hexadecimal digits but add up to the
/// right number for a careless parser.
fn misspelled(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut f, at) = valid(&mut c.rng, &dir, 3000);
    let a = *c.rng.pick(&at);
    let (s, n) = *c.rng.pick(&[(6usize, 12usize), (6, 12), (22, 5), (28, 5), (34, 10), (45, 5)]);
    let s = a + s;
    let value = |b: u8| (b as char).to_digit(16).unwrap_or(0) as u8;
    let first = (0..n).find(|i| f[s + i] != b'0').unwrap_or(n - 1);
    let style = c.rng.below(8);
    match style {
        // One borrowed from the digit before.
        0 | 1 if first + 1 < n => {
            let i = first + 1 + c.rng.usize(n - first - 1);
            if let Some(b) = (first..i).rev().find(|b| f[s + b] != b'0' && i - b == 1) {
                let up = value(f[s + i]) + 16;
                f[s + b] = b"0123456789abcdef"[value(f[s + b]) as usize - 1];
                f[s + i] = if style == 0 { b'a' - 10 + up } else { b'0' + up };
            }
        }
        // The characters after '9' for the digits after nine.
        2 => for i in 0..n { if f[s + i] >= b'a' { f[s + i] = b'0' + value(f[s + i]); } },
        // What other parsers take for leading zeros.
        3 if first > 0 => f[s] = *c.rng.pick(&[b'+', b'-', b' ', b'\t', b'\n', 0, b'_', b'.', b'o', b'O']),
        4 if first > 1 => { f[s] = b'0'; f[s + 1] = *c.rng.pick(&[b'x', b'X', b'_', b'h', b'#']); }
        5 => for i in 0..first { f[s + i] = *c.rng.pick(&[b' ', b' ', b'0']); },
        // Written from the left, with something after.
        6 => { let v = f[s + first..s + n].to_vec(); let z = *c.rng.pick(&[b' ', 0, b'h', b'\n', b'.']); for i in 0..n { f[s + i] = *v.get(i).unwrap_or(&z); } }
        // Bits that are not part of the digit.
        _ => { let i = s + c.rng.usize(n); f[i] ^= *c.rng.pick(&[0x80u8, 0x40, 0x10]); }
    }
    let t = roomy(&mut c.rng, &dir);
    c.step(format!("length of the head at {} spelled {:?}", a, String::from_utf8_lossy(&f[s..s + n])));
    if f[s..s + n].iter().any(|b| !b.is_ascii_hexdigit()) { c.count("misspelled lengths", 1); }
    probe(c, "misspelled", &f, a as u64, &t)
}

fn mutated(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut f, at) = valid(&mut c.rng, &dir, 3000);
    let n = 1 + c.rng.usize(5);
    for _ in 0..n {
        if f.is_empty() { break; }
        let i = c.rng.usize(f.len());
        match c.rng.below(6) {
            0 => f[i] ^= 1 << c.rng.below(8),
            1 => f[i] = *c.rng.pick(&[0u8, 10, 13, 32, 58, 0x7f, 0xff]),
            2 => { f.remove(i); }
            3 => f.insert(i, c.rng.next() as u8),
            4 => { let e = (i + c.rng.usize(60)).min(f.len()); f.drain(i..e); }
            _ => { let e = (i + c.rng.usize(60)).min(f.len()); let p: Vec<u8> = f[i..e].to_vec(); let j = c.rng.usize(f.len()); f.splice(j..j, p); }
        }
    }
    let t = roomy(&mut c.rng, &dir);
    let from = start(&mut c.rng, &at, f.len());
    c.step(format!("{} mutations, {} bytes, from {}, ram {}", n, f.len(), from, t.max_body_ram()));
    probe(c, "mutated", &f, from, &t)
}

/// Files made up from scratch.
fn invented(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut f = Vec::new();
    let mut what = Vec::new();
    for _ in 0..1 + c.rng.usize(3) {
        let (alg, pay): (u8, Vec<u8>) = {
            let l = gen::len(&mut c.rng, 2000) as usize;
            let inner = match c.rng.below(8) {
                0 => vec![b'\n'; l],
                1 => b"\r\n".iter().cycle().take(l).cloned().collect(),
                2 => b"a:\r\n".iter().cycle().take(l).cloned().collect(),
                3 => b": \r\n".iter().cycle().take(l).cloned().collect(),
                4 => c.rng.bytes(l),
                5 => b"a: b\r\n\r\n\r\n".iter().cycle().take(l).cloned().collect(),
                6 => vec![0; l],
                _ => c.rng.text(l),
            };
            match c.rng.below(5) {
                0 => { use std::io::Write; let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(1)); e.write_all(&inner)?; (b'Z', e.finish()?) }
                1 => { use std::io::Write; let mut o = Vec::new(); { let mut e = brotli::CompressorWriter::new(&mut o, 4096, 2, 16); e.write_all(&inner)?; } (b'B', o) }
                2 => (*c.rng.pick(&[b'Z', b'B']), inner),
                _ => (b'P', inner),
            }
        };
        let n = pay.len() as u64 + 4;
        let len = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => r.below(4), 2 => r.below(n + 2), 3 => n - 4, 4 => r.below(n / 3 + 1), _ => 0 };
        let h = Head { len: if c.rng.chance(3, 4) { pay.len() as u64 } else { len(&mut c.rng) }, kind: *c.rng.pick(&[b'D', b'D', b'D', b'R', b'x']), alg: if c.rng.chance(1, 20) { b'?' } else { alg },
            meta: len(&mut c.rng), req_h: len(&mut c.rng), req_b: len(&mut c.rng), res_h: len(&mut c.rng) };
        what.push(format!("{}{} len {} {}/{}/{}/{}", h.kind as char, h.alg as char, h.len, h.meta, h.req_h, h.req_b, h.res_h));
        f.extend(head_bytes(&h));
        f.extend(pay);
    }
    if c.rng.chance(1, 8) { let l = c.rng.usize(200); f = c.rng.bytes(l); what = vec![format!("{} random bytes", l)]; }
    let t = roomy(&mut c.rng, &dir);
    c.step(format!("{:?} ram {}", what, t.max_body_ram()));
    probe(c, "invented", &f, 0, &t)
}

/// Compressed records that expand enormously, and huge header blocks.
fn bombs(c: &mut Case<'_>) -> CaseResult {
    use std::io::Write;
    let dir = c.dir.clone();
    let gz = c.rng.chance(1, 2);
    let n = 1usize << (20 + c.rng.usize(6));
    let fill: &[u8] = *c.rng.pick(&[&b"\0"[..], b"a:\r\n", b"a: b\r\n", b"\r\n", b"x"]);
    let block: Vec<u8> = fill.iter().cycle().take(fill.len() * (65536 / fill.len())).cloned().collect();
    let mut pay = Vec::new();
    if gz {
        let mut e = flate2::write::GzEncoder::new(&mut pay, flate2::Compression::new(1));
        let mut k = 0; while k < n { e.write_all(&block)?; k += block.len(); }
        e.finish()?;
    } else {
        let mut e = brotli::CompressorWriter::new(&mut pay, 4096, 2, 20);
        let mut k = 0; while k < n { e.write_all(&block)?; k += block.len(); }
    }
    let hmax = 0xfffffu64;
    let hl = (hmax / fill.len() as u64) * fill.len() as u64;
    let mut h = Head { len: pay.len() as u64, kind: b'D', alg: if gz { b'Z' } else { b'B' }, meta: 0, req_h: 0, req_b: 0, res_h: 0 };
    match c.rng.below(5) { 0 => h.meta = hl, 1 => h.req_b = 0xff_ffff_ffff, 2 => h.req_b = n as u64 / 2, 3 => { h.meta = hl; h.req_h = hl; h.res_h = hl; } _ => {} }
    let mut f = head_bytes(&h);
    f.extend(pay);
    let t = tune(&mut c.rng, &dir);
    c.step(format!("{} bytes expanding to {}, fill {:?}, meta {} req_b {}, ram {}", f.len(), n, fill, h.meta, h.req_b, t.max_body_ram()));
    c.count("expanding records", 1);
    probe(c, "bomb", &f, 0, &t)
}

/// Positions that are no record heads.
fn seeks(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (f, _) = valid(&mut c.rng, &dir, 1000);
    let t = tune(&mut c.rng, &dir);
    for _ in 0..6 {
        let from = match c.rng.below(6) {
            0 => *c.rng.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 - 53, i64::MAX as u64 - 54, i64::MAX as u64 + 1, 1 << 48, 1 << 62]),
            1 => f.len() as u64 + c.rng.below(3),
            2 => (f.len() as u64).saturating_sub(c.rng.below(60)),
            _ => c.rng.below(f.len() as u64 + 1),
        };
        c.step(format!("from {} of {}", from, f.len()));
        probe(c, "seek", &f, from, &t)?;
        c.count("positions probed", 1);
    }
    Ok(())
}

/// One valid file cut at every byte.
fn every_cut(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (rec, m) = record(&mut c.rng, &dir, 200);
    drop(rec);
    let m = Model { meta: m.meta.into_iter().take(1).collect(), req_h: vec![], res_h: m.res_h.into_iter().take(1).collect(), ..m };
    let a = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
    let f = encode(&mut c.rng, &m, a);
    let t = tune(&mut c.rng, &dir);
    let f = if f.len() > 700 { f[..700].to_vec() } else { f };
    c.step(format!("{:?} record of {} bytes cut everywhere", a, f.len()));
    for k in 0..f.len() { probe(c, "cut", &f[..k], 0, &t)?; }
    c.count("cut positions", f.len() as u64);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 8_000);
    x.run("truncated", n, truncated);
    let n = x.tier(3000, 16_000);
    x.run("heads", n, heads);
    let n = x.tier(1200, 6_000);
    x.run("misspelled", n, misspelled);
    x.require("misspelled lengths", 500);
    let n = x.tier(2500, 13_000);
    x.run("mutated", n, mutated);
    let n = x.tier(3000, 16_000);
    x.run("invented", n, invented);
    let n = x.tier(20, 80);
    x.run("bombs", n, bombs);
    let n = x.tier(150, 800);
    x.run("seeks", n, seeks);
    let n = x.tier(6, 40);
    x.run("every-cut", n, every_cut);
    x.require("outcome error", 2000);
    x.require("outcome end", 500);
    x.require("returned records verified", 1000);
    x.require("header blocks compared", 1000);
}
