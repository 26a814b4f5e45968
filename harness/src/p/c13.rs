//! C13: the published format, in both directions.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use barc::*;

use crate::archive::*;
use crate::ctx::*;
use crate::gen;
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::hash_bytes;

fn outward(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let f = BarcFile::new(&path);
    let mut want = Vec::new();
    for _ in 0..1 + c.rng.usize(4) {
        let (rec, m) = record(&mut c.rng, &dir, 40_000);
        let s = Strat::any(&mut c.rng);
        let at = f.writer().and_then(|mut w| w.write(&rec, &*s.boxed())).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
        c.step(format!("{} req {} res {}", s.short(), m.req_b.len(), m.res_b.len()));
        want.push((at, m, s));
    }
    let img = std::fs::read(&path)?;
    let got = decode_all(&img).map_err(|e| Stop::Violation(format!("not the published format: {}", e)))?;
    ensure!(got.len() == want.len(), "{} records in the file, {} written", got.len(), want.len());
    for (i, (g, (at, m, s))) in got.iter().zip(&want).enumerate() {
        ensure!(g.at == *at, "record {} found at {}, write said {}", i, g.at, at);
        ensure!(&g.model == m, "record {} ({}) decodes to something else: {}", i, s.short(), first_diff(&g.model, m));
        ensure!(g.alg == s.alg || g.alg == Alg::Plain, "record {} stored as {:?} by {}", i, g.alg, s.short());
        for ls in &g.lines {
            for (n, _) in ls { ensure!(n.iter().all(|b| b.is_ascii_graphic() && !b.is_ascii_uppercase()), "header name {:?}", String::from_utf8_lossy(n)); }
        }
        if g.alg == Alg::Plain {
            let pad = |n: usize| if n == 0 { 0 } else { n as u64 + 2 };
            let w = [pad(size_of(&m.meta)), pad(size_of(&m.req_h)), pad(m.req_b.len()), pad(size_of(&m.res_h))];
            ensure!(g.lens[1..] == w, "record {}: lengths {:?} instead of {:?}", i, &g.lens[1..], w);
        } else {
            let w = [size_of(&m.meta) as u64, size_of(&m.req_h) as u64, m.req_b.len() as u64, size_of(&m.res_h) as u64];
            ensure!(g.lens[1..] == w, "record {}: lengths {:?} instead of {:?}", i, &g.lens[1..], w);
        }
        c.count(&format!("records decoded {:?}", g.alg), 1);
    }
    c.distinct(hash_bytes(&img));
    Ok(())
}

fn first_diff(a: &Model, b: &Model) -> String {
    if a.meta != b.meta { return "meta".into(); }
    if a.req_h != b.req_h { return "request headers".into(); }
    if a.res_h != b.res_h { return "response headers".into(); }
    if a.req_b != b.req_b { return format!("request body {}", diff(&a.req_b, &b.req_b)); }
    format!("response body {}", diff(&a.res_b, &b.res_b))
}

/// Other implementations may spell names in any case.
fn respell(r: &mut crate::rng::Rng, c: &Canon) -> Canon {
    c.iter().map(|(n, v)| (n.chars().map(|ch| if r.chance(1, 3) { ch.to_ascii_uppercase() } else { ch }).collect(), v.clone())).collect()
}

fn inward(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut img = Vec::new();
    let mut want = Vec::new();
    for _ in 0..1 + c.rng.usize(4) {
        let (_, m) = record(&mut c.rng, &dir, 40_000);
        let a = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
        let spelled = if c.rng.chance(1, 3) { Model { meta: respell(&mut c.rng, &m.meta), req_h: respell(&mut c.rng, &m.req_h), res_h: respell(&mut c.rng, &m.res_h), ..m.clone() } } else { m.clone() };
        let at = img.len() as u64;
        let e = encode(&mut c.rng, &spelled, a);
        img.extend(e);
        c.step(format!("{:?} req {} res {}", a, m.req_b.len(), m.res_b.len()));
        want.push((at, m, a));
    }
    // A record still being written by someone.
    if c.rng.chance(1, 4) {
        img.extend(head_bytes(&Head { len: 0, kind: b'R', alg: b'P', meta: 0, req_h: 0, req_b: 0, res_h: 0 }));
        let l = c.rng.usize(300);
        let junk = c.rng.bytes(l);
        img.extend(junk);
        c.step("reserved head at the end");
    }
    let path = dir.join("a.barc");
    std::fs::write(&path, &img)?;
    let t = reader_tune(&mut c.rng, &dir);
    let mut rd = BarcFile::new(&path).reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    for (i, (at, m, a)) in want.iter().enumerate() {
        ensure!(rd.offset() == *at, "record {} expected at {}, reader is at {}", i, at, rd.offset());
        match rd.read(&t).map_err(|e| Stop::Violation(format!("record {} ({:?}): {}", i, a, e)))? {
            None => return violation(format!("end of records at {} of {}", i, want.len())),
            Some(rec) => if let Some(d) = differs(&rec, m) { return violation(format!("record {} ({:?}): {}", i, a, d)); }
        }
        c.count(&format!("records read {:?}", a), 1);
    }
    ensure!(rd.read(&t).map_err(|e| Stop::Violation(format!("at the end: {}", e)))?.is_none(), "a record after the last");
    c.distinct(hash_bytes(&img));
    Ok(())
}

/// The public helpers for blocks.
fn blocks(c: &mut Case<'_>) -> CaseResult {
    let h = gen::headers(&mut c.rng);
    let crlf = c.rng.chance(1, 2);
    let mut o = Vec::new();
    let n = write_headers(&mut o, crlf, &h).map_err(|e| Stop::Violation(e.to_string()))?;
    ensure!(n == o.len(), "write_headers reported {} and wrote {}", n, o.len());
    let mut want = gen::canon(&h);
    want.sort();
    let total = size_of(&want) + if crlf && !h.is_empty() { 2 } else { 0 };
    ensure!(o.len() == total, "header block of {} bytes instead of {}", o.len(), total);
    let l = gen::len(&mut c.rng, 9000) as usize;
    let d = c.rng.bytes(l);
    let st = *c.rng.pick(&gen::STATES);
    let dir = c.dir.clone();
    let b = gen::body(&mut c.rng, st, &d, &dir);
    let mut o = Vec::new();
    let n = write_body(&mut o, crlf, &b).map_err(|e| Stop::Violation(e.to_string()))?;
    let mut want = d.clone();
    if crlf && !d.is_empty() { want.extend_from_slice(b"\r\n"); }
    ensure!(n == o.len() as u64 && o == want, "body block claims {}: {}", n, diff(&o, &want));
    c.step(format!("{} headers, {:?} body {}", h.len(), st, l));
    c.count("blocks written", 2);
    c.distinct_str(&format!("{}{:?}{}{}", h.len(), st, l, crlf));
    Ok(())
}

/// A header block of `size` bytes, or none if that cannot be had.
pub fn header_block(r: &mut crate::rng::Rng, size: usize) -> http::HeaderMap {
    let mut m = http::HeaderMap::new();
    let mut left = size;
    let mut i = 0;
    while left >= 9 {
        let name = format!("n{:04x}", i);
        let all = left - 9;
        // What stays has to hold another line, or nothing.
        let mut v = if r.chance(1, 20) { all } else { r.usize(1 + all.min(30_000)) };
        if all - v > 0 && all - v < 9 { v = if all < 9 { all } else { all - 9 }; }
        m.append(http::header::HeaderName::from_bytes(name.as_bytes()).unwrap(), http::HeaderValue::from_bytes(&r.text(v).iter().map(|b| if b.is_ascii_graphic() { *b } else { b'_' }).collect::<Vec<u8>>()).unwrap());
        left = all - v;
        i += 1;
    }
    m
}

/// Blocks up to the largest their length fields can tell.
pub fn large(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("l.barc");
    let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
    let most = 0xfffff - if alg == Alg::Plain { 2 } else { 0 };
    let mut sizes = [0usize; 3];
    let which = c.rng.usize(3);
    for (i, s) in sizes.iter_mut().enumerate() {
        *s = match c.rng.below(if i == which { 5 } else { 8 }) {
            0 => most - c.rng.usize(3),
            1 => (0x10000usize * (1 + c.rng.usize(15))).wrapping_add(c.rng.usize(9)).wrapping_sub(4).min(most),
            2 => 0x10000 + c.rng.usize(most - 0x10000),
            3 => 4096 + c.rng.usize(0x10000),
            4 => most,
            _ => c.rng.usize(300),
        };
    }
    let h: Vec<http::HeaderMap> = sizes.iter().map(|s| header_block(&mut c.rng, *s)).collect();
    let (rec, m) = record(&mut c.rng, &dir, 3000);
    let mut m = Model { meta: gen::canon(&h[0]), req_h: gen::canon(&h[1]), res_h: gen::canon(&h[2]), ..m };
    let real = [size_of(&m.meta), size_of(&m.req_h), size_of(&m.res_h)];
    c.step(format!("{:?} blocks of {:?}", alg, real));
    for s in real { if s >= 0x10000 { c.count("blocks of 64 KiB and more", 1); } }
    let s = Strat::force(alg);
    let mut rec = Record { meta: h[0].clone(), req_headers: h[1].clone(), res_headers: h[2].clone(), ..rec };
    // Without a type worth compressing the record stays plain, whose blocks are longer.
    if alg != Alg::Plain {
        for h in [&mut rec.req_headers, &mut rec.res_headers] { if size_of(&gen::canon(h)) + 30 < 0xffff0 { h.insert("content-type", "text/plain".parse().unwrap()); } }
        m.req_h = gen::canon(&rec.req_headers);
        m.res_h = gen::canon(&rec.res_headers);
        let fits = |c: &Canon| size_of(c) + 2 <= 0xfffff;
        if !(fits(&m.meta) && fits(&m.req_h) && fits(&m.res_h)) { return outer(c, &path, &m, alg); }
    }
    let f = BarcFile::new(&path);
    let at = f.writer().and_then(|mut w| w.write(&rec, &*s.boxed())).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
    let got = decode_all(&std::fs::read(&path)?).map_err(|e| Stop::Violation(format!("not the published format: {}", e)))?;
    ensure!(at == 0 && got.len() == 1, "{} records, the first at {}", got.len(), at);
    ensure!(got[0].model == m, "large record decodes to something else: {}", first_diff(&got[0].model, &m));
    back(c, &path, &m, alg)?;
    outer(c, &path, &m, alg)
}

fn back(c: &mut Case<'_>, path: &std::path::Path, m: &Model, a: Alg) -> CaseResult {
    let dir = c.dir.clone();
    let t = reader_tune(&mut c.rng, &dir);
    let mut rd = BarcFile::new(path).reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    match rd.read(&t).map_err(|e| Stop::Violation(format!("large record ({:?}): {}", a, e)))? {
        None => return violation("a large record is missing"),
        Some(rec) => if let Some(d) = differs(&rec, m) { return violation(format!("large record ({:?}): {}", a, d)); }
    }
    ensure!(rd.read(&t).map_err(|e| Stop::Violation(format!("after a large record: {}", e)))?.is_none(), "a record after the last");
    c.count("large records read", 1);
    Ok(())
}

fn outer(c: &mut Case<'_>, path: &std::path::Path, m: &Model, alg: Alg) -> CaseResult {
    let e = encode(&mut c.rng, m, alg);
    c.distinct(hash_bytes(&e));
    std::fs::write(path, e)?;
    back(c, path, m, alg)
}

/// Bodies and positions beyond what 32 bits tell, in files that are mostly holes.
pub fn vast(c: &mut Case<'_>) -> CaseResult {
    use std::io::{Read, Seek, SeekFrom};
    use std::os::unix::fs::FileExt;
    let dir = c.dir.clone();
    let path = dir.join("v.barc");
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path)?;
    let big = (1u64 << (32 + c.rng.below(3))) + match c.rng.below(3) { 0 => 0, 1 => c.rng.below(5000), _ => c.rng.below(1 << 33) };
    let in_req = c.rng.chance(1, 2);
    let (_, small) = record(&mut c.rng, &dir, 2000);
    let small = Model { req_b: vec![], res_b: vec![], ..small };
    let mut lead = encode(&mut c.rng, &small, Alg::Plain);
    let h = head(&lead).map_err(Stop::Harness)?;
    // The head again, with a body in the middle or at the end.
    let hd = head_bytes(&Head { len: h.len + big + 2, req_b: if in_req { big + 2 } else { 0 }, ..h });
    lead[..54].copy_from_slice(&hd);
    let tail = lead.split_off(54 + (h.meta + h.req_h) as usize);
    let body_at = if in_req { lead.len() as u64 } else { (lead.len() + tail.len()) as u64 };
    f.write_all_at(&lead, 0)?;
    if in_req { f.write_all_at(&tail, body_at + big + 2)?; } else { f.write_all_at(&tail, lead.len() as u64)?; }
    f.write_all_at(b"
", body_at + big)?;
    let marks: Vec<(u64, [u8; 8])> = (0..6).map(|i| {
        let p = match i { 0 => 0, 1 => big - 8, 2 => (1u64 << 32) - 4, 3 => (1u64 << 31) - 4, _ => c.rng.below(big - 8) };
        (p.min(big - 8), c.rng.next().to_le_bytes())
    }).collect();
    for (p, b) in &marks { f.write_all_at(b, body_at + p)?; }
    let want: Vec<(u64, Vec<u8>)> = marks.iter().map(|(p, _)| { let mut b = vec![0; 8]; f.read_exact_at(&mut b, body_at + p).map(|_| (*p, b)) }).collect::<Result<_, _>>()?;
    let end = 54 + h.len + big + 2;
    f.set_len(end)?;
    drop(f);
    c.step(format!("{} body of {}", if in_req { "request" } else { "response" }, big));
    // One more, appended far out.
    let (rec2, m2) = record(&mut c.rng, &dir, 2000);
    let s = Strat::any(&mut c.rng);
    let at2 = BarcFile::new(&path).writer().and_then(|mut w| w.write(&rec2, &*s.boxed())).map_err(|e| Stop::Violation(format!("append at {}: {}", end, e)))?;
    ensure!(at2 == end, "appended at {} to a file of {}", at2, end);
    let mut t = body_image::Tuner::new();
    t.set_max_body_ram(c.rng.below(100_000)).set_max_body(1 << 40).set_temp_dir(&dir);
    let t = t.finish();
    let mut rd = BarcFile::new(&path).reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    let mut rec = match rd.read(&t).map_err(|e| Stop::Violation(format!("record of {}: {}", big, e)))? { Some(r) => r, None => return violation("the vast record is missing") };
    let (b, o) = if in_req { (&mut rec.req_body, rec.res_body.len()) } else { (&mut rec.res_body, rec.req_body.len()) };
    ensure!(b.len() == big && o == 0, "body of {} reads as {}, the other as {}", big, b.len(), o);
    ensure!(gen::canon(&rec.meta) == small.meta && gen::canon(&rec.req_headers) == small.req_h && gen::canon(&rec.res_headers) == small.res_h, "headers around a body of {} differ", big);
    let mapped = c.rng.chance(1, 2);
    if mapped { b.mem_map().map_err(|e| Stop::Violation(format!("mapping {}: {}", big, e)))?; }
    for (p, w) in &want {
        let mut g = vec![0u8; 8];
        match b.reader() {
            body_image::BodyReader::FileSlice(ref mut s) => { s.seek(SeekFrom::Start(*p)).and_then(|_| s.read_exact(&mut g)).map_err(|e| Stop::Violation(format!("{} bytes at {}: {}", g.len(), p, e)))?; }
            body_image::BodyReader::Contiguous(ref mut s) => { s.set_position(*p); s.read_exact(&mut g).map_err(|e| Stop::Violation(format!("{} bytes at {}: {}", g.len(), p, e)))?; }
            _ => return Err(Stop::Harness("a vast body held in parts".into())),
        }
        ensure!(&g == w, "{:?} at {} instead of {:?}", g, p, w);
        c.count("far bytes compared", 8);
    }
    ensure!(rd.offset() == end, "next record at {} instead of {}", rd.offset(), end);
    match rd.read(&t).map_err(|e| Stop::Violation(format!("record at {}: {}", end, e)))? {
        None => return violation(format!("record at {} is missing", end)),
        Some(rec) => if let Some(d) = differs(&rec, &m2) { return violation(format!("record at {}: {}", end, d)); }
    }
    let mut rd = BarcFile::new(&path).reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    rd.seek(at2).map_err(|e| Stop::Violation(format!("seek to {}: {}", at2, e)))?;
    ensure!(rd.offset() == at2, "at {} behind a seek to {}", rd.offset(), at2);
    match rd.read(&t).map_err(|e| Stop::Violation(format!("record at {}: {}", at2, e)))? {
        None => return violation(format!("record at {} is missing behind a seek", at2)),
        Some(rec) => if let Some(d) = differs(&rec, &m2) { return violation(format!("record at {} behind a seek: {}", at2, d)); }
    }
    ensure!(rd.read(&t).map_err(|e| Stop::Violation(format!("at the end: {}", e)))?.is_none(), "a record after the last");
    c.count("vast records read", 1);
    c.distinct_str(&format!("{}{}{}", big, in_req, mapped));
    Ok(())
}

/// Bodies above 4 GiB, of zeros but for their ends, written. Zeros on their way to the file become
/// holes, so that neither disk nor time is spent on them.
pub fn vast_written(c: &mut Case<'_>) -> CaseResult {
    use std::os::unix::fs::FileExt;
    const END: usize = 1 << 16;
    const STEP: usize = 0x7fff_f000;
    static ZEROS: [u8; 4 * END] = [0; 4 * END];
    let dir = c.dir.clone();
    // Reading from the file is slow at this size: one body, barely above.
    let file_read = c.index % 8 == 7;
    let sizes: Vec<u64> = if file_read {
        let b = (1u64 << 32) + c.rng.below(5000);
        if c.rng.chance(1, 2) { vec![b, 0] } else { vec![0, b] }
    } else {
        (0..2).map(|i| if i == 0 && c.rng.chance(1, 3) { c.rng.below(50) } else { (1u64 << (32 + c.rng.below(4))) + match c.rng.below(3) { 0 => 0, 1 => c.rng.below(5000), _ => c.rng.below(1 << 33) } }).collect()
    };
    let mut bodies = Vec::new();
    let mut marks: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join(format!("body{}", i)))?;
        f.set_len(*n)?;
        let k = (*n).min(8);
        let (a, z) = (c.rng.bytes(k as usize), c.rng.bytes(k as usize));
        f.write_all_at(&a, 0)?;
        f.write_all_at(&z, n - k)?;
        let (mut a, mut z) = (a, z);
        f.read_exact_at(&mut a, 0)?;
        f.read_exact_at(&mut z, n - k)?;
        marks.push((a, z));
        let mut b = unsafe { body_image::BodyImage::from_read_slice(olio::fs::rc::ReadSlice::new(std::sync::Arc::new(f), 0, *n)) };
        if !file_read && *n > 0 { b.mem_map().map_err(|e| Stop::Violation(format!("mapping {}: {}", n, e)))?; }
        bodies.push(b);
    }
    c.step(format!("bodies of {:?}, {}", sizes, if file_read { "read" } else { "mapped" }));
    let (mut rec, m) = record(&mut c.rng, &dir, 2000);
    rec.res_body = bodies.pop().unwrap();
    rec.req_body = bodies.pop().unwrap();
    let out = dir.join("out");
    std::fs::create_dir(&out)?;
    let path = out.join("v.barc");
    let holes = Arc::new(AtomicU64::new(0));
    let n = holes.clone();
    let w = interpose::watch(&[&out], Arc::new(move |e: &Event| {
        if e.phase != Phase::Before || !matches!(e.op, Op::Write | Op::Pwrite) || e.len < 4096 { return Action::Go; }
        let (p, len) = match e.data { Some((p, _)) => (p, e.len.min(STEP)), None => return Action::Go };
        let (lead, tail) = if len > 4 * END { (END, END) } else { (0, 0) };
        let at = |o: usize, l: usize| unsafe { std::slice::from_raw_parts((p + o) as *const u8, l) };
        if lead == 0 && at(0, len) != &ZEROS[..len] { return Action::Go; }
        unsafe {
            let off = if e.op == Op::Pwrite { e.off } else { libc::lseek64(e.fd, 0, libc::SEEK_CUR) };
            if off < 0 { return Action::Go; }
            let end = off + len as i64;
            let f = std::mem::ManuallyDrop::new(<std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(e.fd));
            let ok = f.metadata().map(|m| (m.len() as i64) <= off).unwrap_or(false)
                && f.set_len(end as u64).is_ok()
                && f.write_all_at(at(0, lead), off as u64).is_ok()
                && f.write_all_at(at(len - tail, tail), (end - tail as i64) as u64).is_ok();
            if !ok { return Action::Go; }
            if e.op == Op::Write { libc::lseek64(e.fd, end, libc::SEEK_SET); }
        }
        n.fetch_add((len - lead - tail) as u64, SeqCst);
        Action::Done(len as i64)
    }));
    let f = BarcFile::new(&path);
    let r = f.writer().and_then(|mut w| {
        let a = w.write(&rec, &barc::NoCompressStrategy::default())?;
        Ok((a, w))
    });
    let (at, mut wr) = match r {
        Ok(r) => r,
        // Without the holes this may be more than the disk has.
        Err(barc::BarcError::Io(ref e)) if e.raw_os_error() == Some(libc::ENOSPC) => { drop(w); c.count("disk too small", 1); return Ok(()); }
        Err(e) => { drop(w); return violation(format!("writing bodies of {:?}: {}", sizes, e)); }
    };
    let (rec2, m2) = record(&mut c.rng, &dir, 2000);
    let at2 = wr.write(&rec2, &barc::NoCompressStrategy::default());
    drop(w);
    let at2 = at2.map_err(|e| Stop::Violation(format!("writing behind: {}", e)))?;
    c.count("bytes written as holes", holes.load(SeqCst));
    let g = std::fs::File::open(&path)?;
    let mut hb = [0u8; 54];
    g.read_exact_at(&mut hb, at).map_err(|e| Stop::Violation(format!("head at {}: {}", at, e)))?;
    let h = head(&hb).map_err(|e| Stop::Violation(format!("head {:?}: {}", String::from_utf8_lossy(&hb), e)))?;
    let with = |n: u64| if n == 0 { 0 } else { n + 2 };
    ensure!(h.req_b == with(sizes[0]), "request body of {} stated as {}", sizes[0], h.req_b);
    let res_b = h.len.checked_sub(h.meta + h.req_h + h.req_b + h.res_h);
    ensure!(res_b == Some(with(sizes[1])), "response body of {} stated as {:?}", sizes[1], res_b);
    ensure!(at2 == at + 54 + h.len, "record of {} at {}, the next at {}", h.len, at, at2);
    let starts = [at + 54 + h.meta + h.req_h, at + 54 + h.meta + h.req_h + h.req_b + h.res_h];
    for i in 0..2 {
        let (a, z) = &marks[i];
        let mut b = vec![0u8; a.len()];
        for (p, w) in [(starts[i], a), (starts[i] + sizes[i] - z.len() as u64, z)].iter() {
            g.read_exact_at(&mut b, *p)?;
            ensure!(&b == *w, "{:?} at {} instead of {:?}", b, p, w);
            c.count("far bytes compared", b.len() as u64);
        }
    }
    let mut t = body_image::Tuner::new();
    t.set_max_body_ram(100_000).set_max_body(1 << 40).set_temp_dir(&dir);
    let t = t.finish();
    let mut rd = f.reader().map_err(|e| Stop::Violation(format!("open: {}", e)))?;
    match rd.read(&t).map_err(|e| Stop::Violation(format!("reading {:?}: {}", sizes, e)))? {
        None => return violation("the vast record is missing"),
        Some(r) => {
            ensure!(r.req_body.len() == sizes[0] && r.res_body.len() == sizes[1], "bodies of {:?} read as {} and {}", sizes, r.req_body.len(), r.res_body.len());
            ensure!(gen::canon(&r.meta) == m.meta && gen::canon(&r.req_headers) == m.req_h && gen::canon(&r.res_headers) == m.res_h, "headers around {:?} differ", sizes);
        }
    }
    match rd.read(&t).map_err(|e| Stop::Violation(format!("record at {}: {}", at2, e)))? {
        None => return violation(format!("record at {} is missing", at2)),
        Some(rec) => if let Some(d) = differs(&rec, &m2) { return violation(format!("record at {}: {}", at2, d)); }
    }
    c.count("vast records written", 1);
    c.distinct_str(&format!("{:?}{}", sizes, file_read));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(500, 6000);
    x.run("written-decoded", n, outward);
    let n = x.tier(500, 6000);
    x.run("encoded-read", n, inward);
    let n = x.tier(300, 3000);
    x.run("blocks", n, blocks);
    let n = x.tier(60, 500);
    x.run("large-blocks", n, large);
    let n = x.tier(30, 200);
    x.run("vast-bodies", n, vast);
    if cfg!(feature = "interpose") {
        let n = x.tier(8, 40);
        x.run("vast-written", n, vast_written);
    }
    x.require("blocks of 64 KiB and more", 30);
    x.require("vast records read", 15);
    for a in ["Plain", "Gzip", "Brotli"] {
        x.require(&format!("records decoded {}", a), 100);
        x.require(&format!("records read {}", a), 100);
    }
}
