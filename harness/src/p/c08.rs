//! C08: archive round trip.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use barc::*;
use http::header::{HeaderMap, HeaderName};

use crate::archive::*;
use crate::ctx::*;
use crate::gen::{self, canon};
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::{mix, Rng};

fn write_err(e: BarcError) -> Stop { Stop::Violation(format!("write failed: {}", e)) }
fn read_err(e: BarcError) -> Stop { Stop::Violation(format!("read failed: {}", e)) }

fn check_all(c: &mut Case<'_>, f: &BarcFile, want: &[(u64, Model)]) -> CaseResult {
    let dir = c.dir.clone();
    let t = reader_tune(&mut c.rng, &dir);
    let mut rd = f.reader().map_err(read_err)?;
    let mut kept = Vec::new();
    for (i, (_, m)) in want.iter().enumerate() {
        let rec = match rd.read(&t).map_err(read_err)? { Some(r) => r, None => return violation(format!("end of records at {} of {}", i, want.len())) };
        if let Some(d) = differs(&rec, m) { return violation(format!("record {} of {} (ram limit {}): {}", i, want.len(), t.max_body_ram(), d)); }
        c.count("records compared", 1);
        c.count(match (rec.res_body.is_ram(), rec.res_body.is_empty()) { (_, true) => "empty response bodies", (true, _) => "response bodies read to RAM", _ => "response bodies left in files" }, 1);
        kept.push(rec);
    }
    ensure!(rd.read(&t).map_err(read_err)?.is_none(), "a record after the last one");
    // Still the same when the reader is gone and memory mapped.
    drop(rd);
    for (i, rec) in kept.iter_mut().enumerate() {
        rec.req_body.mem_map().map_err(|e| Stop::Violation(format!("map: {}", e)))?;
        rec.res_body.mem_map().map_err(|e| Stop::Violation(format!("map: {}", e)))?;
        if let Some(d) = differs(rec, &want[i].1) { return violation(format!("record {} mapped: {}", i, d)); }
        c.count("records compared", 1);
    }
    Ok(())
}

fn round_trip(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let f = BarcFile::new(dir.join("a.barc"));
    let n = 1 + c.rng.usize(4);
    let mut want = Vec::new();
    let mut d = String::new();
    for _ in 0..n {
        let (rec, m) = record(&mut c.rng, &dir, 80_000);
        let s = Strat::any(&mut c.rng);
        c.step(format!("{} meta {} req {}+{} res {}+{}", s.short(), size_of(&m.meta), size_of(&m.req_h), m.req_b.len(), size_of(&m.res_h), m.res_b.len()));
        d.push_str(c.trace.last().unwrap());
        let at = f.writer().map_err(write_err)?.write(&rec, &*s.boxed()).map_err(write_err)?;
        // Writing leaves the record given as it was.
        if let Some(x) = differs(&rec, &m) { return violation(format!("record changed by writing it: {}", x)); }
        c.count("records written", 1);
        want.push((at, m));
    }
    check_all(c, &f, &want)?;
    c.distinct_str(&d);
    Ok(())
}

/// Records read from one archive (bodies still in it) written to another, or
/// to the same one again.
fn rewrite(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let fa = BarcFile::new(dir.join("a.barc"));
    let same = c.rng.chance(1, 3);
    let mut want = Vec::new();
    for _ in 0..1 + c.rng.usize(3) {
        let (rec, m) = record(&mut c.rng, &dir, 30_000);
        let s = Strat::any(&mut c.rng);
        let at = fa.writer().map_err(write_err)?.write(&rec, &*s.boxed()).map_err(write_err)?;
        want.push((at, m));
    }
    let t = reader_tune(&mut c.rng, &dir);
    let mut rd = fa.reader().map_err(read_err)?;
    let mut recs = Vec::new();
    while let Some(mut r) = rd.read(&t).map_err(read_err)? {
        if c.rng.chance(1, 3) { r.res_body.mem_map().map_err(|e| Stop::Violation(format!("map: {}", e)))?; }
        recs.push(r);
    }
    ensure!(recs.len() == want.len(), "{} records read, {} written", recs.len(), want.len());
    let fb = BarcFile::new(dir.join("b.barc"));
    let out = if same { &fa } else { &fb };
    let mut expect = if same { want.clone() } else { Vec::new() };
    for (i, r) in recs.iter().enumerate() {
        let s = Strat::any(&mut c.rng);
        let at = out.writer().map_err(write_err)?.write(r, &*s.boxed()).map_err(write_err)?;
        c.count("records rewritten", 1);
        expect.push((at, want[i].1.clone()));
    }
    c.step(format!("{} records rewritten, same file {}, ram {}", recs.len(), same, t.max_body_ram()));
    c.distinct_str(&format!("{:?}{}{}", want.iter().map(|w| (w.1.req_b.len(), w.1.res_b.len())).collect::<Vec<_>>(), same, t.max_body_ram()));
    check_all(c, out, &expect)
}

/// Many headers, large blocks, every legal byte.
fn big_headers(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut h = HeaderMap::new();
    let n = *c.rng.pick(&[1usize, 99, 100, 101, 127, 128, 129, 130, 200, 256, 257, 1000, 3000, 30_000]);
    for i in 0..n {
        let name = if c.rng.chance(1, 6) || n == 30_000 { "x-again".to_string() } else { format!("x-{}-{}", i, c.rng.below(100)) };
        let v = if n > 1000 { format!("{}", i).parse().unwrap() } else { gen::header_value(&mut c.rng) };
        h.append(HeaderName::from_bytes(name.as_bytes()).unwrap(), v);
    }
    if c.rng.chance(1, 3) {
        // Close to the block limit.
        let room = V2_MAX_HBLOCK - 2 - size_of(&canon(&h)) - 9;
        let l = room - if c.rng.chance(1, 2) { 0 } else { c.rng.usize(1000) };
        h.append("x-big", http::header::HeaderValue::from_bytes(&vec![b'v'; l]).unwrap());
    }
    let (mut rec, mut m) = record(&mut c.rng, &dir, 2000);
    match c.rng.below(3) {
        0 => { m.meta = canon(&h); rec.meta = h; }
        1 => { m.req_h = canon(&h); rec.req_headers = h; }
        _ => { m.res_h = canon(&h); rec.res_headers = h; }
    }
    let s = Strat::any(&mut c.rng);
    let f = BarcFile::new(dir.join("a.barc"));
    let at = f.writer().map_err(write_err)?.write(&rec, &*s.boxed()).map_err(write_err)?;
    c.step(format!("{} headers, {} bytes, {}", n, size_of(&m.meta) + size_of(&m.req_h) + size_of(&m.res_h), s.short()));
    c.distinct_str(&format!("{}{}{}", n, size_of(&m.meta) + size_of(&m.req_h) + size_of(&m.res_h), s.short()));
    c.count("large header blocks", 1);
    check_all(c, &f, &[(at, m)])
}

/// Large bodies.
fn big_bodies(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let f = BarcFile::new(dir.join("a.barc"));
    let (q, s) = (c.rng.below(3_000_000) as usize, c.rng.below(6_000_000) as usize);
    let (q, s) = (c.rng.bytes(q), c.rng.text(s));
    let (mut rec, m) = tagged("big", q, s);
    if c.rng.chance(1, 2) {
        let st = *c.rng.pick(&gen::STATES);
        rec.res_body = gen::body(&mut c.rng, st, &m.res_b, &dir);
    }
    let st = Strat { level: 2, ..Strat::any(&mut c.rng) };
    let at = f.writer().map_err(write_err)?.write(&rec, &*st.boxed()).map_err(write_err)?;
    c.step(format!("{} req {} res {}", st.short(), m.req_b.len(), m.res_b.len()));
    c.distinct_str(&format!("{}/{}/{}", st.short(), m.req_b.len(), m.res_b.len()));
    c.count("large bodies", 1);
    check_all(c, &f, &[(at, m)])
}

/// System calls that read and write less than asked for.
fn split_calls(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let r = Mutex::new(Rng::new(mix(c.seed ^ 0x08)));
    let style = c.rng.below(4);
    let shorts = Arc::new(AtomicU64::new(0));
    let n = shorts.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |e: &Event| {
        if e.phase != Phase::Before || e.len < 2 || !matches!(e.op, Op::Read | Op::Pread | Op::Write | Op::Pwrite) { return Action::Go; }
        let mut r = r.lock().unwrap();
        let k = match style {
            0 => 1 + r.usize(e.len - 1),
            1 if r.chance(1, 2) => 1 + r.usize(e.len.min(60) - 1),
            2 if r.chance(1, 20) => 1,
            3 => (e.len - 1).min(1 + r.usize(3000)),
            _ => return Action::Go,
        };
        n.fetch_add(1, SeqCst);
        Action::Short(k)
    }));
    let f = BarcFile::new(dir.join("a.barc"));
    let mut want = Vec::new();
    let mut d = String::new();
    for _ in 0..1 + c.rng.usize(3) {
        let (rec, m) = record(&mut c.rng, &dir, 9_000);
        let s = Strat::any(&mut c.rng);
        c.step(format!("style {}, {} meta {} req {}+{} res {}+{}", style, s.short(), size_of(&m.meta), size_of(&m.req_h), m.req_b.len(), size_of(&m.res_h), m.res_b.len()));
        d.push_str(c.trace.last().unwrap());
        let at = f.writer().map_err(write_err)?.write(&rec, &*s.boxed()).map_err(write_err)?;
        want.push((at, m));
    }
    let out = check_all(c, &f, &want);
    drop(w);
    out?;
    c.count("calls cut short", shorts.load(SeqCst));
    c.distinct_str(&d);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(400, 5000);
    x.run("round-trip", n, round_trip);
    let n = x.tier(150, 1500);
    x.run("rewrite", n, rewrite);
    let n = x.tier(60, 500);
    x.run("large-headers", n, big_headers);
    let n = x.tier(6, 40);
    x.run("large-bodies", n, big_bodies);
    let n = x.tier(20, 100);
    x.run("vast-bodies", n, super::c13::vast);
    if cfg!(feature = "interpose") {
        let n = x.tier(150, 1500);
        x.run("split-calls", n, split_calls);
        x.require("calls cut short", 2000);
    }
    x.require("records compared", 1000);
    x.require("response bodies left in files", 100);
    x.require("response bodies read to RAM", 100);
}
