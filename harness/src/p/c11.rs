//! C11: crashes and failed writes.
use std::collections::HashSet;
use std::path::Path;
use std::sync::{Arc, Mutex};

use barc::*;
use body_image::{BodyImage, Tunables};

use super::c05::{Fault, Plan, FAULTS};
use crate::archive::*;
use crate::ctx::*;
use crate::gen;
use crate::interpose::{self, quiet, Action, Event, Op, Phase};
use crate::rng::{hash_bytes, Rng};

/// Records in a file after trouble: all of `must` in order, with whole ones
/// of `may` where they belong.
struct Item { model: Model, must: bool, at: Option<u64> }

/// Read in sequence; `tail` tells whether trouble may sit at the very end.
fn sequential(path: &Path, items: &[Item], t: &Tunables, tail: bool) -> Result<u64, String> {
    let mut rd = BarcFile::new(path).reader().map_err(|e| format!("open: {}", e))?;
    let mut i = 0;
    let mut n = 0;
    loop {
        let at = rd.offset();
        let r = rd.read(t);
        match r {
            Ok(Some(rec)) => {
                // The next item it can be.
                loop {
                    if i == items.len() { return Err(format!("a record at {} that was never written, or for the second time", at)); }
                    match differs(&rec, &items[i].model) {
                        None => {
                            if let Some(a) = items[i].at { if a != at { return Err(format!("record {} found at {}, its write returned {}", i, at, a)); } }
                            i += 1;
                            break;
                        }
                        Some(d) if items[i].must => return Err(format!("at {} in place of acknowledged record {}: {}", at, i, d)),
                        Some(_) => i += 1,
                    }
                }
                n += 1;
            }
            Ok(None) => {
                if let Some(k) = items[i..].iter().position(|x| x.must) { return Err(format!("end of records at offset {}: acknowledged record {} is out of reach", at, i + k)); }
                return Ok(n);
            }
            Err(e) => {
                if let Some(k) = items[i..].iter().position(|x| x.must) { return Err(format!("error at offset {} ahead of acknowledged record {}: {}", at, i + k, e)); }
                if !tail { return Err(format!("error at offset {}: {}", at, e)); }
                return Ok(n);
            }
        }
    }
}

fn direct(path: &Path, at: u64, m: &Model, t: &Tunables) -> Result<(), String> {
    let mut rd = BarcFile::new(path).reader().map_err(|e| format!("open: {}", e))?;
    rd.seek(at).map_err(|e| e.to_string())?;
    match rd.read(t) {
        Ok(Some(r)) => match differs(&r, m) { None => Ok(()), Some(d) => Err(format!("acknowledged record at {}: {}", at, d)) },
        Ok(None) => Err(format!("acknowledged record at {} is not there", at)),
        Err(e) => Err(format!("acknowledged record at {}: {}", at, e)),
    }
}

fn make(r: &mut Rng, dir: &Path, max: u64) -> (Record, Model) {
    let (mut rec, mut m) = record(r, dir, max);
    // Told apart from all others.
    let tag = format!("{:016x}", r.next());
    rec.meta.insert("x-tag", tag.parse().unwrap());
    m.meta = gen::canon(&rec.meta);
    m.meta.sort();
    (rec, m)
}

/// The file as a dying process leaves it, at every point of every write.
fn crash(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let n = 1 + c.rng.usize(3);
    let max = if c.rng.chance(1, 5) { 60_000 } else { 4000 };
    let made: Vec<(Record, Model)> = (0..n).map(|_| make(&mut c.rng, &dir, max)).collect();
    let strat: Vec<Strat> = (0..n).map(|_| Strat::any(&mut c.rng)).collect();
    struct Snap { img: Vec<u8>, acked: usize, what: String }
    struct St { snaps: Vec<Snap>, seen: HashSet<u64>, acked: usize, rng: Rng, points: u64 }
    let st = Arc::new(Mutex::new(St { snaps: vec![], seen: HashSet::new(), acked: 0, rng: Rng::new(c.rng.next()), points: 0 }));
    let (s2, p2) = (st.clone(), path.clone());
    let hook = move |e: &Event| {
        let mut g = s2.lock().unwrap();
        g.points += 1;
        let img = std::fs::read(&p2).unwrap_or_default();
        let acked = g.acked;
        let keep = |g: &mut St, img: Vec<u8>, what: String| {
            let h = hash_bytes(&img) ^ acked as u64;
            if g.seen.insert(h) && g.snaps.len() < 4000 { g.snaps.push(Snap { img, acked, what }); }
        };
        if let (Some((p, l)), Phase::Before) = (e.data, e.phase) {
            // An extending write can be cut anywhere; overwriting a few bytes cannot.
            let pos = if e.op == Op::Pwrite { e.off } else { unsafe { libc::lseek64(e.fd, 0, libc::SEEK_CUR) } };
            if pos == img.len() as i64 && l > 1 {
                let k = 1 + g.rng.usize(l - 1);
                let mut cut = img.clone();
                cut.extend_from_slice(unsafe { std::slice::from_raw_parts(p as *const u8, k) });
                keep(&mut g, cut, format!("{} of {} bytes of a write at {}", k, l, pos));
            }
        }
        keep(&mut g, img, format!("{:?} {:?}", e.op, e.phase));
        Action::Go
    };
    let w = interpose::watch(&[&dir], Arc::new(hook));
    let f = BarcFile::new(&path);
    let mut at = Vec::new();
    for i in 0..n {
        let a = f.writer().and_then(|mut w| w.write(&made[i].0, &*strat[i].boxed())).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
        at.push(a);
        quiet(|| st.lock().unwrap().acked = i + 1);
        c.step(format!("{} {}+{}", strat[i].short(), made[i].1.req_b.len(), made[i].1.res_b.len()));
    }
    drop(w);
    let mut g = st.lock().unwrap();
    c.count("writer file operations", g.points);
    c.count("crash images", g.snaps.len() as u64);
    let t = reader_tune(&mut c.rng, &dir);
    let mut snaps = std::mem::take(&mut g.snaps);
    let cap = if c.thorough { 160 } else { 60 };
    if snaps.len() > cap { c.rng.shuffle(&mut snaps); snaps.truncate(cap); }
    let scene = dir.join("crashed.barc");
    for s in &snaps {
        std::fs::write(&scene, &s.img)?;
        let items: Vec<Item> = (0..n.min(s.acked + 1)).map(|k| Item { model: made[k].1.clone(), must: k < s.acked, at: Some(at[k]) }).collect();
        sequential(&scene, &items, &t, true).map_err(|e| Stop::Violation(format!("crash in write {} ({}): {}", s.acked, s.what, e)))?;
        for k in 0..s.acked { direct(&scene, at[k], &made[k].1, &t).map_err(|e| Stop::Violation(format!("crash in write {} ({}): {}", s.acked, s.what, e)))?; }
        // Back in use: nothing older suffers, and the new one can be had.
        if c.rng.chance(1, 3) {
            let (r, m) = make(&mut c.rng, &dir, 500);
            let st = Strat::any(&mut c.rng);
            let a = BarcFile::new(&scene).writer().and_then(|mut w| w.write(&r, &*st.boxed())).map_err(|e| Stop::Violation(format!("write after a crash: {}", e)))?;
            direct(&scene, a, &m, &t).map_err(|e| Stop::Violation(format!("written after a crash: {}", e)))?;
            for k in 0..s.acked { direct(&scene, at[k], &made[k].1, &t).map_err(|e| Stop::Violation(format!("after a crash and a write: {}", e)))?; }
            ensure!(std::fs::read(&scene)?[..s.img.len()] == s.img[..], "bytes of the crashed file altered by a later write");
            c.count("writes after a crash", 1);
        }
        c.count("crash images read", 1);
        c.distinct(hash_bytes(&s.img));
    }
    Ok(())
}

/// One operation of a history of writes fails; use goes on.
fn fault_run(c: &mut Case<'_>, plan: &Arc<Plan>, seed: u64) -> Result<(u64, u64), Stop> {
    let dir = c.dir.join("f");
    quiet(|| { let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir) })?;
    let path = dir.join("a.barc");
    let mut r = Rng::new(seed);
    let n = 2 + r.usize(3);
    let max = if r.chance(1, 6) { 40_000 } else { 3000 };
    let w = interpose::watch(&[&dir], plan.hook());
    let f = BarcFile::new(&path);
    let mut items: Vec<Item> = Vec::new();
    let mut failed = 0;
    for _ in 0..n {
        let (rec, m) = quiet(|| make(&mut r, &dir, max));
        let s = Strat::any(&mut r);
        let res = match no_panic(|| f.writer().and_then(|mut w| w.write(&rec, &*s.boxed()))) { Ok(x) => x, Err(p) => return violation(format!("write with a fault: {}", p.show())) };
        match res {
            Ok(a) => items.push(Item { model: m, must: true, at: Some(a) }),
            Err(_) => {
                failed += 1;
                items.push(Item { model: m, must: false, at: None });
                if r.chance(2, 3) { plan.lift(); }
            }
        }
    }
    drop(w);
    if plan.overrun.load(std::sync::atomic::Ordering::SeqCst) { return violation("writing never came to an end"); }
    let t = reader_tune(&mut r, &dir);
    let n = if path.exists() || items.iter().any(|x| x.must) {
        let what = |e: String| Stop::Violation(format!("{:?} at operation {}: {}", plan.fault, plan.at, e));
        for x in items.iter().filter(|x| x.must) { direct(&path, x.at.unwrap(), &x.model, &t).map_err(what)?; }
        sequential(&path, &items, &t, false).map_err(what)?
    } else { 0 };
    Ok((failed, n))
}

fn faults(c: &mut Case<'_>) -> CaseResult {
    let seed = c.rng.next();
    let dry = Plan::new(u64::MAX, FAULTS[0], 3_000_000);
    fault_run(c, &dry, seed)?;
    let ops = dry.ops.lock().unwrap().clone();
    c.step(format!("{} operations", ops.len()));
    let cap = if c.thorough { 60 } else { 30 };
    let mut points: Vec<u64> = (0..ops.len() as u64).collect();
    if points.len() > cap { c.rng.shuffle(&mut points); points.truncate(cap); }
    for at in points {
        let fault = *c.rng.pick(&FAULTS);
        let p = Plan::new(at, fault, 3_000_000);
        let (failed, n) = fault_run(c, &p, seed)?;
        c.count("faulted runs", 1);
        c.count("writes reported failed", failed);
        c.count("records read after a fault", n);
        c.in_set_str("operation kinds faulted", &format!("{:?}{:?}", ops[at as usize], fault));
        c.distinct(seed ^ at.wrapping_mul(77) ^ hash_bytes(format!("{:?}", fault).as_bytes()));
    }
    Ok(())
}

/// Every single operation of short histories, with every fault.
fn sweep(c: &mut Case<'_>) -> CaseResult {
    let seed = c.rng.next();
    let dry = Plan::new(u64::MAX, FAULTS[0], 3_000_000);
    fault_run(c, &dry, seed)?;
    let ops = dry.ops.lock().unwrap().clone();
    if ops.len() > 150 { return Ok(()); }
    c.step(format!("{} operations, all faults", ops.len()));
    for at in 0..ops.len() as u64 {
        for fault in FAULTS {
            let p = Plan::new(at, fault, 3_000_000);
            let (failed, n) = fault_run(c, &p, seed)?;
            c.count("faulted runs", 1);
            c.count("writes reported failed", failed);
            c.count("records read after a fault", n);
            c.in_set_str("operation kinds faulted", &format!("{:?}{:?}", ops[at as usize], fault));
            c.distinct(seed ^ at.wrapping_mul(77) ^ hash_bytes(format!("{:?}", fault).as_bytes()));
        }
    }
    c.count("histories swept completely", 1);
    Ok(())
}

/// The disk fills up at any byte of a history, and space is made later.
fn full(c: &mut Case<'_>) -> CaseResult {
    let seed = c.rng.next();
    let dry = Plan::new(u64::MAX, FAULTS[0], 3_000_000);
    fault_run(c, &dry, seed)?;
    let len = std::fs::metadata(c.dir.join("f").join("a.barc")).map(|m| m.len()).unwrap_or(0) as usize;
    c.step(format!("archive of {} bytes", len));
    let n = if c.thorough { 40 } else { 20 };
    for k in 0..n {
        // Most often where a compressed stream ends.
        let room = if k % 2 == 0 { c.rng.usize(len + 1) } else { len.saturating_sub(c.rng.usize(40)) };
        let p = Plan::new(0, Fault::Full(room), 3_000_000);
        let (failed, n) = fault_run(c, &p, seed)?;
        c.count("disks filled", p.fired.load(std::sync::atomic::Ordering::SeqCst) as u64);
        c.count("writes reported failed", failed);
        c.count("records read after a fault", n);
        c.distinct(seed ^ (room as u64).wrapping_mul(0x9e37));
    }
    Ok(())
}

/// A record whose body can't be had in full, between others.
fn incomplete(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let f = BarcFile::new(&path);
    let mut items: Vec<Item> = Vec::new();
    for _ in 0..2 + c.rng.usize(3) {
        let (mut rec, m) = make(&mut c.rng, &dir, 2000);
        let s = Strat::any(&mut c.rng);
        let cut = c.rng.chance(1, 2);
        if cut {
            let len = 1 + gen::len(&mut c.rng, 30_000) as usize;
            let (pre, post) = (c.rng.usize(50), c.rng.usize(50));
            let data = c.rng.bytes(len);
            let (p, file) = gen::file_with(&mut c.rng, &dir, pre, &data, post);
            let b = if c.rng.chance(1, 4) {
                // Beyond what the format, or any file, can hold.
                let vast = *c.rng.pick(&[1u64 << 40, (1 << 40) - 2, 1 << 47, (1 << 48) - 100, 1 << 48, 1 << 62, u64::MAX >> 2]) + c.rng.below(4);
                c.count("vast bodies", 1);
                unsafe { BodyImage::from_file(file, vast) }
            } else { unsafe { BodyImage::from_read_slice(olio::fs::rc::ReadSlice::new(Arc::new(file), pre as u64, (pre + len) as u64)) } };
            std::fs::OpenOptions::new().write(true).open(&p)?.set_len((pre + c.rng.usize(len)) as u64)?;
            if c.rng.chance(1, 2) { rec.req_body = b } else { rec.res_body = b }
        }
        let r = match no_panic(|| f.writer().and_then(|mut w| w.write(&rec, &*s.boxed()))) { Ok(r) => r, Err(p) => return violation(format!("write: {}", p.show())) };
        c.step(format!("{} {}: {}", if cut { "incomplete" } else { "whole" }, s.short(), if r.is_ok() { "acknowledged" } else { "refused" }));
        match (cut, r) {
            (true, Ok(a)) => return violation(format!("a record at {} acknowledged although its body could not be read in full", a)),
            (true, Err(_)) => c.count("incomplete bodies refused", 1),
            (false, Ok(a)) => items.push(Item { model: m, must: true, at: Some(a) }),
            (false, Err(e)) => return violation(format!("write: {}", e)),
        }
    }
    let t = reader_tune(&mut c.rng, &dir);
    if path.exists() {
        for x in &items { direct(&path, x.at.unwrap(), &x.model, &t).map_err(Stop::Violation)?; }
        let n = sequential(&path, &items, &t, false).map_err(|e| Stop::Violation(format!("with incomplete bodies: {}", e)))?;
        c.count("records read after a fault", n);
    }
    c.distinct(c.seed);
    Ok(())
}

/// Records with header blocks around the largest the format can tell, between others.
fn oversized(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let f = BarcFile::new(&path);
    let mut items: Vec<Item> = Vec::new();
    let most = 0xfffff;
    for _ in 0..3 {
        let (mut rec, mut m) = make(&mut c.rng, &dir, 2000);
        let s = Strat::any(&mut c.rng);
        let mut size = 0;
        if c.rng.chance(2, 3) {
            size = match c.rng.below(4) { 0 => most - 5 + c.rng.usize(10), 1 => most + 1 + c.rng.usize(3), 2 => most + c.rng.usize(most), _ => most - 2 };
            let h = super::c13::header_block(&mut c.rng, size);
            let k = gen::canon(&h);
            size = size_of(&k);
            match c.rng.below(3) { 0 => { rec.meta = h; m.meta = k } 1 => { rec.req_headers = h; m.req_h = k } _ => { rec.res_headers = h; m.res_h = k } }
        }
        let r = match no_panic(|| f.writer().and_then(|mut w| w.write(&rec, &*s.boxed()))) { Ok(r) => r, Err(p) => return violation(format!("writing a header block of {}: {}", size, p.show())) };
        c.step(format!("block of {}, {}: {}", size, s.short(), if r.is_ok() { "acknowledged" } else { "refused" }));
        match r {
            Ok(a) => {
                ensure!(size <= most, "a record with a header block of {} acknowledged", size);
                items.push(Item { model: m, must: true, at: Some(a) });
            }
            Err(e) => {
                ensure!(size + 2 > most, "a record with header blocks up to {} refused: {}", size, e);
                c.count("oversized blocks refused", 1);
            }
        }
    }
    let t = reader_tune(&mut c.rng, &dir);
    if path.exists() {
        for x in &items { direct(&path, x.at.unwrap(), &x.model, &t).map_err(Stop::Violation)?; }
        let n = sequential(&path, &items, &t, false).map_err(|e| Stop::Violation(format!("with oversized blocks: {}", e)))?;
        c.count("records read after a fault", n);
    }
    c.distinct(c.seed);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(90, 250);
    x.run("crashes", n, crash);
    let n = x.tier(90, 200);
    x.run("faults", n, faults);
    let n = x.tier(8, 20);
    x.run("fault-sweeps", n, sweep);
    let n = x.tier(40, 120);
    x.run("full-disks", n, full);
    let n = x.tier(150, 1000);
    x.run("incomplete-bodies", n, incomplete);
    let n = x.tier(60, 400);
    x.run("oversized-blocks", n, oversized);
    x.require("oversized blocks refused", 20);
    x.require("incomplete bodies refused", 100);
    x.require("vast bodies", 30);
    x.require("crash images read", 1000);
    x.require("writes after a crash", 200);
    x.require("faulted runs", 1000);
    x.require("disks filled", 300);
    x.require("writes reported failed", 300);
    x.require("records read after a fault", 1000);
}
