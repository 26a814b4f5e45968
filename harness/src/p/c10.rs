//! C10: readers alongside a writer.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use barc::*;
use body_image::Tunables;

use crate::archive::*;
use crate::ctx::*;
use crate::interpose::{self, Action, Event};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sched::{Member, Sched};

struct Seat { rd: BarcReader, next: usize }

/// What readers may see: everything before `done`, nothing at or after
/// `begun`, and whole.
struct View { want: Vec<Model>, offsets: Vec<u64>, done: usize, begun: usize }

/// Read on from a seat until the present end; every outcome is judged.
fn look(s: &mut Seat, v: &View, t: &Tunables, max: usize) -> Result<usize, String> {
    let mut n = 0;
    while n < max {
        let at = s.rd.offset();
        match s.rd.read(t) {
            Err(e) => return Err(format!("reader at record {} (offset {}) failed: {}", s.next, at, e)),
            Ok(None) => {
                if s.next < v.done { return Err(format!("end of records at {} with {} complete", s.next, v.done)); }
                if s.rd.offset() != at { return Err(format!("offset moved from {} to {} at the end", at, s.rd.offset())); }
                return Ok(n);
            }
            Ok(Some(rec)) => {
                if s.next >= v.begun { return Err(format!("record {} seen, {} begun", s.next, v.begun)); }
                if let Some(d) = differs(&rec, &v.want[s.next]) { return Err(format!("record {} ({} complete, {} begun): {}", s.next, v.done, v.begun, d)); }
                if s.next < v.offsets.len() && v.offsets[s.next] != at { return Err(format!("record {} at {} and not {}", s.next, at, v.offsets[s.next])); }
                s.next += 1;
                n += 1;
            }
        }
    }
    Ok(n)
}

fn open(p: &Path) -> Option<Seat> { BarcFile::new(p).reader().ok().map(|rd| Seat { rd, next: 0 }) }

/// Readers run at every file operation of the writer.
fn inside(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let n = 1 + c.rng.usize(3);
    let mut recs = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n { let (r, m) = record(&mut c.rng, &dir, 9000); recs.push(r); want.push(m); }
    // A very long record now and then, so that buffers are written early.
    if c.rng.chance(1, 3) { let d = c.rng.bytes(70_000); let k = c.rng.usize(n); recs[k].res_body = body_image::BodyImage::from_slice(d.clone()); want[k].res_b = d; }
    let strat: Vec<Strat> = (0..n).map(|_| Strat::any(&mut c.rng)).collect();
    let tune = reader_tune(&mut c.rng, &dir);
    struct St { view: View, seats: Vec<Seat>, looks: u64, seen: u64, early: u64, bad: Option<String>, rng: Rng, hash: u64, points: u64 }
    let st = Arc::new(Mutex::new(St { view: View { want: want.clone(), offsets: vec![], done: 0, begun: 0 }, seats: vec![], looks: 0, seen: 0, early: 0, bad: None, rng: Rng::new(c.rng.next()), hash: 0, points: 0 }));
    thread_local! { static BUSY: RefCell<bool> = const { RefCell::new(false) }; }
    let (s2, p2, t2) = (st.clone(), path.clone(), tune.clone());
    let cap = if c.thorough { 400 } else { 150 };
    let hook = move |e: &Event| {
        if BUSY.with(|b| b.replace(true)) { return Action::Go; }
        let mut g = s2.lock().unwrap();
        let g = &mut *g;
        g.points += 1;
        // Long writes: keep looking, but not at each of thousands of calls.
        if g.bad.is_none() && (g.points < cap || g.rng.chance(1, 8)) {
            g.hash = mix(g.hash ^ e.op as u64);
            let run = |g: &mut St, s: &mut Seat| {
                let from = s.next;
                let r = look(s, &g.view, &t2, usize::MAX);
                g.looks += 1;
                match r { Ok(k) => { g.seen += k as u64; if from + k > g.view.done { g.early += 1; } } Err(e) => g.bad = Some(e) }
            };
            // A fresh reader, each of the old ones, and a new one to keep.
            if let Some(mut f) = open(&p2) { run(g, &mut f); }
            let mut seats = std::mem::take(&mut g.seats);
            for s in seats.iter_mut() { run(g, s); }
            g.seats = seats;
            if g.seats.len() < 3 && g.rng.chance(1, 6) { if let Some(f) = open(&p2) { g.seats.push(f); } }
            if g.seats.len() == 3 && g.rng.chance(1, 10) { g.seats.remove(0); }
            // Random access to a complete record.
            if g.view.done > 0 && g.bad.is_none() {
                let k = g.rng.usize(g.view.done);
                if let Some(mut f) = open(&p2) {
                    if f.rd.seek(g.view.offsets[k]).is_ok() { f.next = k; if let Err(e) = look(&mut f, &g.view, &t2, 1) { g.bad = Some(e); } }
                }
            }
        }
        BUSY.with(|b| *b.borrow_mut() = false);
        Action::Go
    };
    let w = interpose::watch(&[&dir], Arc::new(hook));
    let f = BarcFile::new(&path);
    let keep = c.rng.chance(1, 2);
    let mut held = None;
    for i in 0..n {
        st.lock().unwrap().view.begun = i + 1;
        let wr = match held.take() { Some(w) => w, None => f.writer().map_err(|e| Stop::Violation(format!("writer: {}", e)))? };
        let mut wr: BarcWriter<'_> = wr;
        let at = wr.write(&recs[i], &*strat[i].boxed()).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
        if keep { held = Some(wr); }
        let mut g = interpose::quiet(|| st.lock().unwrap());
        if let Some(b) = g.bad.take() { return violation(format!("while writing record {} ({}): {}", i, strat[i].short(), b)); }
        g.view.done = i + 1;
        g.view.offsets.push(at);
        // Complete now: old readers go on to it without reopening.
        let g = &mut *g;
        let view = &g.view;
        for s in g.seats.iter_mut() {
            if let Err(e) = interpose::quiet(|| look(s, view, &tune, usize::MAX)) { return violation(format!("after writing record {}: {}", i, e)); }
            ensure!(s.next == i + 1, "old reader stopped at {} of {}", s.next, i + 1);
            g.looks += 1;
        }
        c.step(format!("{} of {}+{}", strat[i].short(), want[i].req_b.len(), want[i].res_b.len()));
    }
    drop(held);
    drop(w);
    let g = st.lock().unwrap();
    c.count("looks inside a write", g.looks);
    c.count("writer file operations", g.points);
    c.count("records compared", g.seen);
    c.count("seen before the write returned", g.early);
    c.distinct(g.hash ^ hash_bytes(&std::fs::read(&path)?));
    Ok(())
}

/// One writer and two readers, switched at file operations of either.
fn scheduled(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let n = 1 + c.rng.usize(3);
    let mut recs = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n { let (r, m) = record(&mut c.rng, &dir, 3000); recs.push(r); want.push(m); }
    let strat: Vec<Strat> = (0..n).map(|_| Strat::any(&mut c.rng)).collect();
    // A first record, so that the file is there.
    let (r0, m0) = record(&mut c.rng, &dir, 100);
    let f = BarcFile::new(&path);
    f.writer().and_then(|mut w| w.write(&r0, &NoCompressStrategy::default())).map_err(|e| Stop::Violation(e.to_string()))?;
    want.insert(0, m0);
    let readers = 2;
    let sched = Sched::new(1 + readers, c.rng.next());
    let begun = AtomicUsize::new(1);
    let done = AtomicUsize::new(1);
    let looks = AtomicU64::new(0);
    let seen = AtomicU64::new(0);
    let s2 = sched.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |_: &Event| { s2.point(); Action::Go }));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let over = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..readers).map(|_| c.rng.next()).collect();
    std::thread::scope(|sc| {
        let (sched, begun, done, bad, over, looks, seen) = (&sched, &begun, &done, &bad, &over, &looks, &seen);
        let (recs, strat, want, dir, path, f) = (&recs, &strat, &want, &dir, &path, &f);
        sc.spawn(move || {
            sched.enter(0);
            let _m = Member(sched.clone());
            let r = no_panic(|| -> Result<(), String> {
                for i in 0..recs.len() {
                    sched.point();
                    begun.store(i + 2, SeqCst);
                    f.writer().and_then(|mut w| w.write(&recs[i], &*strat[i].boxed())).map_err(|e| format!("write: {}", e))?;
                    done.store(i + 2, SeqCst);
                }
                Ok(())
            });
            over.store(true, SeqCst);
            match r { Ok(Ok(())) => {} Ok(Err(e)) => *interpose::quiet(|| bad.lock().unwrap()) = Some(e), Err(p) => *interpose::quiet(|| bad.lock().unwrap()) = Some(p.show()) }
        });
        for (k, seed) in seeds.iter().enumerate() {
            sc.spawn(move || {
                sched.enter(k + 1);
                let _m = Member(sched.clone());
                let mut r = Rng::new(*seed);
                let t = reader_tune(&mut r, dir);
                let out = no_panic(|| -> Result<(), String> {
                    let mut rd = BarcFile::new(path).reader().map_err(|e| format!("open: {}", e))?;
                    let mut next = 0;
                    for _ in 0..4000 {
                        if r.chance(1, 8) { rd = BarcFile::new(path).reader().map_err(|e| format!("open: {}", e))?; next = 0; }
                        let floor = done.load(SeqCst);
                        let last = over.load(SeqCst);
                        sched.point();
                        let got = rd.read(&t).map_err(|e| format!("read of record {}: {}", next, e))?;
                        let ceil = begun.load(SeqCst);
                        looks.fetch_add(1, SeqCst);
                        match got {
                            None => {
                                if next < floor { return Err(format!("end of records at {}, {} were complete before", next, floor)); }
                                if last { return Ok(()); }
                            }
                            Some(x) => {
                                if next >= ceil { return Err(format!("record {} seen, {} begun", next, ceil)); }
                                if let Some(d) = differs(&x, &want[next]) { return Err(format!("record {}: {}", next, d)); }
                                seen.fetch_add(1, SeqCst);
                                next += 1;
                            }
                        }
                    }
                    Ok(())
                });
                match out { Ok(Ok(())) => {} Ok(Err(e)) => *interpose::quiet(|| bad.lock().unwrap()) = Some(e), Err(p) => *interpose::quiet(|| bad.lock().unwrap()) = Some(p.show()) }
            });
        }
    });
    drop(w);
    let (h, sw) = sched.outcome();
    c.step(format!("{} records, {} switches: {:?}", n, sw, strat.iter().map(|s| s.short()).collect::<Vec<_>>()));
    if let Some(b) = bad.into_inner().unwrap() { return violation(b); }
    c.count("scheduled looks", looks.into_inner());
    c.count("records compared", seen.into_inner());
    c.count("switches", sw);
    c.in_set("schedules", h);
    c.distinct(h);
    Ok(())
}

/// A reader in another process, polling all the time.
pub fn child(args: &[String]) -> i32 {
    // args: archive, expected file (encoded independently), flag file
    let want: Vec<Model> = match std::fs::read(&args[1]).map_err(|e| e.to_string()).and_then(|b| decode_all(&b)) { Ok(v) => v.into_iter().map(|r| r.model).collect(), Err(e) => { println!("harness: {}", e); return 3; } };
    let t = Tunables::default();
    let (mut looks, mut seen) = (0u64, 0u64);
    let done = PathBuf::from(&args[2]);
    let mut rd: Option<BarcReader> = None;
    let mut next = 0;
    let mut kept = 0;
    loop {
        let last = done.exists();
        if rd.is_none() || looks % 5 == 4 { match BarcFile::new(&args[0]).reader() { Ok(r) => { rd = Some(r); next = 0; } Err(_) => { rd = None; if last { println!("bad: no file"); return 1; } std::thread::yield_now(); continue; } } }
        looks += 1;
        let r = rd.as_mut().unwrap();
        loop {
            match r.read(&t) {
                Err(e) => { println!("bad: record {} unreadable: {}", next, e); return 1; }
                Ok(None) => { if next < kept { println!("bad: {} records, {} seen before", next, kept); return 1; } break; }
                Ok(Some(x)) => {
                    if next >= want.len() { println!("bad: record {} of {}", next, want.len()); return 1; }
                    if let Some(d) = differs(&x, &want[next]) { println!("bad: record {}: {}", next, d); return 1; }
                    seen += 1;
                    next += 1;
                    kept = kept.max(next);
                }
            }
        }
        if last { break; }
    }
    if next != want.len() { println!("bad: {} records at the end of {}", next, want.len()); return 1; }
    println!("ok {} {}", looks, seen);
    0
}

fn process(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let n = 6 + c.rng.usize(10);
    let mut recs = Vec::new();
    let mut img = Vec::new();
    for _ in 0..n {
        let (r, m) = record(&mut c.rng, &dir, 30_000);
        let e = encode(&mut c.rng, &m, Alg::Plain);
        img.extend(e);
        recs.push(r);
    }
    std::fs::write(dir.join("want"), &img)?;
    let flag = dir.join("done");
    let mut kids = Vec::new();
    for _ in 0..2 {
        kids.push(std::process::Command::new(std::env::current_exe()?).arg("child").arg("C10").arg(&path).arg(dir.join("want")).arg(&flag)
            .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn()?);
    }
    let f = BarcFile::new(&path);
    for r in &recs {
        let s = Strat::any(&mut c.rng);
        if let Err(e) = f.writer().and_then(|mut w| w.write(r, &*s.boxed())) { std::fs::write(&flag, b"")?; return violation(format!("write: {}", e)); }
        if c.rng.chance(1, 3) { std::thread::yield_now(); }
    }
    std::fs::write(&flag, b"")?;
    let outs: Vec<_> = kids.into_iter().map(|k| crate::watchdog::waiting(k.id(), || k.wait_with_output())).collect();
    for o in outs {
        let o = o?;
        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
        match o.status.code() {
            Some(0) => {
                let v: Vec<u64> = s.split_whitespace().skip(1).filter_map(|x| x.parse().ok()).collect();
                c.count("looks from another process", v[0]);
                c.count("records compared", v[1]);
            }
            Some(1) => return violation(format!("reader process: {}", s)),
            x => return Err(Stop::Harness(format!("reader process ended with {:?}: {}", x, s))),
        }
    }
    c.step(format!("{} records with two reader processes", n));
    c.distinct(hash_bytes(&std::fs::read(&path)?));
    Ok(())
}

/// Free-running readers, with record heads placed across page boundaries
/// where the kernel writes and reads them in two parts.
fn straddle(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let n = 8;
    // Sizes chosen so that the head of each later record is split.
    let mut recs: Vec<Record> = Vec::new();
    let mut want: Vec<Model> = Vec::new();
    let mut cuts = Vec::new();
    let mut len = 0usize;
    for i in 0..n {
        let (mut r, mut m) = record(&mut c.rng, &dir, 30);
        r.req_body = body_image::BodyImage::empty();
        m.req_b.clear();
        let fixed: usize = [&m.meta, &m.req_h, &m.res_h].iter().map(|h| { let k = size_of(h); if k > 0 { k + 2 } else { 0 } }).sum::<usize>() + 54 + 2;
        let cut = 1 + c.rng.usize(53);
        let mut end = (len + fixed + 1 + cut + 4095) / 4096 * 4096 - cut;
        if i == n - 1 { end = len + fixed + 10; }
        let body = c.rng.bytes(end - len - fixed);
        r.res_body = body_image::BodyImage::from_slice(body.clone());
        m.res_b = body;
        len = end;
        cuts.push(cut);
        recs.push(r);
        want.push(m);
    }
    let rounds = if c.thorough { 12 } else { 8 };
    for round in 0..rounds {
        let path = dir.join(format!("s{}.barc", round));
        let f = BarcFile::new(&path);
        drop(f.writer().map_err(|e| Stop::Violation(format!("writer: {}", e)))?);
        let begun = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let looks = AtomicU64::new(0);
        let seen = AtomicU64::new(0);
        let ready = AtomicUsize::new(0);
        let mut failed = None;
        std::thread::scope(|sc| {
            let (begun, done, bad, looks, seen, ready, want, path) = (&begun, &done, &bad, &looks, &seen, &ready, &want, &path);
            for _ in 0..3 {
                sc.spawn(move || {
                    let t = Tunables::default();
                    let mut rd = match BarcFile::new(path).reader() { Ok(r) => r, Err(e) => { *bad.lock().unwrap() = Some(format!("open: {}", e)); ready.fetch_add(1, SeqCst); return; } };
                    ready.fetch_add(1, SeqCst);
                    let mut next = 0;
                    while next < n && begun.load(SeqCst) <= n {
                        let floor = done.load(SeqCst);
                        let r = rd.read(&t);
                        looks.fetch_add(1, SeqCst);
                        let ceil = begun.load(SeqCst);
                        let e = match r {
                            Ok(None) if next < floor => format!("end of records at {}, {} were complete before", next, floor),
                            Ok(None) => continue,
                            Ok(Some(_)) if next >= ceil => format!("record {} seen, {} begun", next, ceil),
                            Ok(Some(x)) => match differs(&x, &want[next]) { None => { next += 1; seen.fetch_add(1, SeqCst); continue; } Some(d) => format!("record {}: {}", next, d) },
                            Err(e) => format!("read of record {}: {}", next, e),
                        };
                        *bad.lock().unwrap() = Some(e);
                        return;
                    }
                });
            }
            while ready.load(SeqCst) < 3 { std::thread::yield_now(); }
            for i in 0..n {
                begun.store(i + 1, SeqCst);
                if let Err(e) = f.writer().and_then(|mut w| w.write(&recs[i], &NoCompressStrategy::default())) { failed = Some(e.to_string()); begun.store(n + 1, SeqCst); break; }
                done.store(i + 1, SeqCst);
            }
        });
        if let Some(e) = failed { return violation(format!("write: {}", e)); }
        if let Some(b) = bad.into_inner().unwrap() { return violation(format!("heads split after {:?} bytes: {}", cuts, b)); }
        c.count("free-running looks", looks.into_inner());
        c.count("records compared", seen.into_inner());
        interpose::quiet(|| std::fs::remove_file(&path))?;
        c.count("heads across pages", n as u64 - 1);
    }
    c.step(format!("heads split after {:?}", cuts));
    c.distinct_str(&format!("{:?}", cuts));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(120, 350);
    x.run("split-heads", n, straddle);
    let n = x.tier(180, 450);
    x.run("inside-a-write", n, inside);
    let n = x.tier(220, 800);
    x.run("scheduled", n, scheduled);
    let n = x.tier(12, 40);
    x.run("other-process", n, process);
    x.require("looks inside a write", 5000);
    x.require("records compared", 2000);
    x.require("distinct schedules", 100);
    x.require("looks from another process", 10);
}
