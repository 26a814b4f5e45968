//! C16: writer threads on one archive handle.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use barc::*;

use crate::archive::*;
use crate::ctx::*;
use crate::interpose::{self, quiet, Action, Event};
use crate::rng::{mix, Rng};

#[derive(Clone)]
struct Ack { thread: usize, seq: usize, at: u64 }

fn threads(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let n = 2 + c.rng.usize(if c.thorough { 7 } else { 5 });
    let per = 1 + c.rng.usize(6);
    let small = c.rng.chance(2, 3);
    let mut made: Vec<Vec<(Record, Model)>> = Vec::new();
    for t in 0..n {
        let mut v = Vec::new();
        for q in 0..per {
            let (mut r, mut m) = record(&mut c.rng, &dir, if small { 400 } else { 9000 });
            r.meta.insert("x-from", format!("{}-{}", t, q).parse().unwrap());
            m.meta = crate::gen::canon(&r.meta);
            m.meta.sort();
            v.push((r, m));
        }
        made.push(v);
    }
    let acks: Mutex<Vec<Ack>> = Mutex::new(Vec::new());
    let inside = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let contended = Arc::new(AtomicU64::new(0));
    let c2 = contended.clone();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let over = AtomicBool::new(false);
    let looks = AtomicU64::new(0);
    let seed = c.rng.next();
    let tick = AtomicU64::new(0);
    // Delays inside and between file operations.
    let harsh = c.rng.below(3);
    let waiting = Arc::new(AtomicUsize::new(0));
    let w2 = waiting.clone();
    let hook = move |_: &Event| {
        let k = mix(seed ^ tick.fetch_add(1, SeqCst));
        // Hold on, mid-write, until somebody is waiting for the writer.
        if harsh > 0 && k % 5 == 0 { for _ in 0..300 { if w2.load(SeqCst) > 0 { break; } std::thread::yield_now(); } }
        if w2.load(SeqCst) > 0 { c2.fetch_add(1, SeqCst); }
        match (harsh, k % 16) { (0, _) => {} (_, 0..=3) => std::thread::yield_now(), (2, 4) => std::thread::sleep(std::time::Duration::from_micros(k % 60)), _ => {} }
        Action::Go
    };
    let w = interpose::watch(&[&dir], Arc::new(hook));
    let f = BarcFile::new(&path);
    let seeds: Vec<u64> = (0..n + 1).map(|_| c.rng.next()).collect();
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|sc| {
        let (acks, inside, most, bad, f, gate, over, looks) = (&acks, &inside, &most, &bad, &f, &gate, &over, &looks);
        let (made, seeds, dir, path, waiting) = (&made, &seeds, &dir, &path, &*waiting);
        let hs: Vec<_> = (0..n).map(|t| sc.spawn(move || {
            let mut r = Rng::new(seeds[t]);
            gate.wait();
            let out = no_panic(|| -> Result<(), String> {
                let mut q = 0;
                while q < per {
                    waiting.fetch_add(1, SeqCst);
                    let got = f.writer();
                    waiting.fetch_sub(1, SeqCst);
                    let mut w = got.map_err(|e| format!("writer: {}", e))?;
                    let k = inside.fetch_add(1, SeqCst) + 1;
                    most.fetch_max(k, SeqCst);
                    // Several in one go, or none.
                    let burst = match r.below(6) { 0 => 0, 1 => 2, _ => 1 };
                    let mut res = Ok(());
                    for _ in 0..burst {
                        if q == per { break; }
                        let s = Strat::any(&mut r);
                        match w.write(&made[t][q].0, &*s.boxed()) {
                            Ok(at) => { quiet(|| acks.lock().unwrap()).push(Ack { thread: t, seq: q, at }); q += 1; }
                            Err(e) => { res = Err(format!("write: {}", e)); break; }
                        }
                    }
                    inside.fetch_sub(1, SeqCst);
                    drop(w);
                    res?;
                    if r.chance(1, 3) { std::thread::yield_now(); }
                }
                Ok(())
            });
            let e = match out { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(p.show()) };
            if let Some(e) = e { *bad.lock().unwrap() = Some(format!("thread {}: {}", t, e)); }
        })).collect();
        // A reader going along.
        sc.spawn(move || quiet(|| {
            let mut r = Rng::new(seeds[n]);
            let t = reader_tune(&mut r, dir);
            while !over.load(SeqCst) {
                let before = acks.lock().unwrap().len();
                let mut k = 0;
                match BarcFile::new(path).reader() {
                    Err(_) => { std::thread::yield_now(); continue; }
                    Ok(mut rd) => loop {
                        match rd.read(&t) {
                            Ok(None) => break,
                            Ok(Some(rec)) => {
                                k += 1;
                                let tag = rec.meta.get("x-from").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
                                let id: Vec<usize> = tag.split('-').filter_map(|x| x.parse().ok()).collect();
                                let ok = id.len() == 2 && id[0] < n && id[1] < per && differs(&rec, &made[id[0]][id[1]].1).is_none();
                                if !ok { *bad.lock().unwrap() = Some(format!("a reader saw a record that no thread wrote ({:?})", tag)); return; }
                            }
                            Err(e) => { *bad.lock().unwrap() = Some(format!("a reader failed: {}", e)); return; }
                        }
                    },
                }
                if k < before { *bad.lock().unwrap() = Some(format!("a reader saw {} records with {} acknowledged before", k, before)); return; }
                looks.fetch_add(1, SeqCst);
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }));
        for h in hs { let _ = h.join(); }
        over.store(true, SeqCst);
    });
    drop(w);
    if let Some(b) = bad.into_inner().unwrap() { return violation(b); }
    let most = most.into_inner();
    ensure!(most == 1, "{} writers held at once", most);
    let acks = acks.into_inner().unwrap();
    c.step(format!("{} threads x {}, delays {}", n, per, harsh));
    // The history, offline.
    let img = std::fs::read(&path)?;
    let got = decode_all(&img).map_err(|e| Stop::Violation(format!("file after concurrent writers: {}", e)))?;
    ensure!(got.len() == n * per && acks.len() == n * per, "{} records in the file, {} acknowledged, {} written", got.len(), acks.len(), n * per);
    let mut next = vec![0; n];
    let mut order = 0u64;
    for g in &got {
        let a = match acks.iter().find(|a| a.at == g.at) { Some(a) => a, None => return violation(format!("record at {} was never acknowledged there", g.at)) };
        ensure!(g.model == made[a.thread][a.seq].1, "record at {} is not the one thread {} was told ({})", g.at, a.thread, a.seq);
        ensure!(next[a.thread] == a.seq, "thread {}: record {} found where {} was due", a.thread, a.seq, next[a.thread]);
        next[a.thread] += 1;
        order = mix(order ^ (a.thread as u64 + 1));
    }
    // Acknowledged in file order too, as only one writes at a time.
    ensure!(acks.windows(2).all(|w| w[0].at < w[1].at), "acknowledgements out of file order");
    c.count("records written by threads", acks.len() as u64);
    c.count("file operations with another writer waiting", contended.load(SeqCst));
    c.count("reader passes", looks.into_inner());
    c.in_set("thread orders in the file", order);
    c.distinct(order);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(350, 1800);
    x.run("writer-threads", n, threads);
    x.require("records written by threads", 1000);
    x.require("file operations with another writer waiting", 1000);
    x.require("distinct thread orders in the file", 50);
    x.require("reader passes", 100);
}
