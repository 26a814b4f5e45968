//! C20: progress of, and freedom to drop, asynchronous transfers.
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use blocking_permit::{DispatchPool, Semaphore};
use body_image::{BodyImage, BodySink, Tuner};

use super::c19::{Done, Job};
use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::{hash_bytes, mix, Rng};

/// A transfer, whether it uses a pool, and a clone of what it reads.
pub struct Made { pub job: Job, pub desc: String, pub pooled: bool, pub keep: Option<(BodyImage, Vec<u8>)> }

pub fn make(r: &mut Rng, dir: &Path, src: &Path, sem: &'static Semaphore, max: u64, shared: Option<&(BodyImage, Vec<u8>)>) -> Made {
    let what = r.below(5);
    let (body, data, st) = match shared {
        Some((b, d)) if r.chance(1, 2) => (b.clone(), d.clone(), "shared".to_string()),
        _ => {
            let len = gen::len(r, max) as usize;
            let data = r.bytes(len);
            let st = *r.pick(&gen::STATES);
            (gen::body(r, st, &data, dir), data, format!("{:?}", st))
        }
    };
    let len = data.len() as u64;
    let stk = *r.pick(&STREAMS);
    let snk = *r.pick(&SINKS);
    let mut fs = gen::buf_size(r);
    while data.len() / fs > 60 { fs = fs * 4 + 1; }
    let mut item = *r.pick(&[1usize, 10, 100, 1000, 4096, 65536]);
    while data.len() / item > 60 { item = item * 4 + 1; }
    let stream_tune = futio(Tuner::new().set_buffer_size_fs(fs).set_temp_dir(dir).finish(), Some(stream_policy(stk, sem)), item);
    let ram = match r.below(4) { 0 => 0, 1 => len, 2 => len.saturating_sub(1), _ => r.below(len + 1) };
    let image = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 30).set_temp_dir(dir).finish();
    let sink_tune = futio(image, Some(sink_policy(snk, sem)), 1024);
    match what {
        0 | 1 => Made {
            desc: format!("{:?} stream over {} of {} by {}/{}", stk, st, len, fs, item),
            pooled: stk == StreamKind::Dispatch,
            keep: Some((body.clone(), data.clone())),
            job: Job::stream(stk, body, data, stream_tune),
        },
        2 | 3 => Made {
            desc: format!("{:?} sink of {} over {}", snk, len, ram),
            pooled: snk == SinkKind::Dispatch,
            keep: None,
            job: Job::sink(r, snk, BodySink::with_ram(len), data, sink_tune, src),
        },
        _ => Made {
            desc: format!("{:?} stream over {} of {} by {}/{} to {:?} sink over {}", stk, st, len, fs, item, snk, ram),
            pooled: snk == SinkKind::Dispatch || stk == StreamKind::Dispatch,
            keep: Some((body.clone(), data.clone())),
            job: Job::Pipe { from: AnyStream::new(stk, body, stream_tune), to: Some(AnySink::new(snk, BodySink::with_ram(len), sink_tune)), want: data, closing: false },
        },
    }
}

/// Wait until all work given to the pool so far is done.
fn settle(pool: &DispatchPool, size: usize) {
    let _g = register(pool.clone());
    let b = Arc::new(Barrier::new(size + 1));
    for _ in 0..size {
        let b = b.clone();
        let _ = blocking_permit::dispatch(move || { b.wait(); });
    }
    b.wait();
}

/// Descriptors that refer to `dir`.
fn open_in(dir: &Path) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) { if t.starts_with(dir) { v.push(t.display().to_string()); } }
        }
    }
    v
}

/// Everything dropped: bodies whole, permits back, nothing left open.
fn aftermath(c: &mut Case<'_>, desc: &str, keeps: Vec<(BodyImage, Vec<u8>)>, sem: &'static Semaphore, total: usize, dir: &Path) -> CaseResult {
    ensure!(sem.available_permits() == total, "{}: {} of {} permits available afterwards", desc, sem.available_permits(), total);
    for (b, d) in keeps {
        match gen::read_all(&b) {
            Ok(v) => ensure!(v == d, "{}: a body read afterwards: {}", desc, diff(&v, &d)),
            Err(e) => return violation(format!("{}: a body read afterwards: {}", desc, e)),
        }
        c.count("bodies read afterwards", 1);
    }
    let open = open_in(dir);
    ensure!(open.is_empty(), "{}: still open: {:?}", desc, open);
    c.count("censuses", 1);
    Ok(())
}

/// Wake-ups of a group of tasks run by one thread.
#[derive(Default)]
struct Board { woken: Mutex<Vec<bool>>, cv: Condvar, wakes: AtomicU64 }

struct Flag { board: Arc<Board>, task: usize, gen: u64, current: Arc<AtomicU64> }

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        // A waker replaced by a later poll wakes nobody.
        if self.current.load(SeqCst) != self.gen { return; }
        self.board.wakes.fetch_add(1, SeqCst);
        self.board.woken.lock().unwrap()[self.task] = true;
        self.board.cv.notify_all();
    }
}

fn tasks(c: &mut Case<'_>) -> CaseResult { group(c, false) }

/// The semaphore is closed midway: whoever needs it ends, one way or another.
fn withdrawn(c: &mut Case<'_>) -> CaseResult { group(c, true) }

/// A single-threaded executor choosing among woken tasks.
fn group(c: &mut Case<'_>, closing: bool) -> CaseResult {
    let dir = c.dir.join("t");
    std::fs::create_dir(&dir)?;
    let src = c.dir.join("s");
    std::fs::create_dir(&src)?;
    // Signals may interrupt file operations anywhere.
    let armed = Arc::new(AtomicBool::new(false));
    let (hits, ops) = (Arc::new(AtomicU64::new(0)), AtomicU64::new(c.rng.next() >> 1));
    let (h2, a2) = (hits.clone(), armed.clone());
    let watch = interpose::watch(&[&dir, &src], Arc::new(move |e: &Event| {
        if e.phase != Phase::Before || !a2.load(SeqCst) || !matches!(e.op, Op::Read | Op::Pread | Op::Write | Op::Pwrite) { return Action::Go; }
        if mix(ops.fetch_add(1, SeqCst)) % 6 != 0 { return Action::Go; }
        h2.fetch_add(1, SeqCst);
        Action::Fail(libc::EINTR)
    }));
    let total = 1 + c.rng.usize(2);
    let sem = semaphore(total);
    let n = 1 + c.rng.usize(6);
    let size = 1 + c.rng.usize(3);
    let mut b = DispatchPool::builder();
    b.pool_size(size).name_prefix("vh-pool-");
    let pool: DispatchPool = b.create();
    let reg = register(pool.clone());
    let st0 = *c.rng.pick(&gen::STATES);
    let l0 = gen::len(&mut c.rng, 20_000) as usize;
    let d0 = c.rng.bytes(l0);
    let b0 = (gen::body(&mut c.rng, st0, &d0, &dir), d0);
    let mut jobs = Vec::new();
    let mut keeps = vec![b0.clone()];
    let mut what = Vec::new();
    let mut pooled = Vec::new();
    for _ in 0..n {
        let m = make(&mut c.rng, &dir, &src, sem, 20_000, Some(&b0));
        if let Some(k) = m.keep { keeps.push(k); }
        what.push(m.desc);
        pooled.push(m.pooled);
        jobs.push(Some(m.job));
    }
    let spurious = c.rng.chance(1, 2);
    let drops = c.rng.chance(1, 2);
    let desc = format!("{} tasks, {} permits, pool {}{}{}: {:?}", n, total, size, if spurious { ", spurious polls" } else { "" }, if drops { ", drops" } else { "" }, what);
    c.step(desc.clone());
    armed.store(c.rng.chance(1, 2), SeqCst);
    let board = Arc::new(Board::default());
    *board.woken.lock().unwrap() = vec![true; n];
    let current: Vec<Arc<AtomicU64>> = (0..n).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let mut wakers: Vec<Option<Waker>> = vec![None; n];
    let mut held = Vec::new();
    let mut trace = 0u64;
    let (mut polls, mut pendings, mut dropped, mut done) = (0u64, 0u64, 0u64, 0u64);
    let (mut closed, mut refused) = (false, 0u64);
    let when = c.rng.below(30);
    loop {
        let alive: Vec<usize> = (0..n).filter(|i| jobs[*i].is_some()).collect();
        if alive.is_empty() { break; }
        if closing && !closed && polls >= when { sem.close(); closed = true; trace = mix(trace ^ 0xC105ED); }
        // Others may hold permits for a while.
        if c.rng.chance(1, 8) { if let Ok(p) = sem.try_acquire() { held.push(p); } }
        if !held.is_empty() && c.rng.chance(1, 4) { held.pop(); }
        let ready: Vec<usize> = { let w = board.woken.lock().unwrap(); alive.iter().copied().filter(|i| w[*i]).collect() };
        let i = if spurious && c.rng.chance(1, 4) { *c.rng.pick(&alive) }
            else if !ready.is_empty() { *c.rng.pick(&ready) }
            else if !held.is_empty() { held.clear(); continue; }
            else if !alive.iter().any(|i| pooled[*i]) {
                return violation(format!("{}: tasks {:?} wait and nobody is left to wake them", desc, alive));
            } else {
                // Pool threads will wake one; if they never do, the watchdog sees it.
                let mut w = board.woken.lock().unwrap();
                while !alive.iter().any(|i| w[*i]) { w = board.cv.wait(w).unwrap(); }
                continue;
            };
        if drops && c.rng.chance(1, 15) {
            jobs[i] = None;
            dropped += 1;
            trace = mix(trace ^ 0xD00 ^ i as u64);
            continue;
        }
        board.woken.lock().unwrap()[i] = false;
        if wakers[i].is_none() || c.rng.chance(1, 5) {
            let g = current[i].load(SeqCst) + 1;
            wakers[i] = Some(Waker::from(Arc::new(Flag { board: board.clone(), task: i, gen: g, current: current[i].clone() })));
            current[i].store(g, SeqCst);
        }
        let w = wakers[i].clone().unwrap();
        let mut cx = Context::from_waker(&w);
        polls += 1;
        let r = jobs[i].as_mut().unwrap().poll(&mut cx);
        trace = mix(trace ^ (i as u64) << 3 ^ r.is_pending() as u64);
        match r {
            Poll::Pending => pendings += 1,
            Poll::Ready(None) => board.woken.lock().unwrap()[i] = true,
            Poll::Ready(Some(Done::Complete)) => { jobs[i] = None; done += 1; }
            Poll::Ready(Some(Done::Failed(e))) if closed && what[i].contains("Permit") && !e.starts_with("WRONG") => { jobs[i] = None; refused += 1; }
            Poll::Ready(Some(Done::Failed(e))) => return violation(format!("{}: {}: {}", desc, what[i], e)),
        }
    }
    if closing { c.count("transfers ended by a closed semaphore", refused); }
    held.clear();
    drop(held);
    drop(reg);
    settle(&pool, size);
    drop(watch);
    c.count("operations interrupted", hits.load(SeqCst));
    drop(b0);
    let (sem, total) = if closing { (semaphore(1), 1) } else { (sem, total) };
    aftermath(c, &desc, keeps, sem, total, &dir)?;
    c.count("polls", polls);
    c.count("pending polls", pendings);
    c.count("wake-ups", board.wakes.load(SeqCst));
    c.count("completed transfers", done);
    c.count("dropped transfers", dropped);
    c.in_set("schedules", trace);
    c.distinct(mix(trace ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

/// A task per thread, woken only, over a busy pool with few places.
fn threads(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.join("t");
    std::fs::create_dir(&dir)?;
    let src = c.dir.join("s");
    std::fs::create_dir(&src)?;
    let total = 1 + c.rng.usize(2);
    let sem = semaphore(total);
    let n = 2 + c.rng.usize(5);
    let drops = c.rng.chance(1, 2);
    let size = 1 + c.rng.usize(2);
    let mut b = DispatchPool::builder();
    b.pool_size(size).name_prefix("vh-pool-");
    // A bounded queue hands work back to the caller, so leave it out where
    // the pool must be known to have finished.
    let queue = if drops { None } else { Some(1 + c.rng.usize(3)) };
    if let Some(q) = queue { b.queue_length(q); }
    let pool: DispatchPool = b.create();
    let mut keeps = Vec::new();
    let mut what = Vec::new();
    let mut work = Vec::new();
    for _ in 0..n {
        let m = make(&mut c.rng, &dir, &src, sem, 20_000, None);
        if let Some(k) = m.keep { keeps.push(k); }
        what.push(m.desc);
        work.push((m.job, if drops && c.rng.chance(1, 3) { c.rng.below(30) } else { u64::MAX }, c.rng.next()));
    }
    let busy = c.rng.below(20);
    let left = Arc::new(AtomicU64::new(0));
    let desc = format!("{} threads, {} permits, pool {} queue {:?}: {:?}", n, total, size, queue, what);
    c.step(desc.clone());
    let hs: Vec<_> = work.into_iter().map(|(mut j, drop_at, seed)| {
        let pool = pool.clone();
        let left = left.clone();
        std::thread::spawn(move || -> Result<(bool, u64, u64), String> {
            let _p = register(pool);
            let mut r = Rng::new(seed);
            let mut d = Driver::new(r.next(), if r.chance(2, 3) { Drive::Woken } else { Drive::Spurious }, false);
            let mut polls = 0;
            let mut h = 0;
            loop {
                for _ in 0..r.below(busy + 1) / 8 {
                    left.fetch_add(1, SeqCst);
                    let left = left.clone();
                    let _ = blocking_permit::dispatch(move || { for _ in 0..busy { std::thread::yield_now(); } left.fetch_sub(1, SeqCst); });
                }
                let mut out = false;
                let x = d.run(|cx| {
                    polls += 1;
                    if polls > drop_at { out = true; return Poll::Ready(None); }
                    j.poll(cx)
                }).expect("waits");
                h = mix(h ^ d.pendings);
                if out { return Ok((false, d.pendings, h)); }
                match x {
                    None => {}
                    Some(Done::Complete) => return Ok((true, d.pendings, h)),
                    Some(Done::Failed(e)) => return Err(e),
                }
            }
        })
    }).collect();
    let mut h = 0;
    let mut bad = None;
    for t in hs {
        match t.join() {
            Ok(Ok((done, p, x))) => { c.count(if done { "completed transfers" } else { "dropped transfers" }, 1); c.count("pending polls", p); h = mix(h ^ x); }
            Ok(Err(e)) => { bad.get_or_insert(e); }
            Err(_) => { bad.get_or_insert("a task panicked".to_string()); }
        }
    }
    // The pool itself cannot be dropped with a full queue.
    while left.load(SeqCst) > 0 { std::thread::yield_now(); }
    if let Some(b) = bad { return violation(format!("{}: {}", desc, b)); }
    if queue.is_none() { settle(&pool, size); aftermath(c, &desc, keeps, sem, total, &dir)?; }
    else { ensure!(sem.available_permits() == total, "{}: permits not returned", desc); }
    c.in_set("schedules", h);
    c.distinct(mix(h ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

/// Tasks of a multi-threaded runtime, some cancelled.
fn runtime(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.join("t");
    std::fs::create_dir(&dir)?;
    let src = c.dir.join("s");
    std::fs::create_dir(&src)?;
    let total = 1 + c.rng.usize(2);
    let sem = semaphore(total);
    let n = 2 + c.rng.usize(8);
    let size = 1 + c.rng.usize(2);
    let mut b = DispatchPool::builder();
    b.pool_size(size).name_prefix("vh-pool-");
    let pool: DispatchPool = b.create();
    let threads = 1 + c.rng.usize(4);
    let mut keeps = Vec::new();
    let mut what = Vec::new();
    let p2 = pool.clone();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).max_blocking_threads(threads + n + 4)
        .on_thread_start(move || { blocking_permit::register_dispatch_pool(p2.clone()); })
        .build().map_err(|e| Stop::Harness(e.to_string()))?;
    let mut made = Vec::new();
    for _ in 0..n {
        let m = make(&mut c.rng, &dir, &src, sem, 20_000, None);
        if let Some(k) = m.keep { keeps.push(k); }
        what.push(m.desc);
        made.push((m.job, c.rng.chance(1, 4), c.rng.below(500)));
    }
    let desc = format!("runtime of {} threads, {} permits, pool {}: {:?}", threads, total, size, what);
    c.step(desc.clone());
    let mut hs = Vec::new();
    let mut aborts = Vec::new();
    for (mut j, abort, when) in made {
        if abort { aborts.push((hs.len(), when)); }
        hs.push(rt.spawn(async move {
            loop {
                match futures_util::future::poll_fn(|cx| j.poll(cx)).await {
                    None => {}
                    Some(Done::Complete) => return Ok(()),
                    Some(Done::Failed(e)) => return Err(e),
                }
            }
        }));
    }
    for (i, when) in &aborts {
        for _ in 0..*when { std::thread::yield_now(); }
        hs[*i].abort();
    }
    let mut bad = None;
    let mut h = 0;
    for (i, t) in hs.into_iter().enumerate() {
        match rt.block_on(t) {
            Ok(Ok(())) => { c.count("completed transfers", 1); h = mix(h ^ i as u64); }
            Ok(Err(e)) => { bad.get_or_insert(e); }
            Err(e) if e.is_cancelled() && aborts.iter().any(|a| a.0 == i) => c.count("aborted tasks", 1),
            Err(e) => { bad.get_or_insert(e.to_string()); }
        }
    }
    drop(rt);
    if let Some(b) = bad { return violation(format!("{}: {}", desc, b)); }
    settle(&pool, size);
    aftermath(c, &desc, keeps, sem, total, &dir)?;
    c.distinct(mix(h ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(2500, 20_000);
    x.run("tasks", n, tasks);
    let n = x.tier(800, 5000);
    x.run("withdrawn-permits", n, withdrawn);
    x.require("transfers ended by a closed semaphore", 100);
    let n = x.tier(600, 5000);
    x.run("threads", n, threads);
    let n = x.tier(250, 2000);
    x.run("runtime", n, runtime);
    x.require("completed transfers", 1500);
    x.require("dropped transfers", 200);
    x.require("pending polls", 3000);
    x.require("operations interrupted", 1000);
    x.require("distinct schedules", 500);
    x.require("bodies read afterwards", 500);
    x.require("censuses", 300);
}
