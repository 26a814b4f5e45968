//! C19: where blocking file work runs.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use blocking_permit::{DispatchPool, Semaphore};
use body_image::{BodyImage, BodySink, Tuner};
use body_image_futio::{FutioTunables, UniBodyBuf};
use bytes::Bytes;

use super::c18::Make;
use crate::ctx::*;
use crate::exec::{Drive, Driver, Signal};
use crate::flow::*;
use crate::gen::{self, State};
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::{hash_bytes, mix, Rng};

/// What the file operations of a case must be covered by.
#[derive(Clone, Copy)]
enum Rule {
    /// One semaphore belongs to the task: a permit of it is out.
    Own(&'static Semaphore, usize),
    /// No more at once than permits.
    Shared(usize),
    /// On threads of the pool.
    Pool,
    /// None at all.
    Nothing,
    /// Permit and dispatch tasks mixed: off the pool, no more than permits.
    Mixed(usize),
}

struct Mon {
    live: AtomicBool,
    rule: Mutex<Rule>,
    ops: AtomicU64,
    bad: Mutex<Option<String>>,
    running: AtomicI64,
    peak: AtomicI64,
    fail_at: AtomicU64,
    failed: AtomicBool,
    seed: u64,
    slow: u64,
    hash: AtomicU64,
}

/// Operations that may block. Of the advice given for mappings only that
/// before reading counts: taking it back on drop blocks nothing.
fn covers(e: &Event) -> bool {
    match e.op { Op::Close | Op::Munmap | Op::Dup => false, Op::Advise => e.flags == libc::POSIX_MADV_SEQUENTIAL, _ => true }
}

fn on_pool() -> bool { std::thread::current().name().map_or(false, |n| n.starts_with("vh-pool-")) }

impl Mon {
    fn new(rule: Rule, seed: u64, slow: u64) -> Arc<Mon> {
        Arc::new(Mon { live: AtomicBool::new(false), rule: Mutex::new(rule), ops: AtomicU64::new(0), bad: Mutex::new(None), running: AtomicI64::new(0), peak: AtomicI64::new(0),
            fail_at: AtomicU64::new(0), failed: AtomicBool::new(false), seed, slow, hash: AtomicU64::new(0) })
    }
    fn watch(self: &Arc<Self>, dir: &std::path::Path) -> interpose::Watch {
        let m = self.clone();
        interpose::watch(&[dir], Arc::new(move |e: &Event| m.on(e)))
    }
    fn say(&self, s: String) { self.bad.lock().unwrap().get_or_insert(s); }
    fn on(&self, e: &Event) -> Action {
        if !self.live.load(SeqCst) || !covers(e) { return Action::Go; }
        let rule = *self.rule.lock().unwrap();
        let counted = e.op != Op::Advise && match rule { Rule::Shared(_) => true, Rule::Mixed(_) => !on_pool(), _ => false };
        match e.phase {
            Phase::Before => {
                let n = self.ops.fetch_add(1, SeqCst) + 1;
                match rule {
                    Rule::Own(s, total) => {
                        let held = total.saturating_sub(s.available_permits());
                        if held == 0 { self.say(format!("{:?} of {} bytes without a permit", e.op, e.len)); }
                    }
                    Rule::Pool => if !on_pool() { self.say(format!("{:?} of {} bytes on thread {:?}", e.op, e.len, std::thread::current().name())); },
                    Rule::Nothing => self.say(format!("{:?} of {} bytes", e.op, e.len)),
                    _ => {}
                }
                if counted {
                    let now = self.running.fetch_add(1, SeqCst) + 1;
                    self.peak.fetch_max(now, SeqCst);
                    let max = match rule { Rule::Shared(n) | Rule::Mixed(n) => n as i64, _ => i64::MAX };
                    if now > max { self.say(format!("{} operations at once with {} permits", now, max)); }
                    self.hash.store(mix(self.hash.load(SeqCst) ^ (now as u64) << 8 ^ e.op as u64), SeqCst);
                }
                let h = mix(self.seed ^ n);
                if self.slow > 0 { for _ in 0..h % self.slow { std::thread::yield_now(); } }
                if n == self.fail_at.load(SeqCst) { self.failed.store(true, SeqCst); return Action::Fail(libc::EIO); }
            }
            Phase::After(_) => if counted { self.running.fetch_sub(1, SeqCst); },
        }
        Action::Go
    }
    fn verdict(&self, desc: &str) -> CaseResult {
        match self.bad.lock().unwrap().take() { Some(b) => violation(format!("{}: {}", desc, b)), None => Ok(()) }
    }
}

/// One transfer that can be polled step by step and dropped at any time.
pub enum Job {
    Stream { s: AnyStream<UniBodyBuf>, got: Vec<u8>, want: Vec<u8> },
    Sink { s: Option<AnySink<UniBodyBuf>>, parts: Vec<UniBodyBuf>, want: Vec<u8>, closing: bool },
    Pipe { from: AnyStream<UniBodyBuf>, to: Option<AnySink<UniBodyBuf>>, want: Vec<u8>, closing: bool },
}

fn finish(b: BodySink, want: &[u8]) -> Done {
    let v = interpose::quiet(|| b.prepare().map_err(|e| e.to_string()).and_then(|i| gen::read_all(&i).map_err(|e| e.to_string())));
    match v {
        Ok(v) if v == want => Done::Complete,
        Ok(v) => Done::Failed(format!("WRONG {}", diff(&v, want))),
        Err(e) => Done::Failed(format!("WRONG {}", e)),
    }
}

pub enum Done { Complete, Failed(String) }

impl Job {
    pub fn stream(kind: StreamKind, body: BodyImage, want: Vec<u8>, tune: FutioTunables) -> Job {
        Job::Stream { s: AnyStream::new(kind, body, tune), got: Vec::new(), want }
    }
    pub fn sink(r: &mut Rng, kind: SinkKind, body: BodySink, data: Vec<u8>, tune: FutioTunables, src: &std::path::Path) -> Job {
        let mut parts: Vec<UniBodyBuf> = gen::chunks(r, &data).iter().enumerate()
            .map(|(i, p)| if i < 2 { UniBodyBuf::make(r, p, src) } else { UniBodyBuf::from(Bytes::make(r, p, src)) }).collect();
        if parts.len() > 40 {
            let tail: Vec<u8> = parts.drain(40..).flat_map(rest).collect();
            parts.push(UniBodyBuf::from(Bytes::from(tail)));
        }
        parts.reverse();
        Job::Sink { s: Some(AnySink::new(kind, body, tune)), parts, want: data, closing: false }
    }
    /// One step: Ready(None) after an item or buffer, Ready(Some) at the end.
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<Done>> {
        match self {
            Job::Stream { s, got, want } => match s.poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Some(Ok(b))) => { got.extend(rest(b)); Poll::Ready(None) }
                Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Done::Failed(e.to_string()))),
                Poll::Ready(None) => Poll::Ready(Some(if got == want { Done::Complete } else { Done::Failed(format!("WRONG {}", diff(got, want))) })),
            },
            Job::Sink { s, parts, want, closing } => {
                let k = s.as_mut().unwrap();
                let res = if *closing { k.poll_close(cx) } else { k.poll_ready(cx) };
                match res {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Err(e)) => Poll::Ready(Some(Done::Failed(e.to_string()))),
                    Poll::Ready(Ok(())) if *closing => {
                        Poll::Ready(Some(finish(s.take().unwrap().into_inner(), want)))
                    }
                    Poll::Ready(Ok(())) => match parts.pop() {
                        None => { *closing = true; Poll::Ready(None) }
                        Some(b) => match k.start_send(b) { Ok(()) => Poll::Ready(None), Err(e) => Poll::Ready(Some(Done::Failed(e.to_string()))) },
                    },
                }
            }
            Job::Pipe { from, to, want, closing } => {
                let k = to.as_mut().unwrap();
                let res = if *closing { k.poll_close(cx) } else { k.poll_ready(cx) };
                match res {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Some(Done::Failed(e.to_string()))),
                    Poll::Ready(Ok(())) if *closing => return Poll::Ready(Some(finish(to.take().unwrap().into_inner(), want))),
                    Poll::Ready(Ok(())) => {}
                }
                match from.poll(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(None) => { *closing = true; Poll::Ready(None) }
                    Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Done::Failed(e.to_string()))),
                    Poll::Ready(Some(Ok(b))) => match k.start_send(b) { Ok(()) => Poll::Ready(None), Err(e) => Poll::Ready(Some(Done::Failed(e.to_string()))) },
                }
            }
        }
    }
}

/// A job of the wanted policy with its description.
pub fn job(r: &mut Rng, dir: &std::path::Path, src: &std::path::Path, permit: bool, sem: &'static Semaphore, max: u64) -> (Job, String) {
    let len = gen::len(r, max) as usize;
    let data = r.bytes(len);
    if r.chance(1, 2) {
        let state = *r.pick(&gen::STATES);
        let body = gen::body(r, state, &data, dir);
        let mut fs = gen::buf_size(r);
        while data.len() / fs > 200 { fs = fs * 4 + 1; }
        let kind = if permit { StreamKind::Permit } else { StreamKind::Dispatch };
        let image = Tuner::new().set_buffer_size_fs(fs).set_temp_dir(dir).finish();
        let tune = futio(image, Some(stream_policy(kind, sem)), 1024);
        (Job::stream(kind, body, data, tune), format!("{:?} stream over {:?} of {} by {}", kind, state, len, fs))
    } else {
        let ram = match r.below(4) { 0 => 0, 1 => len as u64, 2 => (len as u64).saturating_sub(1), _ => r.below(len as u64 + 1) };
        let kind = if permit { SinkKind::Permit } else { SinkKind::Dispatch };
        let image = Tuner::new().set_max_body_ram(ram).set_max_body(1 << 30).set_temp_dir(dir).finish();
        let tune = futio(image, Some(sink_policy(kind, sem)), 1024);
        let fs = r.chance(1, 4);
        let body = if fs { BodySink::with_fs(dir).unwrap() } else { BodySink::with_ram(len as u64) };
        (Job::sink(r, kind, body, data, tune, src), format!("{:?} sink of {} over {} from {}", kind, len, ram, if fs { "file" } else { "RAM" }))
    }
}

fn dirs(c: &Case<'_>) -> Result<(std::path::PathBuf, std::path::PathBuf), Stop> {
    let dir = c.dir.join("t");
    let src = c.dir.join("s");
    interpose::quiet(|| std::fs::create_dir(&dir).and_then(|_| std::fs::create_dir(&src)))?;
    Ok((dir, src))
}

/// One task with a semaphore or pool of its own.
fn single(c: &mut Case<'_>) -> CaseResult {
    let (dir, src) = dirs(c)?;
    let permit = c.rng.chance(1, 2);
    let total = 1 + c.rng.usize(2);
    let sem = semaphore(total);
    let mon = Mon::new(if permit { Rule::Own(sem, total) } else { Rule::Pool }, c.rng.next(), 0);
    let w = mon.watch(&dir);
    let (j, d) = job(&mut c.rng, &dir, &src, permit, sem, 60_000);
    let stored = matches!(&j, Job::Stream { want, .. } if !want.is_empty()) && (d.contains("over Fs") || d.contains("over Map"));
    let (pool, _) = open_pool(&mut c.rng);
    let _reg = if permit { None } else { Some(register(pool)) };
    let fault = c.rng.chance(1, 4);
    if fault { mon.fail_at.store(1 + c.rng.below(12), SeqCst); }
    let drop_at = if c.rng.chance(1, 3) { 1 + c.rng.below(25) } else { u64::MAX };
    // Keep every permit back at first: nothing that blocks may happen.
    let keep = permit && c.rng.chance(1, 2);
    let spurious = c.rng.chance(1, 2);
    let desc = format!("{}{}{}{}, {} permits", d, if fault { ", fault" } else { "" }, if drop_at < u64::MAX { ", dropped" } else { "" }, if keep { ", permits withheld" } else { "" }, total);
    c.step(desc.clone());
    let mut guards = Vec::new();
    if keep { for _ in 0..total { guards.push(sem.try_acquire().expect("free permit")); } }
    let mut j = Some(j);
    let mut sig = Signal::new();
    let mut polls = 0u64;
    let mut end = None;
    let mut trace = 0u64;
    mon.live.store(true, SeqCst);
    while let Some(job) = j.as_mut() {
        if polls == drop_at { j = None; break; }
        if spurious && c.rng.chance(1, 5) { sig = Signal::new(); }
        let wk = std::task::Waker::from(sig.clone());
        let mut cx = Context::from_waker(&wk);
        polls += 1;
        let ops = mon.ops.load(SeqCst);
        let withheld = !guards.is_empty();
        if withheld { *mon.rule.lock().unwrap() = Rule::Nothing; }
        let res = job.poll(&mut cx);
        if withheld { *mon.rule.lock().unwrap() = Rule::Own(sem, total); }
        trace = mix(trace ^ (res.is_pending() as u64) << 32 ^ (mon.ops.load(SeqCst) - ops));
        mon.verdict(&desc)?;
        match res {
            Poll::Pending => {
                if withheld && (!spurious || c.rng.chance(1, 2)) {
                    c.count("waits for a permit", 1);
                    guards.clear();
                    if c.rng.chance(1, 6) {
                        // Granted, but dropped before it is used.
                        j = None;
                        c.count("dropped with a granted permit", 1);
                        break;
                    }
                }
                if spurious && c.rng.chance(1, 3) { std::thread::yield_now(); continue; }
                if !guards.is_empty() { continue; }
                sig.wait();
            }
            Poll::Ready(x) => {
                // Reading mapped pages is file work too, if not a call.
                ensure!(!(withheld && stored), "{}: stored data delivered without a permit", desc);
                if permit {
                    let held = total - guards.len() - sem.available_permits();
                    ensure!(held == 0, "{}: {} permits still held after a completed step", desc, held);
                }
                if let Some(x) = x { end = Some(x); break; }
            }
        }
    }
    let dropped = j.is_none();
    drop(j);
    mon.live.store(false, SeqCst);
    drop(guards);
    mon.verdict(&desc)?;
    ensure!(sem.available_permits() == total, "{}: {} of {} permits available afterwards", desc, sem.available_permits(), total);
    let failed = mon.failed.load(SeqCst);
    match end {
        Some(Done::Complete) => { c.count("completed transfers", 1); }
        Some(Done::Failed(e)) => { ensure!(failed && !e.starts_with("WRONG"), "{}: {}", desc, e); c.count("failed transfers", 1); }
        None => { ensure!(dropped, "{}: no end", desc); c.count("dropped transfers", 1); }
    }
    drop(w);
    c.count("file operations judged", mon.ops.load(SeqCst));
    c.count("polls", polls);
    c.in_set("poll traces", trace);
    c.distinct(mix(trace ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

/// Threads sharing few permits.
fn shared(c: &mut Case<'_>) -> CaseResult {
    let (dir, src) = dirs(c)?;
    let total = 1 + c.rng.usize(3);
    let sem = semaphore(total);
    let n = total + 1 + c.rng.usize(4);
    let mixed = c.rng.chance(1, 3);
    let mon = Mon::new(if mixed { Rule::Mixed(total) } else { Rule::Shared(total) }, c.rng.next(), 8);
    let w = mon.watch(&dir);
    let (pool, _) = open_pool(&mut c.rng);
    let mut work = Vec::new();
    let mut what = Vec::new();
    for _ in 0..n {
        let permit = !mixed || c.rng.chance(2, 3);
        let (j, d) = job(&mut c.rng, &dir, &src, permit, sem, 20_000);
        what.push(d);
        let drop_at = if c.rng.chance(1, 4) { 1 + c.rng.below(20) } else { u64::MAX };
        work.push((j, drop_at, c.rng.next()));
    }
    if c.rng.chance(1, 4) { mon.fail_at.store(1 + c.rng.below(40), SeqCst); }
    let desc = format!("{} tasks, {} permits: {:?}", n, total, what);
    c.step(desc.clone());
    mon.live.store(true, SeqCst);
    let go = Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = work.into_iter().map(|(mut j, drop_at, seed)| {
        let pool: DispatchPool = pool.clone();
        let go = go.clone();
        std::thread::spawn(move || -> Result<u64, String> {
            let _p = register(pool);
            let mut r = Rng::new(seed);
            let drive = if r.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
            let mut d = Driver::new(r.next(), drive, false);
            go.wait();
            let mut polls = 0;
            loop {
                let mut dropped = false;
                let x = d.run(|cx| {
                    polls += 1;
                    if polls > drop_at { dropped = true; return Poll::Ready(None); }
                    j.poll(cx)
                }).expect("waits");
                if dropped { return Ok(d.pendings); }
                match x {
                    None => {}
                    Some(Done::Complete) => return Ok(d.pendings),
                    Some(Done::Failed(e)) => return Err(e),
                }
            }
        })
    }).collect();
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(p)) => c.count("pending polls", p),
            Ok(Err(e)) => { if e.starts_with("WRONG") || !mon.failed.load(SeqCst) { bad.get_or_insert(e); } }
            Err(_) => { bad.get_or_insert("a task panicked".into()); }
        }
    }
    mon.verdict(&desc)?;
    if let Some(b) = bad { return violation(format!("{}: {}", desc, b)); }
    ensure!(sem.available_permits() == total, "{}: {} of {} permits available afterwards", desc, sem.available_permits(), total);
    mon.live.store(false, SeqCst);
    drop(w);
    let peak = mon.peak.load(SeqCst);
    if peak == total as i64 { c.count("cases that used every permit at once", 1); }
    if peak > 1 { c.count("cases with concurrent operations", 1); }
    c.count("file operations judged", mon.ops.load(SeqCst));
    c.in_set("operation overlaps", mon.hash.load(SeqCst));
    c.distinct(mix(mon.hash.load(SeqCst) ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

/// RAM-only work: no permit free, no pool registered.
fn ram(c: &mut Case<'_>) -> CaseResult {
    let (dir, src) = dirs(c)?;
    let sem = semaphore(1);
    let _kept = sem.try_acquire().expect("free permit");
    let mon = Mon::new(Rule::Nothing, 0, 0);
    let w = mon.watch(&dir);
    let permit = c.rng.chance(1, 2);
    let len = gen::len(&mut c.rng, 60_000) as usize;
    let data = c.rng.bytes(len);
    let (mut j, desc) = if c.rng.chance(1, 2) {
        let st = if c.rng.chance(1, 2) { State::RamOne } else { State::RamMany };
        let body = interpose::quiet(|| gen::body(&mut c.rng, st, &data, &dir));
        let kind = if permit { StreamKind::Permit } else { StreamKind::Dispatch };
        let tune = futio(Tuner::new().set_temp_dir(&dir).finish(), Some(stream_policy(kind, sem)), 1024);
        (Job::stream(kind, body, data, tune), format!("{:?} stream over RAM of {}", kind, len))
    } else {
        let extra = if c.rng.chance(1, 2) { 0 } else { c.rng.below(100) };
        let kind = if permit { SinkKind::Permit } else { SinkKind::Dispatch };
        let image = Tuner::new().set_max_body_ram(len as u64 + extra).set_max_body(1 << 30).set_temp_dir(&dir).finish();
        let tune = futio(image, Some(sink_policy(kind, sem)), 1024);
        (Job::sink(&mut c.rng, kind, BodySink::with_ram(len as u64), data, tune, &src), format!("{:?} sink of {} within RAM", kind, len))
    };
    c.step(desc.clone());
    mon.live.store(true, SeqCst);
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    let mut steps = 0;
    loop {
        steps += 1;
        match j.poll(&mut cx) {
            Poll::Pending => return violation(format!("{}: pending at step {} with neither permits nor pool", desc, steps)),
            Poll::Ready(None) => {}
            Poll::Ready(Some(Done::Complete)) => break,
            Poll::Ready(Some(Done::Failed(e))) => return violation(format!("{}: {}", desc, e)),
        }
    }
    mon.live.store(false, SeqCst);
    drop(w);
    mon.verdict(&desc)?;
    c.count("RAM-only transfers", 1);
    c.distinct_str(&desc);
    Ok(())
}

/// A multi-threaded runtime with cancelled tasks.
fn runtime(c: &mut Case<'_>) -> CaseResult {
    let (dir, src) = dirs(c)?;
    let total = 1 + c.rng.usize(2);
    let sem = semaphore(total);
    let threads = 2 + c.rng.usize(3);
    let n = threads + c.rng.usize(6);
    let mon = Mon::new(Rule::Shared(total), c.rng.next(), 8);
    let w = mon.watch(&dir);
    let mut jobs = Vec::new();
    for _ in 0..n { jobs.push((job(&mut c.rng, &dir, &src, true, sem, 20_000), c.rng.chance(1, 3), c.rng.below(2000))); }
    let desc = format!("runtime of {} threads, {} permits: {:?}", threads, total, jobs.iter().map(|x| x.0 .1.clone()).collect::<Vec<_>>());
    c.step(desc.clone());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).max_blocking_threads(threads + n + 4)
        .build().map_err(|e| Stop::Harness(e.to_string()))?;
    mon.live.store(true, SeqCst);
    let mut hs = Vec::new();
    let mut aborts = Vec::new();
    for ((mut j, _), abort, when) in jobs {
        let h = rt.spawn(async move {
            loop {
                match futures_util::future::poll_fn(|cx| j.poll(cx)).await {
                    None => {}
                    Some(Done::Complete) => return Ok(()),
                    Some(Done::Failed(e)) => return Err(e),
                }
            }
        });
        if abort { aborts.push((hs.len(), when)); }
        hs.push(h);
    }
    for (i, when) in &aborts {
        for _ in 0..*when { std::thread::yield_now(); }
        hs[*i].abort();
    }
    let mut bad = None;
    for (i, h) in hs.into_iter().enumerate() {
        match rt.block_on(h) {
            Ok(Ok(())) => c.count("completed transfers", 1),
            Ok(Err(e)) => { bad.get_or_insert(e); }
            Err(e) if e.is_cancelled() && aborts.iter().any(|a| a.0 == i) => c.count("aborted tasks", 1),
            Err(e) => { bad.get_or_insert(e.to_string()); }
        }
    }
    drop(rt);
    mon.live.store(false, SeqCst);
    mon.verdict(&desc)?;
    if let Some(b) = bad { return violation(format!("{}: {}", desc, b)); }
    ensure!(sem.available_permits() == total, "{}: {} of {} permits available afterwards", desc, sem.available_permits(), total);
    drop(w);
    c.count("file operations judged", mon.ops.load(SeqCst));
    c.in_set("operation overlaps", mon.hash.load(SeqCst));
    c.distinct(mix(mon.hash.load(SeqCst) ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(4000, 40_000);
    x.run("single", n, single);
    let n = x.tier(400, 3000);
    x.run("shared", n, shared);
    let n = x.tier(300, 2000);
    x.run("ram", n, ram);
    let n = x.tier(150, 1200);
    x.run("runtime", n, runtime);
    x.require("file operations judged", 5000);
    x.require("waits for a permit", 100);
    x.require("dropped with a granted permit", 5);
    x.require("cases with concurrent operations", 20);
    x.require("failed transfers", 50);
    x.require("dropped transfers", 50);
    x.require("RAM-only transfers", 200);
}

