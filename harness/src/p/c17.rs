//! C17: what streams deliver.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use blocking_permit::{DispatchPool, Splittable};
use body_image::BodyImage;
use body_image_futio::{FutioTunables, UniBodyBuf};
use bytes::Bytes;

use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::{hash_bytes, mix, Rng};

/// Watches reads: their size, and what is injected into them.
pub struct Reads {
    pub limit: AtomicUsize,
    pub over: Mutex<Option<usize>>,
    pub seen: AtomicU64,
    pub seed: AtomicU64,
    /// Interrupt or shorten one read in `rate` (0: none).
    pub rate: AtomicU64,
}

impl Reads {
    /// Idle until set going.
    pub fn new() -> Arc<Reads> {
        Arc::new(Reads { limit: AtomicUsize::new(usize::MAX), over: Mutex::new(None), seen: AtomicU64::new(0), seed: AtomicU64::new(0), rate: AtomicU64::new(0) })
    }
    pub fn go(&self, limit: usize, seed: u64, rate: u64) {
        self.seen.store(0, SeqCst);
        self.limit.store(limit, SeqCst);
        self.seed.store(seed, SeqCst);
        self.rate.store(rate, SeqCst);
    }
    pub fn on(&self, e: &Event) -> Action {
        if e.phase != Phase::Before || !matches!(e.op, Op::Read | Op::Pread) { return Action::Go; }
        let n = self.seen.fetch_add(1, SeqCst);
        if e.len > self.limit.load(SeqCst) { self.over.lock().unwrap().get_or_insert(e.len); }
        let rate = self.rate.load(SeqCst);
        if rate == 0 { return Action::Go; }
        let h = mix(self.seed.load(SeqCst) ^ mix(n));
        if h % rate != 0 { return Action::Go; }
        if (h >> 20) % 2 == 0 { Action::Fail(libc::EINTR) } else { Action::Short(1 + ((h >> 30) as usize) % e.len.max(1)) }
    }
}

pub struct Got { pub bytes: Vec<u8>, pub items: u64, pub hash: u64, pub max_item: usize, pub empty_items: u64 }

/// Drive a stream to its end, and beyond.
pub fn drain<B: Item + Splittable>(s: &mut AnyStream<B>, d: &mut Driver, body: bool) -> Result<Got, String> {
    let mut g = Got { bytes: Vec::new(), items: 0, hash: 0, max_item: 0, empty_items: 0 };
    let limit = 4_000_000;
    loop {
        let r = d.run(|cx| if body { s.poll_data(cx) } else { s.poll(cx) }).map_err(|_| "pending without any wake-up".to_string())?;
        match r {
            Some(Ok(b)) => {
                let n = b.remaining();
                g.items += 1;
                g.max_item = g.max_item.max(n);
                if n == 0 { g.empty_items += 1; }
                g.hash = mix(g.hash ^ n as u64);
                g.bytes.extend(rest(b));
                if g.items > limit { return Err("more items than bytes".into()); }
            }
            Some(Err(e)) => return Err(format!("failed after {} bytes: {}", g.bytes.len(), e)),
            None => break,
        }
    }
    for _ in 0..3 {
        match d.run(|cx| if body { s.poll_data(cx) } else { s.poll(cx) }) {
            Ok(None) => {}
            Ok(Some(Ok(b))) => return Err(format!("an item of {} bytes after the end", b.remaining())),
            Ok(Some(Err(e))) => return Err(format!("an error after the end: {}", e)),
            Err(_) => return Err("pending after the end, without any wake-up".into()),
        }
    }
    Ok(g)
}

pub struct Setup { pub body: BodyImage, pub data: Vec<u8>, pub state: gen::State, pub kind: StreamKind, pub tune: FutioTunables, pub fs: usize, pub item: usize }

pub fn setup(c: &mut Case<'_>, sem: usize, max: u64) -> Setup {
    let len = gen::len(&mut c.rng, max) as usize;
    let state = *c.rng.pick(&gen::STATES);
    setup_as(c, sem, len, state)
}

/// With a body of just this length and state.
pub fn setup_as(c: &mut Case<'_>, sem: usize, len: usize, state: gen::State) -> Setup {
    let data = c.rng.bytes(len);
    let dir = c.dir.clone();
    let mut body = gen::body(&mut c.rng, state, &data, &dir);
    if c.rng.chance(1, 8) { body.gather(); }
    let kind = *c.rng.pick(&STREAMS);
    let mut fs = gen::buf_size(&mut c.rng);
    // Keep the number of reads reasonable.
    while data.len() / fs > 3000 { fs = fs * 4 + 1; }
    let mut item = *c.rng.pick(&[1usize, 2, 3, 100, 512, 1000, 4096, 5000, 65536, 512 * 1024]);
    while data.len() / item > 5000 { item = item * 4 + 1; }
    let image = body_image::Tuner::new().set_buffer_size_fs(fs).set_buffer_size_ram(gen::buf_size(&mut c.rng)).set_temp_dir(&dir).finish();
    let tune = futio(image, Some(stream_policy(kind, semaphore(sem))), item);
    Setup { body, data, state, kind, tune, fs, item }
}

fn watch(c: &Case<'_>) -> (Arc<Reads>, interpose::Watch) {
    let reads = Reads::new();
    let r2 = reads.clone();
    let w = interpose::watch(&[&c.dir], Arc::new(move |e: &Event| r2.on(e)));
    (reads, w)
}

fn check<B: Item + Splittable>(c: &mut Case<'_>, s: Setup, rate: u64, reads: Arc<Reads>, w: interpose::Watch) -> CaseResult {
    reads.go(s.fs, c.rng.next(), rate);
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let (pool, pd) = pool(&mut c.rng);
    let _p = register(pool);
    let body = s.body.clone();
    let mut d = Driver::new(c.rng.next(), drive, alone_stream(s.kind));
    d.contend(s.tune.blocking_semaphore());
    let http = c.rng.chance(1, 3);
    let desc = format!("{:?} stream of {} over {:?} of {} bytes, {:?}, read buffer {}, item {}, {}", s.kind, B::NAME, s.state, s.data.len(), drive, s.fs, s.item, pd);
    c.step(desc.clone());
    let mut st = AnyStream::<B>::new(s.kind, body, s.tune.clone());
    let got = drain(&mut st, &mut d, http);
    drop(st);
    drop(w);
    let over = *reads.over.lock().unwrap();
    let reads = reads.seen.load(SeqCst);
    c.count("file reads observed", reads);
    c.count("polls", d.polls);
    c.count("pending polls", d.pendings);
    c.count("polls pending on a rival's permit", d.contended);
    let got = match got { Ok(g) => g, Err(e) => return violation(format!("{}: {}", desc, e)) };
    ensure!(got.bytes == s.data, "{}: {}", desc, diff(&got.bytes, &s.data));
    if let Some(n) = over { return violation(format!("{}: a file read of {} bytes", desc, n)); }
    if s.kind == StreamKind::Split {
        ensure!(got.max_item <= s.item, "{}: an item of {} bytes", desc, got.max_item);
    }
    c.count("items", got.items);
    c.count("bytes compared", s.data.len() as u64);
    c.in_set_str("kind/item/state", &format!("{:?}{}{:?}", s.kind, B::NAME, s.state));
    c.distinct(mix(got.hash ^ hash_bytes(desc.as_bytes())));
    // The body is still whole.
    let again = gen::read_all(&s.body);
    match again { Ok(v) => ensure!(v == s.data, "{}: the body afterwards: {}", desc, diff(&v, &s.data)), Err(e) => return violation(format!("{}: the body afterwards: {}", desc, e)) }
    Ok(())
}

fn single(c: &mut Case<'_>) -> CaseResult {
    let k = 1 + c.rng.usize(2);
    let (rd, w) = watch(c);
    let s = setup(c, k, 300_000);
    if c.rng.chance(1, 2) { check::<Bytes>(c, s, 0, rd, w) } else { check::<UniBodyBuf>(c, s, 0, rd, w) }
}

/// Interrupted and short reads must not show.
fn disturbed(c: &mut Case<'_>) -> CaseResult {
    let (rd, w) = watch(c);
    let mut s = setup(c, 1, 60_000);
    if s.data.is_empty() { return Ok(()); }
    if !matches!(s.state, gen::State::FsRead | gen::State::FsFile | gen::State::FsFileLonger | gen::State::FsSlice) {
        let st = *c.rng.pick(&[gen::State::FsRead, gen::State::FsSlice]);
        let dir = c.dir.clone();
        s.state = st;
        s.body = gen::body(&mut c.rng, st, &s.data, &dir);
    }
    let rate = *c.rng.pick(&[2u64, 3, 5]);
    c.count("disturbed streams", 1);
    if c.rng.chance(1, 2) { check::<Bytes>(c, s, rate, rd, w) } else { check::<UniBodyBuf>(c, s, rate, rd, w) }
}

/// Bodies beyond what fits one buffer of any kind.
fn large(c: &mut Case<'_>) -> CaseResult {
    let (rd, w) = watch(c);
    let len = (16 << 20) + c.rng.usize(20 << 20);
    let st = *c.rng.pick(&[gen::State::MapFs, gen::State::MapFile, gen::State::MapSlice, gen::State::RamOne, gen::State::FsSlice]);
    let mut s = setup_as(c, 1, len, st);
    // Also as a single item.
    if c.rng.chance(1, 2) { s.kind = *c.rng.pick(&STREAMS); s.item = len + 1; s.fs = 1 << 20; }
    let dir = c.dir.clone();
    let image = body_image::Tuner::new().set_buffer_size_fs(s.fs).set_temp_dir(&dir).finish();
    s.tune = futio(image, Some(stream_policy(s.kind, semaphore(1))), s.item);
    c.count("large bodies", 1);
    if c.index % 2 == 0 { check::<Bytes>(c, s, 0, rd, w) } else { check::<UniBodyBuf>(c, s, 0, rd, w) }
}

/// A file read that fails, or finds the file cut short, ends the stream in an
/// error; never as if that were all.
fn failing(c: &mut Case<'_>) -> CaseResult {
    let left = Arc::new(AtomicU64::new(u64::MAX));
    let fired = Arc::new(AtomicU64::new(0));
    let errno = *c.rng.pick(&[0, 0, libc::EIO, libc::ENOSPC, libc::EACCES]);
    let (l2, f2) = (left.clone(), fired.clone());
    let w = interpose::watch(&[&c.dir], Arc::new(move |e: &Event| {
        if e.phase != Phase::Before || !matches!(e.op, Op::Read | Op::Pread) || e.len == 0 { return Action::Go; }
        let n = l2.load(SeqCst);
        if n == u64::MAX { return Action::Go; }
        if n > 0 { l2.store(n - 1, SeqCst); return Action::Go; }
        f2.fetch_add(1, SeqCst);
        if errno == 0 { Action::Short(0) } else { Action::Fail(errno) }
    }));
    let len = 1 + gen::len(&mut c.rng, 60_000) as usize;
    let st = *c.rng.pick(&[gen::State::FsRead, gen::State::FsFile, gen::State::FsFileLonger, gen::State::FsSlice]);
    let s = setup_as(c, 1, len, st);
    let at = c.rng.below((len / s.fs) as u64 + 1);
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let (pool, pd) = pool(&mut c.rng);
    let _p = register(pool);
    let mut d = Driver::new(c.rng.next(), drive, alone_stream(s.kind));
    d.contend(s.tune.blocking_semaphore());
    let desc = format!("{:?} stream over {:?} of {} bytes, {:?}, read buffer {}, item {}, {}, {} at read {}", s.kind, s.state, len, drive, s.fs, s.item, pd, if errno == 0 { "end of file".to_string() } else { format!("errno {}", errno) }, at);
    c.step(desc.clone());
    fn go<B: Item + Splittable>(s: &Setup, d: &mut Driver) -> Result<(Vec<u8>, Option<std::io::Error>), Stop> {
        let mut st = AnyStream::<B>::new(s.kind, s.body.clone(), s.tune.clone());
        let mut v = Vec::new();
        loop {
            match d.run(|cx| st.poll(cx)) {
                Err(_) => return violation("pending without any wake-up"),
                Ok(None) => return Ok((v, None)),
                Ok(Some(Ok(b))) => v.extend(rest(b)),
                Ok(Some(Err(e))) => {
                    // Polled again, it may do as it likes, other than panic.
                    for _ in 0..2 { let _ = d.run(|cx| st.poll(cx)); }
                    return Ok((v, Some(e)));
                }
            }
            if v.len() > s.data.len() { return violation(format!("{} bytes from a body of {}", v.len(), s.data.len())); }
        }
    }
    left.store(at, SeqCst);
    let uni = c.rng.chance(1, 2);
    let r = no_panic(|| if uni { go::<UniBodyBuf>(&s, &mut d) } else { go::<Bytes>(&s, &mut d) });
    drop(w);
    let (v, e) = match r { Ok(Ok(r)) => r, Ok(Err(Stop::Violation(m))) => return violation(format!("{}: {}", desc, m)), Ok(Err(e)) => return Err(e), Err(p) => return violation(format!("{}: {}", desc, p.show())) };
    ensure!(s.data.starts_with(&v), "{}: {}", desc, diff(&v, &s.data));
    let fired = fired.load(SeqCst) > 0;
    match &e {
        None => ensure!(v.len() == len, "{}: ended after {} bytes as if that were all", desc, v.len()),
        Some(e) => {
            ensure!(fired, "{}: failed though nothing did: {}", desc, e);
            if errno != 0 { ensure!(e.raw_os_error() == Some(errno) || e.kind() == std::io::Error::from_raw_os_error(errno).kind(), "{}: the error is {:?}", desc, e); }
            c.count("failures passed on", 1);
        }
    }
    if fired { c.count("failing streams", 1); }
    c.distinct_str(&desc);
    Ok(())
}

/// Several streams at once over clones and other bodies, sharing a semaphore
/// and a pool.
fn together(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let n = 2 + c.rng.usize(5);
    let sem = semaphore(1 + c.rng.usize(2));
    let (pool, pd) = pool(&mut c.rng);
    let mut work = Vec::new();
    let s0 = setup(c, 1, 60_000);
    for _ in 0..n {
        let mut s = setup(c, 1, 60_000);
        if c.rng.chance(1, 2) { s.body = s0.body.clone(); s.data = s0.data.clone(); s.state = s0.state; }
        while s.data.len() / s.fs > 1000 { s.fs = s.fs * 4 + 1; }
        while s.data.len() / s.item > 1000 { s.item = s.item * 4 + 1; }
        let image = body_image::Tuner::new().set_buffer_size_fs(s.fs).set_temp_dir(&dir).finish();
        s.tune = futio(image, Some(stream_policy(s.kind, sem)), s.item);
        work.push((s, c.rng.next()));
    }
    let kinds: Vec<_> = work.iter().map(|(s, _)| format!("{:?}/{:?}/{}", s.kind, s.state, s.data.len())).collect();
    let desc = format!("{} streams {:?}, {}", n, kinds, pd);
    c.step(desc.clone());
    let hs: Vec<_> = work.into_iter().map(|(s, seed)| {
        let pool: DispatchPool = pool.clone();
        std::thread::spawn(move || -> Result<(u64, u64, u64), String> {
            let _p = register(pool);
            let mut r = Rng::new(seed);
            let drive = if r.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
            let mut d = Driver::new(r.next(), drive, alone_stream(s.kind));
            d.contend(s.tune.blocking_semaphore());
            let got = if r.chance(1, 2) {
                drain(&mut AnyStream::<Bytes>::new(s.kind, s.body, s.tune), &mut d, false)
            } else {
                drain(&mut AnyStream::<UniBodyBuf>::new(s.kind, s.body, s.tune), &mut d, false)
            }?;
            if got.bytes != s.data { return Err(format!("{:?} over {:?}: {}", s.kind, s.state, diff(&got.bytes, &s.data))); }
            Ok((got.items, d.pendings, got.hash))
        })
    }).collect();
    let mut h = 0;
    for t in hs {
        match t.join() {
            Ok(Ok((i, p, x))) => { c.count("items", i); c.count("pending polls", p); h = mix(h ^ x); }
            Ok(Err(e)) => return violation(format!("{}: {}", desc, e)),
            Err(_) => return violation(format!("{}: a stream panicked", desc)),
        }
    }
    c.count("streams run together", n as u64);
    c.distinct(mix(h ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

/// On a multi-threaded runtime, as in applications.
fn runtime(c: &mut Case<'_>) -> CaseResult {
    use futures_util::stream::StreamExt;
    let dir = c.dir.clone();
    let n = 1 + c.rng.usize(5);
    let sem = semaphore(1 + c.rng.usize(2));
    let (pool, _) = pool(&mut c.rng);
    let threads = 1 + c.rng.usize(3);
    let p2 = pool.clone();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).max_blocking_threads(threads + 4)
        .on_thread_start(move || { blocking_permit::register_dispatch_pool(p2.clone()); })
        .build().map_err(|e| Stop::Harness(e.to_string()))?;
    let mut hs = Vec::new();
    let mut what = Vec::new();
    for _ in 0..n {
        let s = setup(c, 1, 60_000);
        let fs = { let mut f = s.fs; while s.data.len() / f > 500 { f = f * 4 + 1; } f };
        let image = body_image::Tuner::new().set_buffer_size_fs(fs).set_temp_dir(&dir).finish();
        let tune = futio(image, Some(stream_policy(s.kind, sem)), s.item.max(64));
        what.push(format!("{:?}/{:?}/{}", s.kind, s.state, s.data.len()));
        hs.push(rt.spawn(async move {
            let mut st = AnyStream::<UniBodyBuf>::new(s.kind, s.body, tune);
            let mut v = Vec::new();
            let mut st = futures_util::stream::poll_fn(move |cx| st.poll(cx));
            while let Some(i) = st.next().await {
                match i { Ok(b) => v.extend(rest(b)), Err(e) => return Err(e.to_string()) }
            }
            if v != s.data { return Err(diff(&v, &s.data)); }
            Ok(v.len())
        }));
    }
    let desc = format!("runtime of {} threads, streams {:?}", threads, what);
    c.step(desc.clone());
    let mut bad = None;
    for h in hs {
        match rt.block_on(h) {
            Ok(Ok(n)) => c.count("bytes compared", n as u64),
            Ok(Err(e)) => { bad.get_or_insert(e); }
            Err(e) => { bad.get_or_insert(format!("task failed: {}", e)); }
        }
    }
    drop(rt);
    if let Some(b) = bad { return violation(format!("{}: {}", desc, b)); }
    ensure!(sem.available_permits() > 0, "{}: permits not returned", desc);
    c.count("streams on a runtime", n as u64);
    c.distinct_str(&desc);
    Ok(())
}

/// Streams of bodies beyond 32 bits, telling `look` how much is still to come.
pub fn vast<B: Item + Splittable>(c: &mut Case<'_>, kinds: &[StreamKind], look: impl Fn(&AnyStream<B>, u64, &str) -> CaseResult) -> CaseResult {
    let dir = c.dir.clone();
    let whole = c.rng.chance(1, 2);
    let gen::Vast { path, mut body, len, start, want } = gen::vast(&mut c.rng, &dir, whole)?;
    // Mapped bodies are copied by streams of other buffers.
    let mapped = B::NAME == "UniBodyBuf" && c.rng.chance(1, 2);
    if mapped { body.mem_map().map_err(|e| Stop::Violation(format!("mapping {}: {}", len, e)))?; }
    let kind = kinds[c.index as usize % kinds.len()];
    let fs = *c.rng.pick(&[1usize << 20, 1_500_007, 4 << 20]);
    let item = *c.rng.pick(&[1usize << 20, 3_000_001, 40 << 20]);
    let image = body_image::Tuner::new().set_buffer_size_fs(fs).set_temp_dir(&dir).finish();
    let tune = futio(image, Some(stream_policy(kind, semaphore(1))), item);
    let (pool, _) = open_pool(&mut c.rng);
    let _reg = register(pool);
    let desc = format!("{:?} stream of {} over {} bytes at {}, mapped {}, read buffer {}, item {}", kind, B::NAME, len, start, mapped, fs, item);
    c.step(desc.clone());
    let mut s = AnyStream::<B>::new(kind, body, tune);
    let mut d = Driver::new(c.rng.next(), Drive::Woken, alone_stream(kind));
    let mut at = 0u64;
    let mut got = vec![Vec::new(); want.len()];
    look(&s, len, &desc)?;
    loop {
        match d.run(|cx| s.poll(cx)) {
            Err(_) => return violation(format!("{}: pending without any wake-up", desc)),
            Ok(None) => break,
            Ok(Some(Err(e))) => return violation(format!("{}: failed after {} bytes: {}", desc, at, e)),
            Ok(Some(Ok(mut b))) => {
                while b.has_remaining() {
                    let n = b.chunk().len() as u64;
                    ensure!(at + n <= len, "{}: more than the body", desc);
                    for (g, (p, w)) in got.iter_mut().zip(&want) {
                        let (x, y) = (at.max(*p), (at + n).min(p + w.len() as u64));
                        if x < y { g.extend_from_slice(&b.chunk()[(x - at) as usize..(y - at) as usize]); }
                    }
                    b.advance(n as usize);
                    at += n;
                }
                look(&s, len - at, &desc)?;
                c.count("items of bodies beyond 32 bits", 1);
            }
        }
    }
    ensure!(at == len, "{}: ended after {} bytes", desc, at);
    ensure!(got.iter().zip(&want).all(|(g, (_, w))| g == w), "{}: {:?} instead of {:?}", desc, got, want);
    std::fs::remove_file(&path)?;
    c.count("bodies beyond 32 bits", 1);
    c.distinct_str(&desc);
    Ok(())
}

fn any_vast(c: &mut Case<'_>) -> CaseResult {
    if c.rng.chance(1, 2) { vast::<Bytes>(c, &STREAMS, |_, _, _| Ok(())) } else { vast::<UniBodyBuf>(c, &STREAMS, |_, _, _| Ok(())) }
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(3000, 20_000);
    x.run("single", n, single);
    let n = x.tier(300, 2500);
    x.run("disturbed", n, disturbed);
    let n = x.tier(150, 1200);
    x.run("together", n, together);
    let n = x.tier(60, 400);
    x.run("runtime", n, runtime);
    let n = x.tier(400, 3000);
    x.run("failing", n, failing);
    let n = x.tier(8, 40);
    x.run("large", n, large);
    if cfg!(feature = "interpose") {
        let n = x.tier(5, 30);
        x.run("vast", n, any_vast);
        x.require("bodies beyond 32 bits", 5);
    }
    x.require("failures passed on", 100);
    x.require("large bodies", 4);
    x.require("items", 10_000);
    x.require("file reads observed", 3000);
    x.require("distinct kind/item/state", 60);
    x.require("disturbed streams", 50);
    x.require("polls pending on a rival's permit", 100);
    x.require("streams run together", 100);
}
