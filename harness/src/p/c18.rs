//! C18: what sinks store, and when they spill.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use body_image::{BodySink, Tuner};
use body_image_futio::{FutioTunables, InputBuf, UniBodyBuf};
use blocking_permit::{DispatchPool, Splittable};
use bytes::{Buf, Bytes};

use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::{hash_bytes, mix, Rng};

struct Plan { kind: SinkKind, initial: Vec<u8>, initial_fs: bool, tune: FutioTunables, ram: u64, parts: Vec<Vec<u8>>, flush: Vec<bool>, close: bool }

fn plan(r: &mut Rng, dir: &std::path::Path, sem: &'static blocking_permit::Semaphore, max: u64) -> Plan {
    let total = gen::len(r, max) as usize;
    let data = r.bytes(total);
    let mut parts = gen::chunks(r, &data);
    if parts.len() > 80 { let tail: Vec<u8> = parts.drain(80..).flatten().collect(); parts.push(tail); }
    let il = if r.chance(1, 3) { gen::len(r, 6000) as usize } else { 0 };
    let initial = r.bytes(il);
    let initial_fs = r.chance(1, 4);
    // The limit sits at, or next to, a boundary between buffers.
    let mut edges = vec![initial.len() as u64];
    for p in &parts { let l = *edges.last().unwrap(); edges.push(l + p.len() as u64); }
    let e = *r.pick(&edges);
    let ram = match r.below(8) { 0 => 0, 1 => e + 1, 2 => e.saturating_sub(1), 3 => r.below(total as u64 + 2), 4 => u64::MAX, _ => e };
    let kind = *r.pick(&SINKS);
    let ram = ram.min(1 << 40);
    let image = Tuner::new().set_max_body_ram(ram).set_max_body((1 << 40) + 1).set_temp_dir(dir).finish();
    let tune = futio(image, Some(sink_policy(kind, sem)), 1024);
    let flush = parts.iter().map(|_| r.chance(1, 3)).collect();
    Plan { kind, initial, initial_fs, tune, ram, parts, flush, close: r.chance(1, 2) }
}

fn start(p: &Plan, r: &mut Rng, dir: &std::path::Path) -> std::io::Result<BodySink> {
    let mut b = if p.initial_fs { BodySink::with_fs(dir).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))? } else { BodySink::with_ram_buffers(r.usize(4)) };
    for ch in gen::chunks(r, &p.initial) { b.push(ch)?; }
    Ok(b)
}

/// Convert a part to a buffer; partly consumed buffers count what remains.
pub trait Make: InputBuf { fn make(r: &mut Rng, part: &[u8], dir: &std::path::Path) -> Self; const NAME: &'static str; }
impl Make for Bytes {
    const NAME: &'static str = "Bytes";
    fn make(r: &mut Rng, part: &[u8], _dir: &std::path::Path) -> Bytes {
        if r.chance(1, 3) {
            let pre = r.usize(50);
            let mut v = vec![0xEE; pre];
            v.extend_from_slice(part);
            let mut b = Bytes::from(v);
            b.advance(pre);
            b
        } else { Bytes::copy_from_slice(part) }
    }
}
impl Make for UniBodyBuf {
    const NAME: &'static str = "UniBodyBuf";
    fn make(r: &mut Rng, part: &[u8], dir: &std::path::Path) -> UniBodyBuf {
        if r.chance(1, 2) { return UniBodyBuf::from(Bytes::make(r, part, dir)); }
        let pre = r.usize(60);
        let post = r.usize(60);
        let mut v = vec![0xEE; pre];
        v.extend_from_slice(part);
        v.extend(vec![0xDD; post]);
        let mut b = interpose::quiet(|| mapped_buf(r, &v, dir));
        if pre > 0 { b.advance(pre); }
        if post > 0 && !part.is_empty() { b = b.split_if(part.len()).expect("split"); }
        else if post > 0 { b.advance(post); }
        b
    }
}

fn run_plan<B: Make>(p: &Plan, seed: u64, drive: Drive, dir: &std::path::Path, opened: Option<&AtomicU64>) -> Result<(u64, u64, u64, u64), Stop> {
    let mut r = Rng::new(seed);
    let body = start(p, &mut r, dir)?;
    let mut sink = AnySink::<B>::new(p.kind, body, p.tune.clone());
    let mut d = Driver::new(r.next(), drive, alone_sink(p.kind));
    d.contend(p.tune.blocking_semaphore());
    let mut want = p.initial.clone();
    let mut in_ram = !p.initial_fs;
    let mut spills = 0u64;
    let mut h = 0u64;
    let name = format!("{:?} sink of {}, {} bytes initially in {}, RAM limit {}", p.kind, B::NAME, p.initial.len(), if p.initial_fs { "file" } else { "RAM" }, p.ram);
    let base = opened.map(|o| o.load(SeqCst)).unwrap_or(0);
    macro_rules! go { ($e:expr, $w:expr) => { match $e {
        Err(_) => return violation(format!("{}: {} pending without any wake-up", name, $w)),
        Ok(Err(e)) => return violation(format!("{}: {} failed: {}", name, $w, e)),
        Ok(Ok(())) => {}
    } } }
    for (i, part) in p.parts.iter().enumerate() {
        let buf = B::make(&mut r, part, dir);
        assert_eq!(buf.remaining(), part.len());
        go!(d.run(|cx| sink.poll_ready(cx)), "ready");
        if let Err(e) = sink.start_send(buf) { return violation(format!("{}: send {}: {}", name, i, e)); }
        want.extend_from_slice(part);
        if !part.is_empty() && in_ram && want.len() as u64 > p.ram { in_ram = false; spills += 1; h = mix(h ^ i as u64); }
        if p.flush[i] {
            go!(d.run(|cx| sink.poll_flush(cx)), "flush");
            if let Some(o) = opened {
                let n = o.load(SeqCst) - base;
                if n != spills { return violation(format!("{}: {} files created instead of {} after {} bytes", name, n, spills, want.len())); }
            }
        }
    }
    let close = p.close;
    go!(d.run(|cx| if close { sink.poll_close(cx) } else { sink.poll_flush(cx) }), "last flush");
    if r.chance(1, 4) { go!(d.run(|cx| sink.poll_flush(cx)), "second flush"); }
    if let Some(o) = opened {
        let n = o.load(SeqCst) - base;
        if n != spills { return violation(format!("{}: {} files created instead of {} in all", name, n, spills)); }
    }
    let body = sink.into_inner();
    ensure!(body.len() == want.len() as u64, "{}: length {} instead of {}", name, body.len(), want.len());
    ensure!(body.is_ram() == in_ram, "{}: {} at {} bytes", name, if in_ram { "spilled" } else { "still in RAM" }, want.len());
    let img = match body.prepare() { Ok(b) => b, Err(e) => return violation(format!("{}: prepare: {}", name, e)) };
    match gen::read_all(&img) { Ok(v) => ensure!(v == want, "{}: {}", name, diff(&v, &want)), Err(e) => return violation(format!("{}: read: {}", name, e)) }
    Ok((p.parts.len() as u64, spills, h, d.contended))
}

fn single(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.join("t");
    let src = c.dir.join("s");
    interpose::quiet(|| std::fs::create_dir(&dir).and_then(|_| std::fs::create_dir(&src)))?;
    let sem = semaphore(1);
    let p = plan(&mut c.rng, &dir, sem, 200_000);
    let (pool, pd) = pool(&mut c.rng);
    let _g = register(pool);
    let opened = Arc::new(AtomicU64::new(0));
    let o2 = opened.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |e: &Event| {
        if let (Op::Open, Phase::After(r)) = (e.op, e.phase) { if r >= 0 { o2.fetch_add(1, SeqCst); } }
        Action::Go
    }));
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let seed = c.rng.next();
    let uni = c.rng.chance(1, 2);
    c.step(format!("{:?} {} parts {:?} {}", p.kind, p.parts.len(), drive, pd));
    // Sources of mapped buffers live outside the temporary directory.
    let (n, s, h, rival) = if uni { run_plan::<UniBodyBuf>(&p, seed, drive, &src, Some(&opened))? } else { run_plan::<Bytes>(&p, seed, drive, &src, Some(&opened))? };
    drop(w);
    c.count("buffers sent", n);
    c.count("spills observed", s);
    c.count("polls pending on a rival's permit", rival);
    c.in_set("spill positions", h);
    c.distinct_str(&format!("{:?}/{}/{}/{}/{:?}", p.kind, p.ram, p.initial.len(), p.parts.len(), p.parts.iter().map(|x| x.len()).collect::<Vec<_>>()));
    Ok(())
}

/// Buffers beyond the sizes anything is likely to split at.
fn large(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.join("t");
    let src = c.dir.join("s");
    interpose::quiet(|| std::fs::create_dir(&dir).and_then(|_| std::fs::create_dir(&src)))?;
    let mut p = plan(&mut c.rng, &dir, semaphore(1), 3000);
    let n = (16 << 20) + c.rng.usize(16 << 20);
    let at = c.rng.usize(p.parts.len() + 1);
    p.parts.insert(at, c.rng.bytes(n));
    p.flush.insert(at, true);
    let (pool, pd) = pool(&mut c.rng);
    let _g = register(pool);
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let seed = c.rng.next();
    c.step(format!("{:?} with a buffer of {} bytes, limit {}, {:?} {}", p.kind, n, p.ram, drive, pd));
    let (n, s, _, _) = if c.index % 4 != 0 { run_plan::<UniBodyBuf>(&p, seed, drive, &src, None)? } else { run_plan::<Bytes>(&p, seed, drive, &src, None)? };
    c.count("buffers sent", n);
    c.count("spills observed", s);
    c.count("large buffers", 1);
    c.distinct_str(&format!("{:?}/{}/{}", p.kind, p.ram, seed));
    Ok(())
}

/// Many sinks at once on a shared semaphore and pool.
fn together(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let n = 2 + c.rng.usize(5);
    let sem = semaphore(1 + c.rng.usize(2));
    let (pool, pd) = pool(&mut c.rng);
    let mut hs = Vec::new();
    for _ in 0..n {
        let p = plan(&mut c.rng, &dir, sem, 60_000);
        let seed = c.rng.next();
        let dir = dir.clone();
        let pool: DispatchPool = pool.clone();
        let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
        hs.push(std::thread::spawn(move || {
            let _p = register(pool);
            if seed & 1 == 0 { run_plan::<UniBodyBuf>(&p, seed, drive, &dir, None) } else { run_plan::<Bytes>(&p, seed, drive, &dir, None) }
        }));
    }
    let mut h = 0;
    for t in hs {
        match t.join() {
            Ok(Ok((n, s, x, _))) => { c.count("buffers sent", n); c.count("spills observed", s); h = mix(h ^ x ^ n); }
            Ok(Err(e)) => return Err(e),
            Err(_) => return violation("a sink panicked"),
        }
    }
    c.step(format!("{} sinks, {}", n, pd));
    c.count("sinks run together", n as u64);
    c.distinct(mix(h ^ hash_bytes(pd.as_bytes()) ^ c.seed));
    Ok(())
}

/// Streams forwarded to sinks: the pipelines applications build.
fn forward(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let sem = semaphore(1 + c.rng.usize(2));
    let (pool, pd) = pool(&mut c.rng);
    let _g = register(pool);
    let p = plan(&mut c.rng, &dir, sem, 100_000);
    let st = super::c17::setup(c, 2, 100_000);
    let fs = { let mut f = st.fs; while st.data.len() / f > 300 { f = f * 4 + 1; } f };
    let item = { let mut f = st.item; while st.data.len() / f > 300 { f = f * 4 + 1; } f };
    let image = Tuner::new().set_buffer_size_fs(fs).set_temp_dir(&dir).finish();
    let stune = futio(image, Some(stream_policy(st.kind, semaphore(1))), item);
    let drive = if c.rng.chance(1, 2) { Drive::Woken } else { Drive::Spurious };
    let desc = format!("{:?} stream over {:?} of {} bytes to {:?} sink, RAM limit {}, {}", st.kind, st.state, st.data.len(), p.kind, p.ram, pd);
    c.step(desc.clone());
    let body = BodySink::with_ram(p.initial.len() as u64);
    let mut s = AnyStream::<UniBodyBuf>::new(st.kind, st.body, stune);
    let mut k = AnySink::<UniBodyBuf>::new(p.kind, body, p.tune.clone());
    let mut d = Driver::new(c.rng.next(), drive, alone_sink(p.kind) && alone_stream(st.kind));
    d.contend(p.tune.blocking_semaphore());
    let mut sent = 0u64;
    let mut largest = 0;
    loop {
        match d.run(|cx| k.poll_ready(cx)) { Ok(Ok(())) => {}, Ok(Err(e)) => return violation(format!("{}: ready: {}", desc, e)), Err(_) => return violation(format!("{}: ready without wake-up", desc)) }
        match d.run(|cx| s.poll(cx)) {
            Ok(Some(Ok(b))) => { sent += b.remaining() as u64; largest = largest.max(b.remaining()); if let Err(e) = k.start_send(b) { return violation(format!("{}: send: {}", desc, e)); } }
            Ok(None) => break,
            Ok(Some(Err(e))) => return violation(format!("{}: stream: {}", desc, e)),
            Err(_) => return violation(format!("{}: stream without wake-up", desc)),
        }
    }
    match d.run(|cx| k.poll_close(cx)) { Ok(Ok(())) => {}, Ok(Err(e)) => return violation(format!("{}: close: {}", desc, e)), Err(_) => return violation(format!("{}: close without wake-up", desc)) }
    // The stream and its source may go before the sink is used.
    drop(s);
    let b = k.into_inner();
    ensure!(sent == st.data.len() as u64, "{}: {} bytes sent", desc, sent);
    ensure!(b.is_ram() == (sent <= p.ram), "{}: {} at the end", desc, if b.is_ram() { "in RAM" } else { "in file" });
    let img = match b.prepare() { Ok(b) => b, Err(e) => return violation(format!("{}: prepare: {}", desc, e)) };
    match gen::read_all(&img) { Ok(v) => ensure!(v == st.data, "{}: {}", desc, diff(&v, &st.data)), Err(e) => return violation(format!("{}: read: {}", desc, e)) }
    c.count("pipelines", 1);
    c.count("bytes through pipelines", sent);
    c.distinct_str(&desc);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(2500, 15_000);
    x.run("single", n, single);
    let n = x.tier(100, 900);
    x.run("together", n, together);
    let n = x.tier(400, 3000);
    x.run("forward", n, forward);
    let n = x.tier(6, 40);
    x.run("large", n, large);
    x.require("large buffers", 4);
    x.require("buffers sent", 5000);
    x.require("spills observed", 300);
    x.require("distinct spill positions", 10);
    x.require("polls pending on a rival's permit", 100);
    x.require("pipelines", 200);
}
