//! C29: memory. Run in builds with sanitizers and under an interpreter that
//! check every access; here is only what to do. Every byte handed out is
//! branched upon, so that one never written shows.
use std::io::{self, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::sync::mpsc;

use barc::{BarcFile, CompressStrategy};
use body_image::{BodyImage, BodySink, Tuner};
use body_image_futio::{AsyncBodyImage, OutputBuf, UniBodyBuf};
use bytes::{Buf, Bytes};

use crate::archive::{self, Strat};
use crate::ctx::*;
use crate::flow;
use crate::gen::{self, State};
use crate::rng::{hash_bytes, mix, Rng};

/// Branch on every byte.
fn touch(b: &[u8]) -> u64 {
    let mut h = 0u64;
    for x in b { if *x == 0xA7 { h += 3 } else if *x > 0x7f { h ^= *x as u64 } else { h = h.wrapping_mul(31) } }
    h
}

fn most() -> u64 { if cfg!(miri) { 300 } else { 30_000 } }

fn buffer(r: &mut Rng) -> usize { if cfg!(miri) { 1 + r.usize(64) } else { gen::buf_size(r) } }

fn chunk(r: &mut Rng, max: u64) -> usize { if cfg!(miri) { 1 + r.usize(60) } else { 1 + gen::len(r, max) as usize } }

fn states() -> Vec<State> {
    if cfg!(miri) { vec![State::RamOne, State::RamMany, State::FsRead] } else { gen::STATES.to_vec() }
}

/// How a source treats the buffer it is given.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Manner { Honest, Peeking, Scribbling, Boasting, Exceeding }
const MANNERS: [Manner; 5] = [Manner::Honest, Manner::Peeking, Manner::Scribbling, Manner::Boasting, Manner::Exceeding];

struct Source { left: usize, r: Rng, m: Manner, seen: u64, boasted: u64 }

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.m == Manner::Peeking { self.seen ^= touch(b); }
        if self.r.chance(1, 10) { return Err(io::ErrorKind::Interrupted.into()); }
        let n = self.left.min(b.len()).min(chunk(&mut self.r, 9000));
        for x in &mut b[..n] { *x = self.r.next() as u8; }
        self.left -= n;
        if n == 0 { return Ok(0); }
        match self.m {
            Manner::Scribbling => { for x in &mut b[n..] { *x = 0xEE; } Ok(n) }
            // More than was written, yet no more than there is room for.
            Manner::Boasting => { let k = self.r.usize(b.len() - n + 1); self.boasted += k as u64; Ok(n + k) }
            Manner::Exceeding => if self.r.chance(1, 3) { Ok(b.len() + 1 + self.r.usize(5000)) } else { Ok(n) },
            _ => Ok(n),
        }
    }
}

fn sources(c: &mut Case<'_>) -> CaseResult {
    let m = *c.rng.pick(&MANNERS);
    let n = gen::len(&mut c.rng, most() * 2) as usize;
    let mut t = Tuner::new();
    t.set_max_body(1 << 30).set_max_body_ram(c.rng.below(most())).set_buffer_size_ram(buffer(&mut c.rng)).set_buffer_size_fs(buffer(&mut c.rng)).set_temp_dir(&c.dir);
    let t = t.finish();
    let est = c.rng.below(most());
    let mut s = Source { left: n, r: Rng::new(c.rng.next()), m, seen: 0, boasted: 0 };
    let got = no_panic(|| BodyImage::read_from(&mut s, est, &t));
    let out = match got {
        Ok(Ok(b)) => {
            let v = gen::read_all(&b)?;
            c.count("bytes looked at", v.len() as u64);
            c.count("bytes sources only claimed", s.boasted);
            format!("{} {:x}", v.len(), touch(&v))
        }
        Ok(Err(e)) => format!("{}", e),
        // Refusing nonsense this way is memory safe.
        Err(_) => { ensure!(m == Manner::Exceeding, "a panic for a source that is {:?}", m); "refused".to_string() }
    };
    c.step(format!("{:?} source of {} bytes, ram {}: {}", m, n, t.max_body_ram(), out));
    c.in_set_str("manners", &format!("{:?}{}", m, out == "refused"));
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// Everything one can do to a body.
fn use_body(r: &mut Rng, b: BodyImage, n: usize) -> Result<u64, Stop> {
    let mut h = 0;
    let mut b = b;
    for _ in 0..1 + r.usize(4) {
        match r.below(6) {
            0 => { let v = gen::read_all(&b)?; h ^= touch(&v); }
            1 => {
                let mut rd = b.reader();
                let mut buf = vec![0; chunk(r, 5000)];
                let k = rd.read(&mut buf)?;
                h ^= touch(&buf[..k]);
            }
            2 => {
                let mut v = Vec::new();
                b.write_to(&mut v).map_err(|e| Stop::Violation(e.to_string()))?;
                h ^= touch(&v);
            }
            3 => { b.gather(); }
            4 => { let c = b.clone(); h ^= touch(&gen::read_all(&c)?); b = c; }
            _ => if !cfg!(miri) { b.mem_map().map_err(|e| Stop::Violation(e.to_string()))?; }
        }
        ensure!(b.len() == n as u64, "length changed");
    }
    // Parts outlive the body.
    match b.explode() {
        body_image::ExplodedImage::Ram(v) => for x in v { h ^= touch(&x); },
        body_image::ExplodedImage::FsRead(mut rs) => { let mut v = Vec::new(); rs.seek(SeekFrom::Start(0))?; rs.read_to_end(&mut v)?; h ^= touch(&v); }
        body_image::ExplodedImage::MemMap(m) => h ^= touch(&m[..]),
        #[allow(unreachable_patterns)]
        _ => {}
    }
    Ok(h)
}

/// Clones used and dropped on several threads at once.
fn shared(c: &mut Case<'_>) -> CaseResult {
    let st = *c.rng.pick(&states());
    let n = 1 + c.rng.usize(most() as usize);
    let data = c.rng.bytes(n);
    let body = gen::body(&mut c.rng, st, &data, &c.dir);
    let k = if cfg!(miri) { 2 } else { 2 + c.rng.usize(3) };
    let mut ts = Vec::new();
    for _ in 0..k {
        let b = body.clone();
        let mut r = Rng::new(c.rng.next());
        ts.push(std::thread::spawn(move || use_body(&mut r, b, n).map_err(|e| match e { Stop::Violation(s) | Stop::Harness(s) => s })));
    }
    let mut r = Rng::new(c.rng.next());
    let mut h = vec![use_body(&mut r, body, n)?];
    for t in ts {
        match t.join() { Ok(Ok(x)) => h.push(x), Ok(Err(e)) => return violation(e), Err(_) => return violation("a reading thread panicked") }
    }
    c.step(format!("{:?} of {} bytes on {} threads", st, n, k));
    c.count("threads on shared bodies", k as u64 + 1);
    c.in_set_str("shared states", &format!("{:?}", st));
    c.distinct(mix(h.iter().fold(n as u64, |a, b| mix(a ^ b))));
    Ok(())
}

/// A sink filled through every method, sent to another thread in between.
fn sunk(c: &mut Case<'_>) -> CaseResult {
    let mut s = match c.rng.below(3) { 0 => BodySink::empty(), 1 => BodySink::with_ram(c.rng.below(most())), _ => BodySink::with_fs(&c.dir).map_err(|e| Stop::Harness(e.to_string()))? };
    let (mut n, mut ops) = (0u64, Vec::new());
    for _ in 0..1 + c.rng.usize(8) {
        let k = chunk(&mut c.rng, most());
        let d = c.rng.bytes(k);
        let op = c.rng.below(4);
        match op {
            0 => { s.push(d).map_err(|e| Stop::Violation(e.to_string()))?; n += k as u64; }
            1 => { s.push(Bytes::from(d).slice(k / 3..)).map_err(|e| Stop::Violation(e.to_string()))?; n += (k - k / 3) as u64; }
            2 => { s.write_all(d).map_err(|e| Stop::Violation(e.to_string()))?; n += k as u64; }
            _ => { let dir = c.dir.clone(); s = std::thread::spawn(move || { let _ = s.write_back(dir); s }).join().unwrap(); }
        }
        ops.push(op);
    }
    let b = s.prepare().map_err(|e| Stop::Violation(e.to_string()))?;
    let mut r = Rng::new(c.rng.next());
    let h = use_body(&mut r, b, n as usize)?;
    c.step(format!("{:?} {} bytes", ops, n));
    c.distinct(mix(h ^ n));
    Ok(())
}

fn pull<B: OutputBuf + Buf + Send + 'static>(r: &mut Rng, s: AsyncBodyImage<B>, quit: usize) -> (u64, u64)
    where AsyncBodyImage<B>: futures_core::Stream<Item = Result<B, io::Error>> + Unpin
{
    let w = futures_util::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    let mut s = s;
    let mut held = Vec::new();
    let (tx, rx) = mpsc::channel::<B>();
    let other = std::thread::spawn(move || { let mut h = 0; for mut b in rx { while b.has_remaining() { h ^= touch(b.chunk()); let k = b.chunk().len(); b.advance(k); } } h });
    let mut n = 0;
    for _ in 0..quit {
        match futures_core::Stream::poll_next(Pin::new(&mut s), &mut cx) {
            std::task::Poll::Ready(Some(Ok(b))) => { n += b.remaining() as u64; if r.chance(1, 2) { tx.send(b).unwrap(); } else { held.push(b); } }
            std::task::Poll::Ready(_) => break,
            std::task::Poll::Pending => continue,
        }
    }
    drop(s);
    let mut h = 0;
    for b in held { h ^= touch(b.chunk()); }
    drop(tx);
    (n, h ^ other.join().unwrap())
}

/// Buffers of a stream outlive it, and go to other threads.
fn streamed(c: &mut Case<'_>) -> CaseResult {
    let st = *c.rng.pick(&states());
    let n = 1 + c.rng.usize(most() as usize);
    let data = c.rng.bytes(n);
    let b = gen::body(&mut c.rng, st, &data, &c.dir);
    let mut t = Tuner::new();
    t.set_buffer_size_fs(buffer(&mut c.rng)).set_buffer_size_ram(buffer(&mut c.rng)).set_temp_dir(&c.dir);
    let tune = flow::futio(t.finish(), None, 4096);
    let quit = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.usize(10) };
    let mut r = Rng::new(c.rng.next());
    let uni = c.rng.chance(1, 2);
    let (k, h) = if uni { pull(&mut r, AsyncBodyImage::<UniBodyBuf>::new(b, tune), quit) } else { pull(&mut r, AsyncBodyImage::<Bytes>::new(b, tune), quit) };
    if quit == usize::MAX { ensure!(k == n as u64, "{} bytes of {}", k, n); }
    c.step(format!("{:?} of {} bytes, {} taken, uni {}", st, n, k, uni));
    c.count("bytes looked at", k);
    c.in_set_str("streamed states", &format!("{:?}{}", st, uni));
    c.distinct(mix(h ^ n as u64));
    Ok(())
}

/// Records outlive their reader and file.
fn archived(c: &mut Case<'_>) -> CaseResult {
    let p = c.dir.join("a.barc");
    let f = BarcFile::new(&p);
    let mut k = 0;
    {
        let mut w = f.writer().map_err(|e| Stop::Violation(e.to_string()))?;
        for _ in 0..1 + c.rng.usize(3) {
            let (rec, _) = if cfg!(miri) { archive::tagged("t", c.rng.bytes(40), c.rng.bytes(100)) } else { let d = c.dir.clone(); archive::record(&mut c.rng, &d, most()) };
            let s = if cfg!(miri) { Strat::plain() } else { Strat::any(&mut c.rng) };
            let s: Box<dyn CompressStrategy + Send + Sync> = s.boxed();
            w.write(&rec, &*s).map_err(|e| Stop::Violation(e.to_string()))?;
            k += 1;
        }
    }
    let dir = c.dir.clone();
    let tune = if cfg!(miri) { let mut t = Tuner::new(); t.set_temp_dir(&dir); t.finish() } else { archive::reader_tune(&mut c.rng, &dir) };
    let mut recs = Vec::new();
    {
        let mut rd = f.reader().map_err(|e| Stop::Violation(e.to_string()))?;
        while let Some(r) = rd.read(&tune).map_err(|e| Stop::Violation(e.to_string()))? { recs.push(r); }
    }
    drop(f);
    std::fs::remove_file(&p)?;
    ensure!(recs.len() == k, "{} of {} records", recs.len(), k);
    let t = std::thread::spawn(move || { let mut h = 0; for r in recs { match archive::model_of(&r) { Ok(m) => { h ^= touch(&m.req_b) ^ touch(&m.res_b); for x in m.req_h.iter().chain(&m.res_h).chain(&m.meta) { h ^= touch(x.0.as_bytes()); for v in &x.1 { h ^= touch(v); } } } Err(_) => return None } } Some(h) });
    let h = match t.join() { Ok(Some(h)) => h, _ => return violation("records unreadable on another thread") };
    c.count("records read", k as u64);
    c.step(format!("{} records", k));
    c.distinct(h);
    Ok(())
}

/// A defect of each kind, to see that the checker in use reports it.
pub fn child(args: &[String]) -> i32 {
    use std::hint::black_box;
    match args[0].as_str() {
        "none" => {}
        "uaf" => { let b = vec![1u8; 64].into_boxed_slice(); let p = b.as_ptr(); drop(black_box(b)); black_box(unsafe { std::ptr::read_volatile(p) }); }
        "leak" => { fn f(n: usize) { for i in 0..n { std::mem::forget(black_box(vec![i; 100])); } } f(black_box(50)); let mut x = [0u8; 4096]; black_box(&mut x); }
        "uninit" => { let v: Vec<u8> = { let mut v = Vec::with_capacity(64); unsafe { v.set_len(64); } v }; println!("{}", touch(black_box(&v))); }
        "race" => {
            static mut N: u64 = 0;
            let t: Vec<_> = (0..2).map(|_| std::thread::spawn(|| for _ in 0..1000 { unsafe { let p = std::ptr::addr_of_mut!(N); *p = *p + 1; } })).collect();
            for t in t { t.join().unwrap(); }
        }
        _ => return 3,
    }
    0
}

pub fn run(x: &mut Ctx) {
    let m = |x: &Ctx, q: u64, t: u64, miri: u64| if cfg!(miri) { x.tier(miri, miri * 5) } else { x.tier(q, t) };
    let n = m(x, 400, 4000, 12);
    x.run("sources", n, sources);
    let n = m(x, 200, 2000, 8);
    x.run("shared", n, shared);
    let n = m(x, 200, 2000, 8);
    x.run("sunk", n, sunk);
    let n = m(x, 300, 3000, 10);
    x.run("streamed", n, streamed);
    if !cfg!(miri) || std::env::var_os("VH_ARCHIVES").is_some() {
        let n = m(x, 100, 1000, 4);
        x.run("archived", n, archived);
    }
}
