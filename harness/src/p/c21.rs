//! C21: what bodies say about themselves as HTTP message bodies.
use std::task::{Context, Poll};

use blocking_permit::Splittable;
use body_image::{BodyImage, Tuner};
use body_image_futio::UniBodyBuf;
use bytes::Bytes;
use http_body::Body;

use crate::ctx::*;
use crate::exec::Signal;
use crate::flow::*;
use crate::gen;
use crate::rng::{hash_bytes, mix};

const KINDS: [StreamKind; 3] = [StreamKind::Direct, StreamKind::Permit, StreamKind::Dispatch];

fn says<B: Item + Splittable>(s: &AnyStream<B>, left: u64, when: &str, desc: &str) -> Result<u64, Stop> {
    let (lo, hi, end) = s.meta().expect("an HTTP body");
    ensure!(lo == left && hi == Some(left), "{}: size hint {}..{:?} {} with {} bytes to come", desc, lo, hi, when, left);
    ensure!(end == (left == 0), "{}: end of stream {} {} with {} bytes to come", desc, end, when, left);
    Ok(1)
}

fn body<B: Item + Splittable>(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let len = gen::len(&mut c.rng, 100_000) as usize;
    let data = c.rng.bytes(len);
    let state = *c.rng.pick(&gen::STATES);
    let mut b: BodyImage = gen::body(&mut c.rng, state, &data, &dir);
    if c.rng.chance(1, 8) { b.gather(); }
    let kind = *c.rng.pick(&KINDS);
    let mut fs = gen::buf_size(&mut c.rng);
    while len / fs > 200 { fs = fs * 4 + 1; }
    let sem = semaphore(1);
    let image = Tuner::new().set_buffer_size_fs(fs).set_temp_dir(&dir).finish();
    let tune = futio(image, Some(stream_policy(kind, sem)), 1024);
    let (pool, _) = open_pool(&mut c.rng);
    let _reg = register(pool);
    let desc = format!("{:?} body of {} over {:?} of {} bytes by {}", kind, B::NAME, state, len, fs);
    c.step(desc.clone());
    let mut s = AnyStream::<B>::new(kind, b, tune);
    let mut left = len as u64;
    let mut looks = says(&s, left, "at first", &desc)?;
    let mut guard = if kind == StreamKind::Permit && c.rng.chance(1, 2) { Some(sem.try_acquire().expect("free")) } else { None };
    let mut sig = Signal::new();
    let mut got = Vec::new();
    let mut h = 0;
    let trailers_early = c.rng.chance(1, 6);
    loop {
        let w = std::task::Waker::from(sig.clone());
        let mut cx = Context::from_waker(&w);
        match s.poll_data(&mut cx) {
            Poll::Pending => {
                looks += says(&s, left, "while waiting", &desc)?;
                c.count("looks while waiting", 1);
                if guard.is_some() && c.rng.chance(1, 2) { continue; }
                guard = None;
                if c.rng.chance(1, 3) { sig = Signal::new(); continue; }
                sig.wait();
                looks += says(&s, left, "after a wake-up", &desc)?;
            }
            Poll::Ready(Some(Ok(b))) => {
                let v = rest(b);
                ensure!(v.len() as u64 <= left, "{}: more delivered than announced", desc);
                left -= v.len() as u64;
                h = mix(h ^ v.len() as u64);
                got.extend(v);
                looks += says(&s, left, "after an item", &desc)?;
                if kind == StreamKind::Permit && left > 0 && c.rng.chance(1, 8) { guard = sem.try_acquire().ok(); }
            }
            Poll::Ready(Some(Err(e))) => return violation(format!("{}: {}", desc, e)),
            Poll::Ready(None) => {
                ensure!(left == 0, "{}: ended with {} bytes to come", desc, left);
                looks += says(&s, 0, "at the end", &desc)?;
                break;
            }
        }
        if trailers_early && left == 0 { break; }
    }
    ensure!(got == data, "{}: {}", desc, diff(&got, &data));
    let w = std::task::Waker::from(sig);
    let mut cx = Context::from_waker(&w);
    match s.poll_trailers(&mut cx) {
        Poll::Ready(Ok(None)) => c.count("looks for trailers", 1),
        other => return violation(format!("{}: trailers {:?}", desc, other)),
    }
    looks += says(&s, 0, "after trailers", &desc)?;
    c.count("looks", looks);
    c.in_set_str("kind/item/state", &format!("{:?}{}{:?}", kind, B::NAME, state));
    c.distinct(mix(h ^ hash_bytes(desc.as_bytes())));
    Ok(())
}

fn single(c: &mut Case<'_>) -> CaseResult {
    if c.rng.chance(1, 2) { body::<Bytes>(c) } else { body::<UniBodyBuf>(c) }
}

/// The data of an HTTP body as the HTTP library itself aggregates it.
fn aggregate(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let len = gen::len(&mut c.rng, 50_000) as usize;
    let data = c.rng.bytes(len);
    let state = *c.rng.pick(&gen::STATES);
    let b = gen::body(&mut c.rng, state, &data, &dir);
    let tune = futio(Tuner::new().set_temp_dir(&dir).finish(), None, 1024);
    let mut s = body_image_futio::AsyncBodyImage::<UniBodyBuf>::new(b, tune);
    let hint = s.size_hint().exact();
    ensure!(hint == Some(len as u64), "size hint {:?} for {} bytes", hint, len);
    let v = crate::exec::block_on(Box::pin(async move {
        let mut v = Vec::new();
        while let Some(x) = s.data().await { match x { Ok(b) => v.extend(rest(b)), Err(e) => return Err(e.to_string()) } }
        match s.trailers().await { Ok(None) => Ok((v, s.is_end_stream(), s.size_hint().exact())), Ok(Some(_)) => Err("trailers".into()), Err(e) => Err(e.to_string()) }
    }));
    match v {
        Ok((v, end, hint)) => {
            ensure!(v == data, "{}", diff(&v, &data));
            ensure!(end && hint == Some(0), "end {} hint {:?} after the last byte", end, hint);
        }
        Err(e) => return violation(format!("{:?} of {}: {}", state, len, e)),
    }
    c.count("looks for trailers", 1);
    c.distinct_str(&format!("{:?}{}", state, len));
    Ok(())
}

/// Lengths beyond 32 bits.
fn vast(c: &mut Case<'_>) -> CaseResult {
    fn look<B: Item + Splittable>(s: &AnyStream<B>, left: u64, desc: &str) -> CaseResult { says(s, left, "between items", desc).map(|_| ()) }
    if c.rng.chance(1, 2) { super::c17::vast::<Bytes>(c, &KINDS, look) } else { super::c17::vast::<UniBodyBuf>(c, &KINDS, look) }
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(4000, 40_000);
    x.run("single", n, single);
    let n = x.tier(500, 4000);
    x.run("aggregate", n, aggregate);
    if cfg!(feature = "interpose") {
        let n = x.tier(4, 24);
        x.run("vast", n, vast);
        x.require("bodies beyond 32 bits", 4);
    }
    x.require("looks", 20_000);
    x.require("looks while waiting", 500);
    x.require("looks for trailers", 1000);
    x.require("distinct kind/item/state", 50);
}
