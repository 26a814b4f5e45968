//! C27: a fetched dialog is the whole exchange, or an error.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

use body_image::{BodyError, Encoding, Recorded, Tuner};
use body_image_futio::*;

use super::c14;
use super::c28::{arrived, planned, recording};
use crate::archive::*;
use crate::cli;
use crate::ctx::*;
use crate::flow::{self, open_pool, SinkKind, SINKS};
use crate::gen::{self, canon};
use crate::rng::{hash_bytes, Rng};
use crate::wire::{self, *};

const METHODS: [&str; 8] = ["GET", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "PROPFIND"];

struct Limits { ram: u64, max: u64 }

fn limits(r: &mut Rng, len: u64) -> Limits {
    let around = |r: &mut Rng| match r.below(5) { 0 => len, 1 => len + 1, 2 => len.saturating_sub(1), 3 => r.below(len * 2 + 2), _ => 1 << 20 };
    let max = if r.chance(1, 2) { 1 << 24 } else { around(r) };
    // Or none to speak of.
    if r.chance(1, 16) { let m = *r.pick(&[1 << 40, 1 << 62, u64::MAX]); return Limits { ram: m, max: m }; }
    Limits { ram: around(r).min(max), max }
}

fn image(r: &mut Rng, l: &Limits, dir: &std::path::Path) -> body_image::Tunables {
    let mut t = Tuner::new();
    t.set_max_body(l.max).set_max_body_ram(l.ram).set_temp_dir(dir).set_buffer_size_ram(gen::buf_size(r)).set_buffer_size_fs(gen::buf_size(r));
    t.finish()
}

fn futio(r: &mut Rng, l: &Limits, dir: &std::path::Path, policy: BlockingPolicy, times: (Option<Duration>, Option<Duration>)) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(image(r, l, dir)).set_blocking_policy(policy);
    match times.0 { Some(d) => t.set_res_timeout(d), None => t.unset_res_timeout() };
    match times.1 { Some(d) => t.set_body_timeout(d), None => t.unset_body_timeout() };
    t.finish()
}

/// Temporary files present.
fn files(dir: &std::path::Path) -> usize { super::c06::visible(dir).len() }

/// The dialog against the exchange as the server saw it.
fn whole(d: &body_image::Dialog, t: &Taken, resp: &Response, l: &Limits) -> CaseResult {
    let g = c14::plain(d).map_err(|e| Stop::Violation(format!("dialog body unreadable: {}", e)))?;
    ensure!(g.method == t.method.as_str() && g.url == t.url.to_string() && g.req_h == t.headers && g.req_b == t.body, "request part of the dialog differs");
    ensure!(g.status == resp.status, "status {} instead of {}", g.status, resp.status);
    ensure!(g.version == resp.version, "version {:?} instead of {:?}", g.version, resp.version);
    ensure!(g.res_h == resp.headers, "response headers differ: {:?} instead of {:?}", g.res_h.len(), resp.headers.len());
    ensure!(g.res_b == resp.body, "response body ({:?}): {}", resp.framing, diff(&g.res_b, &resp.body));
    ensure!(d.res_body().len() == resp.body.len() as u64, "response body length {}", d.res_body().len());
    let dec = if resp.framing == Framing::Chunked { vec![Encoding::Chunked] } else { Vec::new() };
    ensure!(g.decoded == dec, "decoded {:?} for {:?}", g.decoded, resp.framing);
    let n = resp.body.len() as u64;
    ensure!(n <= l.max, "body of {} bytes beyond the maximum of {}", n, l.max);
    ensure!(d.res_body().is_ram() == (n <= l.ram) || n == 0, "body of {} bytes {} with a limit of {} ({:?})", n, if d.res_body().is_ram() { "in RAM" } else { "in a file" }, l.ram, resp.framing);
    Ok(())
}

struct Bed { rt: Rt, _reg: flow::Registered, sem: &'static blocking_permit::Semaphore, policy: BlockingPolicy, sink: SinkKind, kind: Kind, current: bool }

fn bed(c: &mut Case<'_>) -> Result<Bed, Stop> {
    let sink = *c.rng.pick(&SINKS);
    let kind = *c.rng.pick(&KINDS);
    let current = !kind.permit() && sink != SinkKind::Permit && c.rng.chance(1, 2);
    let sem = flow::semaphore(1 + c.rng.usize(2));
    let (pool, _) = open_pool(&mut c.rng);
    let _reg = flow::register(pool.clone());
    let rt = wire::runtime(&mut c.rng, current, Some(pool))?;
    Ok(Bed { rt, _reg, sem, policy: flow::sink_policy(sink, sem), sink, kind, current })
}

fn tmp(c: &Case<'_>) -> std::io::Result<std::path::PathBuf> { let d = c.dir.join("tmp"); std::fs::create_dir_all(&d)?; Ok(d) }

/// A well-behaved server.
fn good(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let td = tmp(c)?;
    let b = bed(c)?;
    let m = *c.rng.pick(&METHODS);
    let u = wire::url(&mut c.rng);
    let mut p = planned(&mut c.rng, &dir, b.kind, b.sem, m.parse().unwrap(), u);
    let max = if c.rng.chance(1, 8) { 150_000 } else { 9000 };
    let resp = response(&mut c.rng, m, max);
    let l = limits(&mut c.rng, resp.body.len() as u64);
    let mut steps = pieces(&mut c.rng, &resp.wire);
    if resp.framing == Framing::Close { steps.push(Step::Eof); }
    let con = Connector::new(&mut c.rng, vec![steps]);
    let hour = Some(Duration::from_secs(3600));
    let times = (if c.rng.chance(1, 2) { hour } else { None }, if c.rng.chance(1, 2) { hour } else { None });
    let tune = futio(&mut c.rng, &l, &td, b.policy.clone(), times);
    let announced = resp.headers.iter().find(|h| h.0 == "content-length").map(|h| String::from_utf8_lossy(&h.1[0]).parse::<u64>().unwrap());
    c.step(format!("{} {:?} sink {:?} {}, {:?} {} {} of {} bytes (announced {:?}), limits {} {}", m, b.kind, b.sink, if b.current { "current" } else { "multi" }, resp.version, resp.status,
        format!("{:?}", resp.framing), resp.body.len(), announced, l.ram, l.max));
    let builder = p.builder();
    let body = p.take();
    let (t, o) = match wire::run(b.kind, builder, body, &mut c.rng, Some((&b.rt, tune, &con, false)))? { Ok(x) => x, Err(e) => return violation(format!("request refused: {}", e)) };
    recording(&p, &t)?;
    {
        let s = con.0.lock().unwrap();
        if let Some(b) = &s.bad { return violation(format!("not a request: {}", b)); }
        ensure!(s.requests.len() == 1, "{} requests arrived", s.requests.len());
        arrived(&p, &s.requests[0])?;
    }
    let n = resp.body.len() as u64;
    match o.unwrap() {
        Ok(d) => {
            whole(&d, &t, &resp, &l)?;
            c.count("dialogs compared", 1);
            if !d.res_body().is_ram() { c.count("bodies in files", 1); }
        }
        Err(e) => {
            ensure!(n > l.max, "request failed: {}: {}", e, c.trace[0]);
            match (&e, resp.framing) {
                (FutioError::ContentLengthTooLong(x), Framing::Length) => ensure!(*x == n, "too long by {} instead of {}", x, n),
                (FutioError::Body(BodyError::BodyTooLong(_)), Framing::Chunked) | (FutioError::Body(BodyError::BodyTooLong(_)), Framing::Close) => {}
                _ => return violation(format!("too long a body reported as {}", e)),
            }
            c.count("too long reported", 1);
        }
    }
    drop(b);
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.in_set_str("framings and policies", &format!("{:?}{:?}{}", resp.framing, p.kind, c.trace[0].contains("current")));
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// Connections lost, and responses that are none.
fn broken(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let td = tmp(c)?;
    let b = bed(c)?;
    let m = *c.rng.pick(&METHODS);
    let u = wire::url(&mut c.rng);
    let mut p = planned(&mut c.rng, &dir, b.kind, b.sem, m.parse().unwrap(), u);
    let resp = response(&mut c.rng, m, 9000);
    let l = Limits { ram: c.rng.below(9000), max: 1 << 24 };
    let mut w = resp.wire.clone();
    let how = c.rng.below(7);
    let what;
    let mut end = *c.rng.pick(&[0, 1]);
    match how {
        0 | 1 => {
            // Cut in the head.
            let at = resp.head_at + c.rng.usize(resp.body_at - resp.head_at);
            w.truncate(at);
            what = format!("cut in the head at {} of {}", at, resp.body_at);
        }
        2 | 3 => {
            if resp.body_at == w.len() { return Ok(()); }
            let at = if c.rng.chance(1, 4) { w.len() - 1 - c.rng.usize((w.len() - resp.body_at).min(4)) } else { resp.body_at + c.rng.usize(w.len() - resp.body_at) };
            w.truncate(at);
            // The end of the connection is the end of the body.
            if resp.framing == Framing::Close { end = 1; }
            what = format!("cut in the body at {} of {}", at - resp.body_at, resp.wire.len() - resp.body_at);
        }
        4 => {
            let s: &[u8] = *c.rng.pick(&[&b"HTTQ/1.1 200 OK\r\n\r\n"[..], b"HTTP/1.1 2x0 OK\r\n\r\n", b"\x16\x03\x01\x02\x00\x01", b"HTTP/1.1 200 OK\r\nno colon here\r\n\r\n", b"HTTP/1.1 200 OK\r\nbad name: x\r\n\r\n", b"<html>no head</html>\r\n\r\n"]);
            w = s.to_vec();
            what = format!("malformed head {:?}", String::from_utf8_lossy(s));
        }
        _ => {
            if resp.framing != Framing::Chunked { return Ok(()); }
            let at = *c.rng.pick(&resp.sizes);
            w.truncate(at);
            let s: &[u8] = *c.rng.pick(&[&b"xyz\r\n"[..], b"-5\r\nabcde\r\n", b"3\r\nabcd\r\n0\r\n\r\n", b"1 2\r\nabc\r\n", b"4\nabcd\r\n"]);
            w.extend_from_slice(s);
            what = format!("malformed chunk {:?} at {}", String::from_utf8_lossy(s), at - resp.body_at);
        }
    }
    let mut steps = pieces(&mut c.rng, &w);
    steps.push(if end == 0 { Step::Eof } else { Step::Reset });
    let con = Connector::new(&mut c.rng, vec![steps]);
    let tune = futio(&mut c.rng, &l, &td, b.policy.clone(), (None, None));
    c.step(format!("{} {:?} sink {:?} {}, {:?} {}, {}", m, b.kind, b.sink, if b.current { "current" } else { "multi" }, resp.framing, what, if end == 0 { "closed" } else { "reset" }));
    let builder = p.builder();
    let body = p.take();
    let (_, o) = match wire::run(b.kind, builder, body, &mut c.rng, Some((&b.rt, tune, &con, false)))? { Ok(x) => x, Err(e) => return violation(format!("request refused: {}", e)) };
    match o.unwrap() {
        Ok(d) => return violation(format!("a dialog with a body of {} bytes of {} from a broken exchange: {}", d.res_body().len(), resp.body.len(), c.trace[0])),
        Err(FutioError::Hyper(_)) => c.count("failures reported", 1),
        Err(e) => return violation(format!("a broken exchange reported as {}: {}", e, c.trace[0])),
    }
    drop(b);
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.in_set_str("kinds of failure", &format!("{}{}{:?}", how, end, resp.framing));
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// Servers that pause, on a clock that moves only when everything waits.
fn slow(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let td = tmp(c)?;
    let kind = *c.rng.pick(&[Kind::Hyper, Kind::Direct, Kind::DirectUni]);
    let sem = flow::semaphore(1);
    let rt = wire::runtime(&mut c.rng, true, None)?;
    let m = *c.rng.pick(&["GET", "POST", "PUT"]);
    let u = wire::url(&mut c.rng);
    let mut p = planned(&mut c.rng, &dir, kind, sem, m.parse().unwrap(), u);
    let mut resp = response(&mut c.rng, m, 9000);
    let in_body = c.rng.chance(2, 3);
    while in_body && resp.body.is_empty() { resp = response(&mut c.rng, m, 9000); }
    let l = Limits { ram: c.rng.below(9000), max: 1 << 24 };
    let tr = Duration::from_millis(100 + c.rng.below(5000));
    let tb = tr + Duration::from_millis(c.rng.below(5000));
    let set_r = !in_body || c.rng.chance(1, 2);
    // The last byte of the body comes after the pauses.
    let (a, z) = if in_body { (resp.body_at, resp.wire.len() - 1) } else { (0, resp.body_at - 1) };
    let cut = a + c.rng.usize(z - a + 1);
    let limit = if in_body { tb } else { tr };
    let mode = c.rng.below(4);
    let mut steps = pieces(&mut c.rng, &resp.wire[..cut]);
    let n = 1 + c.rng.below(4) as u32;
    let what = match mode {
        0 => { steps.push(Step::Stall); "stalls".to_string() }
        1 => { for _ in 0..n { steps.push(Step::Sleep(limit * 2 / n + Duration::from_millis(5))); } format!("pauses {} times, too long", n) }
        2 => { for _ in 0..n { steps.push(Step::Sleep(limit / 2 / n)); } format!("pauses {} times, short enough", n) }
        // No limit where the pauses are: minutes, or hours, are all the same.
        _ => { let d = *c.rng.pick(&[limit * 3, Duration::from_secs(100), Duration::from_secs(10_000)]); for _ in 0..n { steps.push(Step::Sleep(d / n)); } format!("pauses {} times without a limit", n) }
    };
    let tail = pieces(&mut c.rng, &resp.wire[cut..]);
    steps.extend(tail);
    if resp.framing == Framing::Close { steps.push(Step::Eof); }
    let con = Connector::new(&mut c.rng, vec![steps]);
    let tune = futio(&mut c.rng, &l, &td, BlockingPolicy::Direct, (if set_r && (in_body || mode != 3) { Some(tr) } else { None }, if in_body && mode == 3 { None } else { Some(tb) }));
    c.step(format!("{} {:?}, {:?} of {} bytes, {} in the {} at {}; limits {:?} {:?}", m, kind, resp.framing, resp.body.len(), what, if in_body { "body" } else { "head" }, cut, if set_r { Some(tr) } else { None }, tb));
    let builder = p.builder();
    let body = p.take();
    let (t, o) = match wire::run(kind, builder, body, &mut c.rng, Some((&rt, tune, &con, true)))? { Ok(x) => x, Err(e) => return violation(format!("request refused: {}", e)) };
    match (mode, o.unwrap()) {
        (2, Ok(d)) | (3, Ok(d)) => { whole(&d, &t, &resp, &l)?; c.count(if mode == 2 { "slow dialogs compared" } else { "unlimited dialogs compared" }, 1); }
        (2, Err(e)) | (3, Err(e)) => return violation(format!("failed within its limits: {}: {}", e, c.trace[0])),
        (_, Ok(_)) => return violation(format!("a dialog although the limit was exceeded: {}", c.trace[0])),
        (_, Err(FutioError::ResponseTimeout(x))) => { ensure!(!in_body && x == tr, "response timeout of {:?}: {}", x, c.trace[0]); c.count("response timeouts", 1); }
        (_, Err(FutioError::BodyTimeout(x))) => { ensure!(in_body && x == tb, "body timeout of {:?}: {}", x, c.trace[0]); c.count("body timeouts", 1); }
        (_, Err(e)) => return violation(format!("a timeout reported as {}: {}", e, c.trace[0])),
    }
    drop(rt);
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// Several exchanges at once and one after another, on one client each.
fn many(c: &mut Case<'_>) -> CaseResult {
    let td = tmp(c)?;
    let sem = flow::semaphore(1 + c.rng.usize(2));
    let (pool, _) = open_pool(&mut c.rng);
    let rt = match wire::runtime(&mut c.rng, false, Some(pool))? { Rt::Multi(rt) => rt, Rt::Current(rt) => rt };
    let (n, per) = (2 + c.rng.usize(4), 1 + c.rng.usize(3));
    let mut tasks = Vec::new();
    let mut desc = Vec::new();
    for _ in 0..n {
        let mut plan = Vec::new();
        let mut wires = Vec::new();
        for _ in 0..per {
            let m = *c.rng.pick(&["GET", "POST", "HEAD"]);
            let resp = loop { let x = response(&mut c.rng, m, 20_000); if x.framing != Framing::Close || per == 1 { break x; } };
            let mut s = pieces(&mut c.rng, &resp.wire);
            if resp.framing == Framing::Close { s.push(Step::Eof); }
            wires.push(s);
            let l = limits(&mut c.rng, resp.body.len() as u64);
            let l = Limits { ram: l.ram, max: l.ram.max(1 << 24) };
            let k = *c.rng.pick(&SINKS);
            let tune = futio(&mut c.rng, &l, &td, flow::sink_policy(k, sem), (None, None));
            let data = body_data(&mut c.rng, 3000);
            desc.push(format!("{:?} {:?} {}", k, resp.framing, resp.body.len()));
            plan.push((m, data, resp, l, tune));
        }
        let con = Connector::new(&mut c.rng, wires);
        tasks.push(rt.spawn(async move {
            let client = hyper::Client::builder().build::<_, hyper::Body>(con.clone());
            let mut bad: Option<String> = None;
            for (i, (m, data, resp, l, tune)) in plan.into_iter().enumerate() {
                let b = http::Request::builder().method(m).uri(format!("http://h/{}", i)).header("n", i.to_string());
                let rr: RequestRecord<hyper::Body> = b.record_body(data.clone()).unwrap();
                let d = match request_dialog(&client, rr, tune).await { Ok(d) => d, Err(e) => { bad = Some(format!("request {} failed: {}", i, e)); break; } };
                let t = Taken { method: m.parse().unwrap(), url: format!("http://h/{}", i).parse().unwrap(), headers: vec![("n".into(), vec![i.to_string().into_bytes()])], body: data.clone(),
                    r_method: m.parse().unwrap(), r_url: "/".parse().unwrap(), r_headers: vec![], hint: (0, None) };
                if let Err(Stop::Violation(e)) = whole(&d, &t, &resp, &l) { bad = Some(format!("request {}: {}", i, e)); break; }
                let s = con.0.lock().unwrap();
                if s.requests.len() != i + 1 || s.requests[i].body != data || s.requests[i].target != format!("/{}", i) { bad = Some(format!("request {} arrived as something else", i)); break; }
            }
            let connects = con.0.lock().unwrap().connects;
            (bad, connects)
        }));
    }
    c.step(format!("{} clients with {} exchanges each: {:?}", n, per, desc));
    let (mut conns, want) = (0, n * per);
    for t in tasks {
        match rt.block_on(t) {
            Ok((None, k)) => conns += k,
            Ok((Some(b), _)) => return violation(format!("{}; {}", b, c.trace[0])),
            Err(e) => return violation(format!("request task: {}", e)),
        }
    }
    drop(rt);
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.count("concurrent dialogs compared", want as u64);
    c.count("exchanges on a reused connection", (want - conns.min(want)) as u64);
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

// ---- over the loopback interface -----------------------------------------

/// Answer one request with the wire bytes in pieces, then close.
pub fn serve(l: TcpListener, parts: Vec<Vec<u8>>) -> std::thread::JoinHandle<Result<Request, String>> {
    std::thread::spawn(move || {
        let (mut s, _): (TcpStream, _) = l.accept().map_err(|e| e.to_string())?;
        s.set_nodelay(true).ok();
        let mut b = Vec::new();
        let mut buf = [0; 8192];
        let q = loop {
            match request(&b)? { Some((q, _)) => break q, None => {} }
            match s.read(&mut buf) { Ok(0) => return Err("connection closed before the request was whole".into()), Ok(n) => b.extend_from_slice(&buf[..n]), Err(e) => return Err(e.to_string()) }
        };
        for p in parts { if s.write_all(&p).is_err() { break; } std::thread::yield_now(); }
        s.shutdown(std::net::Shutdown::Write).ok();
        // Until the client is done with it.
        while let Ok(n) = s.read(&mut buf) { if n == 0 { break; } }
        Ok(q)
    })
}

pub fn parts(r: &mut Rng, w: &[u8]) -> Vec<Vec<u8>> { pieces(r, w).into_iter().filter_map(|s| match s { Step::Data(d) => Some(d), _ => None }).collect() }

pub fn external<T>(f: impl FnOnce() -> T) -> T {
    use std::sync::atomic::Ordering::SeqCst;
    crate::watchdog::EXTERNAL.store(true, SeqCst);
    let r = f();
    crate::watchdog::EXTERNAL.store(false, SeqCst);
    r
}

fn fetched(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let td = tmp(c)?;
    let ls = TcpListener::bind("127.0.0.1:0")?;
    let port = ls.local_addr()?.port();
    let m = *c.rng.pick(&METHODS);
    let sem = flow::semaphore(1 + c.rng.usize(2));
    let mut p = planned(&mut c.rng, &dir, Kind::Hyper, sem, m.parse().unwrap(), (format!("http://127.0.0.1:{}/x?y", port), "/x?y".into()));
    let resp = response(&mut c.rng, m, 60_000);
    let cut = c.rng.chance(1, 4) && resp.framing != Framing::Close && resp.wire.len() > resp.body_at;
    let w = if cut { &resp.wire[..resp.body_at + c.rng.usize(resp.wire.len() - resp.body_at)] } else { &resp.wire[..] };
    let ps = parts(&mut c.rng, w);
    let l = limits(&mut c.rng, resp.body.len() as u64);
    let policy = if c.rng.chance(1, 2) { BlockingPolicy::Permit(sem) } else { BlockingPolicy::Direct };
    let hour = Some(Duration::from_secs(3600));
    let timeouts = *c.rng.pick(&[(None, hour), (hour, hour), (hour, None), (None, None)]);
    let tune = futio(&mut c.rng, &l, &td, policy, timeouts);
    c.step(format!("fetch {} {:?} {} of {} bytes, limits {} {}{}, timeouts {:?}", m, resp.framing, resp.status, resp.body.len(), l.ram, l.max, if cut { ", cut" } else { "" }, timeouts));
    let (b, body) = (p.builder(), p.take());
    let rr: RequestRecord<hyper::Body> = match body { Body::None => b.record(), Body::Ram(v) => b.record_body(v), Body::Image(i, t) => b.record_body_image(i, t) }.map_err(|e| Stop::Violation(e.to_string()))?;
    let (o, q) = external(|| { let h = serve(ls, ps); let o = no_panic(|| fetch(rr, tune)); if o.is_err() { let _ = std::net::TcpStream::connect(("127.0.0.1", port)); } (o, h.join().unwrap()) });
    let o = o.map_err(|p| Stop::Violation(format!("{}: {}", p.show(), c.trace[0])))?;
    let q = q.map_err(|e| Stop::Violation(format!("request did not arrive: {}", e)))?;
    arrived(&p, &q)?;
    let n = resp.body.len() as u64;
    match o {
        Ok(d) => {
            ensure!(!cut, "a dialog from a cut response: {}", c.trace[0]);
            let t = Taken { method: p.method.clone(), url: p.url.parse().unwrap(), headers: canon(&p.headers), body: p.data.clone(), r_method: p.method.clone(), r_url: "/".parse().unwrap(), r_headers: vec![], hint: (0, None) };
            whole(&d, &t, &resp, &l)?;
            c.count("fetched dialogs compared", 1);
        }
        Err(e) => { ensure!(cut || n > l.max, "fetch failed: {}: {}", e, c.trace[0]); c.count("fetch failures reported", 1); }
    }
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// A server that stops in the head or in the body and keeps the connection.
fn fetched_late(c: &mut Case<'_>) -> CaseResult {
    let td = tmp(c)?;
    let ls = TcpListener::bind("127.0.0.1:0")?;
    let port = ls.local_addr()?.port();
    let in_body = c.rng.chance(1, 2);
    let resp = loop { let x = response(&mut c.rng, "GET", 5000); if !x.body.is_empty() { break x; } };
    let (a, z) = if in_body { (resp.body_at, resp.wire.len() - 1) } else { (0, resp.body_at - 1) };
    let cut = a + c.rng.usize(z - a + 1);
    let w = resp.wire[..cut].to_vec();
    let l = Limits { ram: c.rng.below(9000), max: 1 << 24 };
    let t = Duration::from_millis(20 + c.rng.below(60));
    // The one for the head can't be longer than the one for the body.
    let other = if in_body || c.rng.chance(1, 2) { None } else { Some(Duration::from_secs(3600)) };
    let tune = futio(&mut c.rng, &l, &td, BlockingPolicy::Direct, if in_body { (other, Some(t)) } else { (Some(t), other) });
    c.step(format!("fetch, stops at {} in the {}, limit {:?}, the other {:?}", cut, if in_body { "body" } else { "head" }, t, other));
    let rr: RequestRecord<hyper::Body> = http::Request::builder().uri(format!("http://127.0.0.1:{}/", port)).record().map_err(|e| Stop::Violation(e.to_string()))?;
    let o = external(|| {
        let h = std::thread::spawn(move || {
            if let Ok((mut s, _)) = ls.accept() {
                let mut buf = [0; 8192];
                let mut b = Vec::new();
                while !b.ends_with(b"\r\n\r\n") { match s.read(&mut buf) { Ok(n) if n > 0 => b.extend_from_slice(&buf[..n]), _ => return } }
                let _ = s.write_all(&w);
                while let Ok(n) = s.read(&mut buf) { if n == 0 { break; } }
            }
        });
        let o = no_panic(|| fetch(rr, tune));
        // In case it never got as far as connecting.
        let _ = TcpStream::connect(("127.0.0.1", port));
        h.join().unwrap();
        o
    });
    match o.map_err(|p| Stop::Violation(format!("{}: {}", p.show(), c.trace[0])))? {
        Ok(_) => return violation(format!("a dialog although the limit was exceeded: {}", c.trace[0])),
        Err(FutioError::ResponseTimeout(x)) => ensure!(!in_body && x == t, "response timeout of {:?}: {}", x, c.trace[0]),
        Err(FutioError::BodyTimeout(x)) => ensure!(in_body && x == t, "body timeout of {:?}: {}", x, c.trace[0]),
        Err(e) => return violation(format!("a timeout reported as {}: {}", e, c.trace[0])),
    }
    c.count("fetches timed out", 1);
    { let n = files(&td); ensure!(n == 0, "{} temporary files left", n); }
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

/// The record command.
fn recorded(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let ls = TcpListener::bind("127.0.0.1:0")?;
    let port = ls.local_addr()?.port();
    let mut resp = loop { let x = response(&mut c.rng, "GET", 30_000); if x.framing != Framing::NoBody || c.rng.chance(1, 3) { break x; } };
    // Some are encoded.
    let enc = *c.rng.pick(&[None, None, Some((Encoding::Gzip, "gzip")), Some((Encoding::Deflate, "deflate")), Some((Encoding::Brotli, "br")), Some((Encoding::Compress, "compress"))]);
    let plain = resp.body.clone();
    let (mut decoded, mut encoded) = (false, None);
    if let (Some((e, name)), true, false) = (enc, resp.framing != Framing::NoBody, plain.is_empty()) {
        let data = if e == Encoding::Compress { plain.clone() } else { super::c03::compress(e, 4, &plain) };
        resp.headers.retain(|h| h.0 != "content-encoding" && h.0 != "content-length");
        resp.headers.push(("content-encoding".into(), vec![name.as_bytes().to_vec()]));
        resp.framing = Framing::Length;
        resp.headers.retain(|h| h.0 != "transfer-encoding" && h.0 != "connection");
        resp.headers.push(("content-length".into(), vec![data.len().to_string().into_bytes()]));
        resp.headers.sort();
        resp.version = http::Version::HTTP_11;
        let mut w = format!("HTTP/1.1 {} x\r\n", resp.status).into_bytes();
        for (n, vs) in &resp.headers { for v in vs { w.extend_from_slice(n.as_bytes()); w.extend_from_slice(b": "); w.extend_from_slice(v); w.extend_from_slice(b"\r\n"); } }
        w.extend_from_slice(b"\r\n");
        resp.body_at = w.len();
        w.extend_from_slice(&data);
        resp.wire = w;
        resp.body = data;
        encoded = Some(e);
    }
    let no_decode = c.rng.chance(1, 3);
    let unsupported = encoded == Some(Encoding::Compress) && !no_decode;
    if let (Some(e), false, false) = (encoded, no_decode, unsupported) { decoded = true; let _ = e; }
    let cut = c.rng.chance(1, 5) && resp.framing != Framing::Close && resp.wire.len() > resp.body_at;
    let w = if cut { resp.wire[..resp.body_at + c.rng.usize(resp.wire.len() - resp.body_at)].to_vec() } else { resp.wire.clone() };
    let ps = parts(&mut c.rng, &w);
    let out = dir.join("out.barc");
    let old = if c.rng.chance(1, 2) { let m = cli::model(&mut c.rng, 500); encode(&mut c.rng, &m, Alg::Plain) } else { Vec::new() };
    if !old.is_empty() { std::fs::write(&out, &old)?; }
    let url = format!("http://127.0.0.1:{}/p?q", port);
    let accept = if c.rng.chance(1, 2) { Some("text/x-test;q=0.5") } else { None };
    let mut a: Vec<String> = vec!["record".into()];
    let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
    match alg { Alg::Plain => (), Alg::Gzip => a.push("-z".into()), Alg::Brotli => a.push("--brotli".into()) }
    if no_decode { a.push("--no-decode".into()); }
    if let Some(x) = accept { a.push("--accept".into()); a.push(x.into()); }
    a.push(url.clone());
    a.push("out.barc".into());
    c.step(format!("record {:?} {} of {} bytes, encoded {:?}, no-decode {}, {:?}{}", resp.framing, resp.status, resp.body.len(), encoded, no_decode, alg, if cut { ", cut" } else { "" }));
    let h = serve(ls, ps);
    let r = cli::call(&dir, &a, cli::LIMITS)?;
    let q = external(|| { if !h.is_finished() { TcpStream::connect(("127.0.0.1", port)).ok(); } h.join().unwrap() });
    let err = String::from_utf8_lossy(&r.err).into_owned();
    if err.contains("Timeout before") { return Err(Stop::Harness("the loopback exchange took a minute".into())); }
    let q = q.map_err(|e| Stop::Violation(format!("request did not arrive: {}; {}", e, r.show())))?;
    ensure!(q.method == "GET" && q.target == "/p?q" && q.body.is_empty(), "request was {} {}", q.method, q.target);
    let img = std::fs::read(&out).unwrap_or_default();
    ensure!(img.starts_with(&old), "existing records changed: {}", c.trace[0]);
    if cut || unsupported {
        ensure!(!r.ok(), "exit 0: {}", c.trace[0]);
        ensure!(img == old, "a record was written for a failed exchange: {}", c.trace[0]);
        c.count("failed recordings reported", 1);
    } else {
        ensure!(r.ok(), "{}: {}", r.show(), c.trace[0]);
        let got = decode_at(&img, old.len() as u64).map_err(Stop::Violation)?.ok_or_else(|| Stop::Violation("no record written".into()))?;
        ensure!(got.end == img.len() as u64, "more than one record written");
        let m = &got.model;
        ensure!(m.res_h == resp.headers, "response headers in the archive differ");
        let want = if decoded { &plain } else { &resp.body };
        ensure!(&m.res_b == want, "response body in the archive: {}: {}", diff(&m.res_b, want), c.trace[0]);
        ensure!(m.req_b.is_empty(), "a request body in the archive");
        for (n, vs) in &m.req_h {
            let sent: Vec<Vec<u8>> = q.headers.iter().filter(|h| &h.0 == n).map(|h| h.1.clone()).collect();
            ensure!(&sent == vs, "request header {} in the archive differs from the one sent", n);
        }
        if let Some(x) = accept { ensure!(m.req_h.iter().any(|h| h.0 == "accept" && h.1 == [x.as_bytes()]), "accept header not as asked for"); }
        let get = |n: &str| m.meta.iter().find(|h| h.0 == n).map(|h| String::from_utf8_lossy(&h.1[0]).into_owned());
        ensure!(get("url").as_deref() == Some(&url[..]), "url {:?} in the archive", get("url"));
        ensure!(get("method").as_deref() == Some("GET"), "method {:?} in the archive", get("method"));
        ensure!(get("response-status").map_or(false, |s| s.starts_with(&resp.status.to_string())), "status {:?} in the archive instead of {}", get("response-status"), resp.status);
        c.count("recordings compared", 1);
        if decoded { c.count("recordings decoded", 1); }
    }
    ensure!(cli::left_over(&dir)? == 0, "temporary files left behind");
    c.distinct(hash_bytes(c.trace[0].as_bytes()));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 15_000);
    x.run("good", n, good);
    let n = x.tier(1200, 12_000);
    x.run("broken", n, broken);
    let n = x.tier(600, 6000);
    x.run("slow", n, slow);
    let n = x.tier(100, 1000);
    x.run("many", n, many);
    let n = x.tier(120, 800);
    x.run("fetch", n, fetched);
    let n = x.tier(20, 100);
    x.run("fetch-late", n, fetched_late);
    x.require("fetches timed out", 15);
    let n = x.tier(100, 700);
    x.run("record", n, recorded);
    x.require("dialogs compared", 600);
    x.require("bodies in files", 100);
    x.require("too long reported", 50);
    x.require("failures reported", 400);
    x.require("response timeouts", 50);
    x.require("body timeouts", 100);
    x.require("unlimited dialogs compared", 50);
    x.require("slow dialogs compared", 80);
    x.require("concurrent dialogs compared", 200);
    x.require("exchanges on a reused connection", 20);
    x.require("fetched dialogs compared", 40);
    x.require("recordings compared", 30);
    x.require("recordings decoded", 5);
    x.require("failed recordings reported", 5);
}
