//! C28: what is recorded of a request is what is sent.
use body_image::{RequestRecorded, Tuner};
use body_image_futio::*;

use crate::archive::*;
use crate::ctx::*;
use crate::flow::{self, open_pool};
use crate::gen::{self, canon};
use crate::rng::Rng;
use crate::wire::{self, *};

/// Tunables for streaming a request body of the kind.
pub fn body_tune(r: &mut Rng, k: Kind, dir: &std::path::Path, sem: &'static blocking_permit::Semaphore) -> FutioTunables {
    let mut t = Tuner::new();
    t.set_buffer_size_fs(gen::buf_size(r)).set_buffer_size_ram(gen::buf_size(r)).set_temp_dir(dir);
    let p = if k.permit() { BlockingPolicy::Permit(sem) } else if k.dispatch() { BlockingPolicy::Dispatch } else { BlockingPolicy::Direct };
    flow::futio(t.finish(), Some(p), gen::buf_size(r))
}

pub struct Planned { pub method: http::Method, pub url: String, pub target: String, pub headers: http::HeaderMap, pub body: Body, pub data: Vec<u8>, pub kind: Kind, pub how: String }

impl Planned {
    pub fn builder(&self) -> http::request::Builder {
        let mut b = http::Request::builder().method(self.method.clone()).uri(self.url.as_str());
        for (n, v) in &self.headers { b = b.header(n.clone(), v.clone()); }
        b
    }
    pub fn take(&mut self) -> Body { std::mem::replace(&mut self.body, Body::None) }
}

pub fn planned(r: &mut Rng, dir: &std::path::Path, kind: Kind, sem: &'static blocking_permit::Semaphore, method: http::Method, url: (String, String)) -> Planned {
    let mut headers = if r.chance(1, 4) { http::HeaderMap::new() } else { gen::headers(r) };
    for n in ["content-length", "transfer-encoding", "connection", "expect", "upgrade", "te"] { headers.remove(n); }
    let data = if r.chance(1, 5) { Vec::new() } else { body_data(r, 60_000) };
    let (body, how) = match r.below(4) {
        0 => (Body::None, "none".to_string()),
        1 => (Body::Ram(data.clone()), "ram".to_string()),
        _ => { let st = *r.pick(&gen::STATES); let t = body_tune(r, kind, dir, sem); (Body::Image(gen::body(r, st, &data, dir), t), format!("{:?}", st)) }
    };
    let data = if matches!(body, Body::None) { Vec::new() } else { data };
    Planned { method, url: url.0, target: url.1, headers, body, data, kind, how }
}

/// The recording against what was asked for and the request next to it.
pub fn recording(p: &Planned, t: &Taken) -> CaseResult {
    ensure!(t.method == p.method && t.r_method == p.method, "method {} recorded, {} in the request, {} asked for", t.method, t.r_method, p.method);
    let u: http::Uri = p.url.parse().unwrap();
    ensure!(t.url == u && t.r_url == u, "url {} recorded, {} in the request, {} asked for", t.url, t.r_url, u);
    ensure!(t.headers == canon(&p.headers), "recorded headers differ from those asked for");
    ensure!(t.headers == t.r_headers, "recorded headers differ from those of the request");
    ensure!(t.body == p.data, "recorded body ({}): {}", p.how, diff(&t.body, &p.data));
    let n = p.data.len() as u64;
    ensure!(t.hint.0 <= n && t.hint.1.map_or(true, |u| u >= n), "request announces {:?} bytes, {} recorded", t.hint, n);
    Ok(())
}

/// Hyper itself sends no body of unknown length with these methods.
pub fn body_withheld(p: &Planned) -> bool { p.kind == Kind::Hyper && (p.method == http::Method::GET || p.method == http::Method::HEAD) }

/// What arrived at the other end.
pub fn arrived(p: &Planned, q: &Request) -> CaseResult {
    ensure!(q.method == p.method.as_str(), "method {} sent, {} recorded", q.method, p.method);
    ensure!(q.target == p.target, "target {} sent for {}", q.target, p.url);
    for (n, vs) in canon(&p.headers) {
        let got: Vec<Vec<u8>> = q.headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect();
        ensure!(got == vs, "header {} sent {} times, recorded {} times, or different", n, got.len(), vs.len());
    }
    for (n, _) in &q.headers { ensure!(p.headers.contains_key(n.as_str()) || ["host", "content-length", "transfer-encoding"].contains(&n.as_str()), "header {} sent but not recorded", n); }
    if !(body_withheld(p) && q.body.is_empty()) { ensure!(q.body == p.data, "body sent ({}, {:?}, {}): {}", p.how, p.kind, q.framing, diff(&q.body, &p.data)); }
    Ok(())
}

fn sent(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let kind = *c.rng.pick(&KINDS);
    let current = !kind.permit() && c.rng.chance(1, 2);
    let sem = flow::semaphore(1 + c.rng.usize(3));
    let (pool, _) = open_pool(&mut c.rng);
    let _reg = flow::register(pool.clone());
    let rt = wire::runtime(&mut c.rng, current, Some(pool))?;
    let m = http::Method::from_bytes(c.rng.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "M-SEARCH"]).as_bytes()).unwrap();
    let u = wire::url(&mut c.rng);
    let mut p = planned(&mut c.rng, &dir, kind, sem, m, u);
    let again = match &p.body { Body::Image(b, _) => Some(b.clone()), _ => None };
    let fail = c.rng.chance(1, 8);
    let steps = if fail { vec![Step::Reset] } else { vec![Step::Data(b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n".to_vec())] };
    let con = Connector::new(&mut c.rng, vec![steps]);
    let tune = flow::futio(Tuner::new().finish(), Some(BlockingPolicy::Direct), 4096);
    c.step(format!("{} {} {:?} body {} of {} bytes, {} headers{}", p.method, p.url, kind, p.how, p.data.len(), p.headers.len(), if fail { ", connection lost" } else { "" }));
    let b = p.builder();
    let body = p.take();
    let (t, o) = match wire::run(kind, b, body, &mut c.rng, Some((&rt, tune, &con, false)))? { Ok(x) => x, Err(e) => return violation(format!("request refused: {}", e)) };
    recording(&p, &t)?;
    let s = con.0.lock().unwrap();
    if let Some(b) = &s.bad { return violation(format!("not a request: {}", b)); }
    ensure!(s.requests.len() == 1, "{} requests arrived", s.requests.len());
    arrived(&p, &s.requests[0])?;
    match o.unwrap() {
        Ok(d) => {
            ensure!(!fail, "a dialog from a lost connection");
            ensure!(d.method() == &p.method && d.url().to_string() == t.url.to_string() && canon(d.req_headers()) == t.headers, "the dialog's request differs from the recording");
            let left = gen::read_all(d.req_body()).map_err(|e| Stop::Violation(format!("recorded body unreadable after sending: {}", e)))?;
            ensure!(left == p.data, "recorded body after sending ({}): {}", p.how, diff(&left, &p.data));
            c.count("dialogs compared", 1);
        }
        Err(e) => ensure!(fail, "request failed: {}", e),
    }
    if let Some(b) = again {
        let left = gen::read_all(&b).map_err(|e| Stop::Violation(format!("body unreadable after sending: {}", e)))?;
        ensure!(left == p.data, "body after sending ({}): {}", p.how, diff(&left, &p.data));
    }
    c.count("requests sent", 1);
    c.count("body bytes sent", s.requests[0].body.len() as u64);
    if body_withheld(&p) && s.requests[0].body.is_empty() && !p.data.is_empty() { c.count("bodies withheld by the client library", 1); }
    c.in_set_str("kinds and states", &format!("{:?}{}", kind, p.how));
    c.in_set_str("framings", s.requests[0].framing);
    c.distinct_str(&c.trace[0].clone());
    Ok(())
}

/// Built but not sent, with any method and URL.
fn built(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let kind = *c.rng.pick(&KINDS);
    let sem = flow::semaphore(1);
    let m = super::c14::method(&mut c.rng);
    let u = super::c14::url(&mut c.rng).to_string();
    let mut p = planned(&mut c.rng, &dir, kind, sem, m, (u, String::new()));
    let bad = c.rng.chance(1, 10);
    let mut b = p.builder();
    if bad { b = match c.rng.below(3) { 0 => b.header("bad name", "x"), 1 => b.header("x", "line\nend"), _ => b.uri("http://bad host/") }; }
    let body = p.take();
    c.step(format!("{} {} {:?} body {} of {} bytes{}", p.method, p.url, kind, p.how, p.data.len(), if bad { ", malformed" } else { "" }));
    match wire::run(kind, b, body, &mut c.rng, None)? {
        Ok((t, _)) => { ensure!(!bad, "a malformed request was recorded"); recording(&p, &t)?; c.count("recordings compared", 1); }
        Err(e) => { ensure!(bad, "request refused: {}", e); c.count("malformed requests refused", 1); }
    }
    c.distinct_str(&c.trace[0].clone());
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 15_000);
    x.run("sent", n, sent);
    let n = x.tier(1500, 15_000);
    x.run("built", n, built);
    x.require("requests sent", 500);
    x.require("dialogs compared", 400);
    x.require("body bytes sent", 1_000_000);
    x.require("distinct kinds and states", 60);
    x.require("distinct framings", 3);
    x.require("recordings compared", 500);
    x.require("malformed requests refused", 50);
}
