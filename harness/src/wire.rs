//! HTTP over a scripted transport: what the client writes is parsed here, and
//! what it reads comes in scripted pieces, without sockets or threads.
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use body_image::{BodyImage, Dialog, RequestRecorded};
use body_image_futio::*;
use bytes::Bytes;
use hyper::client::connect::{Connected, Connection};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::archive::*;
use crate::ctx::*;
use crate::gen::{self, canon};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Step { Data(Vec<u8>), Yield, Sleep(Duration), Stall, Eof, Reset }

#[derive(Clone, Debug, Default)]
pub struct Request { pub method: String, pub target: String, pub version: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Vec<u8>, pub framing: &'static str }

#[derive(Default)]
pub struct Shared { pub exchanges: VecDeque<Vec<Step>>, pub requests: Vec<Request>, pub connects: usize, pub bad: Option<String>, pub open: usize }

#[derive(Clone)]
pub struct Connector(pub Arc<Mutex<Shared>>, u64);

impl Connector {
    pub fn new(r: &mut Rng, exchanges: Vec<Vec<Step>>) -> Connector {
        Connector(Arc::new(Mutex::new(Shared { exchanges: exchanges.into(), ..Shared::default() })), r.next())
    }
}

impl hyper::service::Service<hyper::Uri> for Connector {
    type Response = Conn;
    type Error = io::Error;
    type Future = futures_util::future::Ready<io::Result<Conn>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn call(&mut self, _: hyper::Uri) -> Self::Future {
        let mut s = self.0.lock().unwrap();
        s.connects += 1;
        s.open += 1;
        futures_util::future::ready(Ok(Conn { sh: self.0.clone(), buf: Vec::new(), look_at: 0, steps: VecDeque::new(), serving: false, dead: false, reader: None, sleep: None, rng: Rng::new(self.1 ^ s.connects as u64) }))
    }
}

pub struct Conn { sh: Arc<Mutex<Shared>>, buf: Vec<u8>, look_at: usize, steps: VecDeque<Step>, serving: bool, dead: bool, reader: Option<Waker>, sleep: Option<Pin<Box<tokio::time::Sleep>>>, rng: Rng }

impl Drop for Conn { fn drop(&mut self) { self.sh.lock().unwrap().open -= 1; } }

impl Connection for Conn { fn connected(&self) -> Connected { Connected::new() } }

/// Parse one whole request from the front, giving it and its length.
pub fn request(b: &[u8]) -> Result<Option<(Request, usize)>, String> {
    let e = match b.windows(4).position(|w| w == b"\r\n\r\n") { Some(e) => e, None => return Ok(None) };
    let mut q = Request::default();
    for (i, l) in b[..e].split(|x| *x == b'\n').enumerate() {
        let l = if i + 1 == b[..e].split(|x| *x == b'\n').count() { l } else { l.strip_suffix(b"\r").ok_or("request line without carriage return")? };
        if i == 0 {
            let s = String::from_utf8_lossy(l).into_owned();
            let v: Vec<&str> = s.split(' ').collect();
            if v.len() != 3 { return Err(format!("request line {:?}", s)); }
            q.method = v[0].into();
            q.target = v[1].into();
            q.version = v[2].into();
        } else {
            let k = l.iter().position(|x| *x == b':').ok_or_else(|| format!("header line {:?}", String::from_utf8_lossy(l)))?;
            let v = &l[k + 1..];
            let v = v.strip_prefix(b" ").unwrap_or(v);
            q.headers.push((String::from_utf8_lossy(&l[..k]).to_ascii_lowercase(), v.to_vec()));
        }
    }
    let mut at = e + 4;
    let get = |n: &str| q.headers.iter().find(|h| h.0 == n).map(|h| String::from_utf8_lossy(&h.1).into_owned());
    if let Some(te) = get("transfer-encoding") {
        if !te.to_ascii_lowercase().ends_with("chunked") { return Err(format!("transfer-encoding {}", te)); }
        q.framing = "chunked";
        loop {
            let k = match b[at..].windows(2).position(|w| w == b"\r\n") { Some(k) => k, None => return Ok(None) };
            let s = String::from_utf8_lossy(&b[at..at + k]).into_owned();
            let n = usize::from_str_radix(s.trim(), 16).map_err(|_| format!("chunk size {:?}", s))?;
            at += k + 2;
            if b.len() < at + n + 2 { return Ok(None); }
            if &b[at + n..at + n + 2] != b"\r\n" { return Err("chunk not ended".into()); }
            q.body.extend_from_slice(&b[at..at + n]);
            at += n + 2;
            if n == 0 { break; }
        }
    } else if let Some(cl) = get("content-length") {
        q.framing = "content-length";
        let n: usize = cl.parse().map_err(|_| format!("content-length {:?}", cl))?;
        if b.len() < at + n { return Ok(None); }
        q.body = b[at..at + n].to_vec();
        at += n;
    } else { q.framing = "none"; }
    Ok(Some((q, at)))
}

/// The length at which another look at an incomplete request is due.
fn wanted(b: &[u8]) -> usize {
    let e = match b.windows(4).position(|w| w == b"\r\n\r\n") { Some(e) => e, None => return 0 };
    let head = String::from_utf8_lossy(&b[..e]).to_ascii_lowercase();
    match head.split("\r\n").find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse::<usize>().ok()) { Some(n) => n + e + 4, None => b.len() * 2 }
}

impl AsyncWrite for Conn {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if b.is_empty() { return Poll::Ready(Ok(0)); }
        if self.rng.chance(1, 6) { cx.waker().wake_by_ref(); return Poll::Pending; }
        let n = if self.rng.chance(1, 3) { 1 + self.rng.usize(b.len()) } else { b.len() };
        self.buf.extend_from_slice(&b[..n]);
        // Not parsed again for every byte.
        if !self.serving && (self.buf.len() >= self.look_at || self.buf.ends_with(b"\r\n\r\n")) {
            match request(&self.buf) {
                Ok(None) => self.look_at = wanted(&self.buf),
                Ok(Some((q, used))) => {
                    self.buf.drain(..used);
                    self.look_at = 0;
                    let next = { let mut s = self.sh.lock().unwrap(); s.requests.push(q); s.exchanges.pop_front() };
                    match next { Some(v) => { self.steps = v.into(); self.serving = true; } None => self.sh.lock().unwrap().bad = Some("more requests than planned".into()) }
                    if let Some(w) = self.reader.take() { w.wake(); }
                }
                Err(e) => self.sh.lock().unwrap().bad = Some(e),
            }
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}

impl AsyncRead for Conn {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.dead { return Poll::Ready(Ok(())); }
        if let Some(s) = &mut self.sleep {
            match s.as_mut().poll(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(()) => self.sleep = None }
        }
        loop {
            if !self.serving { self.reader = Some(cx.waker().clone()); return Poll::Pending; }
            match self.steps.pop_front() {
                None => { self.serving = false; }
                Some(Step::Data(mut d)) => {
                    if d.is_empty() { continue; }
                    let n = d.len().min(out.remaining());
                    out.put_slice(&d[..n]);
                    if n < d.len() { let rest = d.split_off(n); self.steps.push_front(Step::Data(rest)); }
                    return Poll::Ready(Ok(()));
                }
                Some(Step::Yield) => { cx.waker().wake_by_ref(); return Poll::Pending; }
                Some(Step::Sleep(d)) => {
                    let mut s = Box::pin(tokio::time::sleep(d));
                    if s.as_mut().poll(cx).is_pending() { self.sleep = Some(s); return Poll::Pending; }
                }
                Some(Step::Stall) => { self.steps.push_front(Step::Stall); self.reader = Some(cx.waker().clone()); return Poll::Pending; }
                Some(Step::Eof) => { self.dead = true; return Poll::Ready(Ok(())); }
                Some(Step::Reset) => { self.dead = true; return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())); }
            }
        }
    }
}

// ---- requests ------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Hyper, Direct, DirectUni, Permit, Dispatch, DispatchUni }
pub const KINDS: [Kind; 6] = [Kind::Hyper, Kind::Direct, Kind::DirectUni, Kind::Permit, Kind::Dispatch, Kind::DispatchUni];

impl Kind {
    pub fn permit(self) -> bool { self == Kind::Permit }
    pub fn dispatch(self) -> bool { matches!(self, Kind::Dispatch | Kind::DispatchUni) }
}

pub enum Body { None, Ram(Vec<u8>), Image(BodyImage, FutioTunables) }

impl Body {
    pub fn data(&self) -> io::Result<Vec<u8>> { Ok(match self { Body::None => Vec::new(), Body::Ram(v) => v.clone(), Body::Image(b, _) => gen::read_all(b)? }) }
}

/// What is recorded of a request, and the request next to it.
#[derive(Clone, Debug, PartialEq)]
pub struct Taken { pub method: http::Method, pub url: http::Uri, pub headers: Canon, pub body: Vec<u8>,
    pub r_method: http::Method, pub r_url: http::Uri, pub r_headers: Canon, pub hint: (u64, Option<u64>) }

pub enum Rt { Current(tokio::runtime::Runtime), Multi(tokio::runtime::Runtime) }

fn taken<B: http_body::Body>(rr: &RequestRecord<B>) -> io::Result<Taken> {
    let q = rr.request();
    let h = q.body().size_hint();
    Ok(Taken { method: rr.method().clone(), url: rr.url().clone(), headers: canon(rr.req_headers()), body: gen::read_all(rr.req_body())?,
        r_method: q.method().clone(), r_url: q.uri().clone(), r_headers: canon(q.headers()), hint: (h.lower(), h.upper()) })
}

fn recorded<B>(b: http::request::Builder, body: Body, r: &mut Rng) -> Result<RequestRecord<B>, http::Error>
    where B: http_body::Body + Send, http::request::Builder: RequestRecorder<B>
{
    match body {
        Body::None => b.record(),
        Body::Ram(v) => match r.below(3) { 0 => b.record_body(v), 1 => b.record_body(Bytes::from(v)), _ => match String::from_utf8(v) { Ok(s) => b.record_body(s), Err(e) => b.record_body(e.into_bytes()) } },
        Body::Image(i, t) => b.record_body_image(i, t),
    }
}

pub type Outcome = Result<Dialog, FutioError>;

fn as_kind<B>(b: http::request::Builder, body: Body, r: &mut Rng, send: Option<(&Rt, FutioTunables, &Connector, bool)>) -> Result<Result<(Taken, Option<Outcome>), http::Error>, Stop>
    where B: http_body::Body + Send + 'static, B::Data: Send + Unpin, B::Error: Into<Flaw>, http::request::Builder: RequestRecorder<B>
{
    let rr = match recorded::<B>(b, body, r) { Ok(x) => x, Err(e) => return Ok(Err(e)) };
    let t = taken(&rr).map_err(|e| Stop::Violation(format!("recorded body unreadable: {}", e)))?;
    let out = match send {
        None => None,
        Some((rt, tune, con, paused)) => Some({
            let con = con.clone();
            let f = async move {
                let client = hyper::Client::builder().build::<_, B>(con);
                let f = request_dialog(&client, rr, tune);
                drop(client);
                f.await
            };
            // As a task: the paused clock of this runtime also moves when the
            // outermost future is woken.
            let rt = match rt { Rt::Current(rt) => rt, Rt::Multi(rt) => rt };
            match rt.block_on(async move { if paused { tokio::time::pause(); } tokio::spawn(f).await }) { Ok(x) => x, Err(e) => return Err(Stop::Violation(format!("request task: {}", e))) }
        }),
    };
    Ok(Ok((t, out)))
}

/// Build a recorded request, and send it if asked to.
pub fn run(kind: Kind, b: http::request::Builder, body: Body, r: &mut Rng, send: Option<(&Rt, FutioTunables, &Connector, bool)>) -> Result<Result<(Taken, Option<Outcome>), http::Error>, Stop> {
    match kind {
        Kind::Hyper => as_kind::<hyper::Body>(b, body, r, send),
        Kind::Direct => as_kind::<AsyncBodyImage<Bytes>>(b, body, r, send),
        Kind::DirectUni => as_kind::<AsyncBodyImage<UniBodyBuf>>(b, body, r, send),
        Kind::Permit => as_kind::<PermitBodyImage<Bytes>>(b, body, r, send),
        Kind::Dispatch => as_kind::<DispatchBodyImage<Bytes>>(b, body, r, send),
        Kind::DispatchUni => as_kind::<DispatchBodyImage<UniBodyBuf>>(b, body, r, send),
    }
}

/// A runtime whose threads can dispatch to `pool`.
pub fn runtime(r: &mut Rng, current: bool, pool: Option<blocking_permit::DispatchPool>) -> Result<Rt, Stop> {
    Ok(if current {
        Rt::Current(tokio::runtime::Builder::new_current_thread().enable_time().build().map_err(|e| Stop::Harness(e.to_string()))?)
    } else {
        Rt::Multi(tokio::runtime::Builder::new_multi_thread().worker_threads(1 + r.usize(3)).max_blocking_threads(8).enable_time()
            .on_thread_start(move || { if let Some(p) = &pool { blocking_permit::register_dispatch_pool(p.clone()); } })
            .build().map_err(|e| Stop::Harness(e.to_string()))?)
    })
}

// ---- responses -----------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Framing { Length, Chunked, Close, NoBody }

#[derive(Clone, Debug)]
pub struct Response { pub version: http::Version, pub status: u16, pub headers: Canon, pub framing: Framing, pub body: Vec<u8>, pub wire: Vec<u8>,
    /// Start of the body in `wire`, and of the final response (behind interim ones).
    pub body_at: usize, pub head_at: usize,
    /// Positions of chunk size lines.
    pub sizes: Vec<usize> }

pub fn response(r: &mut Rng, method: &str, max: u64) -> Response {
    let head = method == "HEAD";
    let framing = if head { Framing::NoBody } else { *r.pick(&[Framing::Length, Framing::Length, Framing::Chunked, Framing::Chunked, Framing::Close, Framing::NoBody]) };
    let v10 = framing == Framing::Close && r.chance(1, 2);
    let status = match framing {
        Framing::NoBody if !head => *r.pick(&[204u16, 304]),
        _ => if r.chance(1, 2) { 200 } else { loop { let s = 200 + r.below(800) as u16; if s != 204 && s != 304 { break s; } } }
    };
    let body = if framing == Framing::NoBody { Vec::new() } else { body_data(r, max) };
    let mut h = gen::headers(r);
    for n in ["content-length", "transfer-encoding", "connection"] { h.remove(n); }
    while h.len() > 90 { let k = h.keys().next().unwrap().clone(); h.remove(&k); }
    let mut body_bytes = Vec::new();
    let mut sizes = Vec::new();
    match framing {
        Framing::Length => { h.insert("content-length", body.len().to_string().parse().unwrap()); body_bytes = body.clone(); }
        Framing::Chunked => {
            h.insert("transfer-encoding", if r.chance(1, 4) { "Chunked" } else { "chunked" }.parse().unwrap());
            for c in gen::chunks(r, &body) {
                if c.is_empty() { continue; }
                sizes.push(body_bytes.len());
                let s = match r.below(4) { 0 => format!("{:X}", c.len()), 1 => format!("{:06x}", c.len()), 2 => format!("{:x};ext=\"1\"", c.len()), _ => format!("{:x}", c.len()) };
                body_bytes.extend_from_slice(s.as_bytes());
                body_bytes.extend_from_slice(b"\r\n");
                body_bytes.extend_from_slice(&c);
                body_bytes.extend_from_slice(b"\r\n");
            }
            sizes.push(body_bytes.len());
            body_bytes.extend_from_slice(b"0\r\n\r\n");
        }
        Framing::Close => { h.insert("connection", "close".parse().unwrap()); body_bytes = body.clone(); }
        Framing::NoBody => if head || status == 304 { match r.below(4) {
            0 => { h.insert("content-length", r.below(1 << 40).to_string().parse().unwrap()); }
            1 => { h.insert("content-length", "0".parse().unwrap()); }
            _ => {}
        } }
    }
    let mut wire = Vec::new();
    if !v10 && r.chance(1, 8) { wire.extend_from_slice(b"HTTP/1.1 100 Continue\r\n\r\n"); }
    let head_at = wire.len();
    let reason = *r.pick(&["OK", "", "Some Reason", "Not-Modified; maybe"]);
    wire.extend_from_slice(format!("HTTP/1.{} {} {}\r\n", if v10 { 0 } else { 1 }, status, reason).as_bytes());
    let hs = canon(&h);
    // Lines in any order, values of a name in theirs.
    let mut q: Vec<(String, VecDeque<Vec<u8>>)> = hs.iter().map(|(n, v)| (n.clone(), v.iter().cloned().collect())).collect();
    while !q.is_empty() {
        let i = r.usize(q.len());
        let v = q[i].1.pop_front().unwrap();
        let n: String = if r.chance(1, 2) { q[i].0.split('-').map(|p| { let mut c = p.chars(); c.next().map_or(String::new(), |f| f.to_ascii_uppercase().to_string() + c.as_str()) }).collect::<Vec<_>>().join("-") } else { q[i].0.clone() };
        wire.extend_from_slice(n.as_bytes());
        wire.extend_from_slice(if r.chance(1, 5) { b":" } else { b": " });
        wire.extend_from_slice(&v);
        wire.extend_from_slice(b"\r\n");
        if q[i].1.is_empty() { q.swap_remove(i); }
    }
    wire.extend_from_slice(b"\r\n");
    let body_at = wire.len();
    wire.extend_from_slice(&body_bytes);
    for s in &mut sizes { *s += body_at; }
    Response { version: if v10 { http::Version::HTTP_10 } else { http::Version::HTTP_11 }, status, headers: hs, framing, body, wire, body_at, head_at, sizes }
}

/// Cut into pieces, with pauses between some.
pub fn pieces(r: &mut Rng, wire: &[u8]) -> Vec<Step> {
    let mut v = Vec::new();
    let fine = r.chance(1, 4) && wire.len() < 20_000;
    let mut at = 0;
    while at < wire.len() {
        let n = if fine { 1 + r.usize(12) } else { match r.below(4) { 0 => wire.len(), 1 => 1 + r.usize(100), _ => 1 + r.usize(20_000) } };
        let e = (at + n).min(wire.len());
        v.push(Step::Data(wire[at..e].to_vec()));
        if r.chance(1, 4) { v.push(Step::Yield); }
        at = e;
    }
    v
}

/// Some absolute URL and what its request line shows.
pub fn url(r: &mut Rng) -> (String, String) {
    let host = *r.pick(&["localhost", "h", "127.0.0.1:8080", "example.com:99", "[::1]:3000"]);
    let set: Vec<char> = "abcXYZ019-._~!$&'()*+,;=:@/%25".chars().collect();
    let n = r.usize(40);
    let mut p: String = "/".to_string() + &(0..n).map(|_| set[r.usize(set.len())]).collect::<String>();
    if r.chance(1, 3) { let k = r.usize(20); p.push('?'); p.extend((0..k).map(|_| set[r.usize(set.len())])); }
    if r.chance(1, 10) { return (format!("http://{}", host), "/".into()); }
    (format!("http://{}{}", host, p), p)
}
