//! C32: errors and their causes.
use std::error::Error as StdError;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use barc::{write_body, write_headers, BarcError, BarcFile, Record};
use body_image::{BodyError, BodyImage, BodySink, Dialog, Encoding, Epilog, Prolog, Tunables, Tuner};
use body_image_futio::*;
use bytes::Bytes;
use std::convert::TryFrom;

use crate::archive::*;
use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::{self, AnySink, AnyStream, SINKS, STREAMS};
use crate::gen::{self, State};
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::Rng;

type Fault = Box<dyn StdError + Send + Sync>;

/// The causes of an error, itself first.
fn chain<'a>(e: &'a (dyn StdError + 'static)) -> Result<Vec<&'a (dyn StdError + 'static)>, Stop> {
    let mut v = vec![e];
    while let Some(s) = v[v.len() - 1].source() {
        v.push(s);
        ensure!(v.len() < 50, "causes of {:?} do not end", e.to_string());
    }
    Ok(v)
}

/// Every error of the chain can be shown, with what its cause says.
fn shown(e: &(dyn StdError + 'static)) -> CaseResult {
    let v = chain(e)?;
    for x in &v {
        ensure!(!x.to_string().trim().is_empty(), "an error without a message: {:?}", x);
        ensure!(!format!("{:?}", x).is_empty() && !format!("{:#?}", x).is_empty(), "an error without a debug form: {}", x);
    }
    for p in v.windows(2) {
        // The library's own errors include what they wrap.
        if p[0].is::<BodyError>() || p[0].is::<BarcError>() || p[0].is::<FutioError>() || p[0].is::<barc::DialogConvertError>() {
            ensure!(p[0].to_string().contains(&p[1].to_string()), "{:?} does not say that {:?}", p[0].to_string(), p[1].to_string());
        }
    }
    Ok(())
}

/// Some cause is an I/O error of this kind, and this text if given.
fn names(e: &(dyn StdError + 'static), kind: ErrorKind, text: Option<&str>) -> CaseResult {
    shown(e)?;
    let v = chain(e)?;
    let found = v.iter().any(|x| match x.downcast_ref::<io::Error>() {
        Some(i) => i.kind() == kind && text.map_or(true, |t| i.to_string().contains(t)),
        None => false,
    });
    ensure!(found, "{:?} of kind {:?} is not among the causes: {:?}", text, kind, v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    Ok(())
}

const ERRNOS: [i32; 6] = [libc::ENOSPC, libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EDQUOT];

/// What is tried while file operations fail.
const WHAT: [&str; 13] = ["decode", "file sink", "spill", "append", "ingest", "copy out", "read", "map", "archive open", "archive write", "archive read", "async sink", "async stream"];

fn encoded(b: BodyImage, name: &str) -> Dialog {
    let mut h = http::HeaderMap::new();
    h.insert("content-encoding", name.parse().unwrap());
    Dialog::new(
        Prolog { method: http::Method::GET, url: "http://a/".parse().unwrap(), req_headers: Default::default(), req_body: BodyImage::empty() },
        Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_decoded: vec![], res_headers: h, res_body: b })
}

struct Work { dir: std::path::PathBuf, out: std::path::PathBuf, data: Vec<u8>, tune: Tunables, alg: Alg, sink: usize, stream: usize, seed: u64 }

impl Work {
    /// One operation, with its error as it comes.
    fn perform(&self, what: &str, armed: &dyn Fn(bool)) -> Result<(), Fault> {
        let mut r = Rng::new(self.seed);
        let chunks = gen::chunks(&mut r, &self.data);
        let on = |f: &mut dyn FnMut() -> Result<(), Fault>| { armed(true); let x = f(); armed(false); x };
        match what {
            "file sink" => on(&mut || {
                let mut s = BodySink::with_fs(&self.dir)?;
                for c in &chunks { s.write_all(c)?; }
                s.prepare()?;
                Ok(())
            }),
            "spill" => {
                let mut s = BodySink::with_ram(0);
                for c in &chunks { s.push(c.clone())?; }
                on(&mut || { s.write_back(&self.dir)?; Ok(()) })
            }
            "append" => {
                let mut s = BodySink::with_fs(&self.dir)?;
                on(&mut || { for c in &chunks { s.push(c.clone())?; } Ok(()) })
            }
            "ingest" => on(&mut || { BodyImage::read_from(&mut &self.data[..], 0, &self.tune)?; Ok(()) }),
            "copy out" | "read" | "map" => {
                let st = *r.pick(&[State::FsRead, State::FsSlice]);
                let mut b = gen::body(&mut r, st, &self.data, &self.dir);
                on(&mut || {
                    match what { "copy out" => { b.write_to(&mut Vec::new())?; } "read" => { b.reader().read_to_end(&mut Vec::new())?; } _ => { b.mem_map()?; } }
                    Ok(())
                })
            }
            "decode" => {
                let e = match self.alg { Alg::Plain => Encoding::Deflate, Alg::Gzip => Encoding::Gzip, Alg::Brotli => Encoding::Brotli };
                let b = gen::body(&mut r, State::FsRead, &super::c03::compress(e, 3, &self.data), &self.dir);
                let mut d = encoded(b, match e { Encoding::Deflate => "deflate", Encoding::Gzip => "gzip", _ => "br" });
                on(&mut || { decode_res_body(&mut d, &self.tune)?; Ok(()) })
            }
            "archive open" => on(&mut || { let f = BarcFile::new(&self.out); f.writer()?; f.reader()?; Ok(()) }),
            "archive write" | "archive read" => {
                let f = BarcFile::new(&self.out);
                let (mut rec, _) = tagged("x", self.data.clone(), self.data.clone());
                rec.req_headers.insert("content-type", "text/plain".parse().unwrap());
                rec.res_headers.insert("content-type", "text/plain".parse().unwrap());
                let s = Strat::force(self.alg).boxed();
                let mut w = f.writer()?;
                if what == "archive write" { return on(&mut || { w.write(&rec, &*s)?; Ok(()) }); }
                w.write(&rec, &*s)?;
                let mut rd = f.reader()?;
                on(&mut || { while rd.read(&self.tune)?.is_some() {} Ok(()) })
            }
            "async sink" => {
                let k = SINKS[self.sink];
                let _p = flow::register(flow::open_pool(&mut r).0);
                let t = flow::futio(self.tune.clone(), Some(flow::sink_policy(k, flow::semaphore(1))), 4096);
                let mut s = AnySink::<Bytes>::new(k, BodySink::empty(), t);
                let items: Vec<Bytes> = chunks.iter().map(|c| Bytes::from(c.clone())).collect();
                let mut d = Driver::new(self.seed, Drive::Woken, flow::alone_sink(k));
                on(&mut || { match s.send_all(items.clone(), &mut d) { Ok(x) => Ok(x?), Err(_) => Err("lost".into()) } })
            }
            _ => {
                let k = STREAMS[self.stream];
                let b = gen::body(&mut r, State::FsRead, &self.data, &self.dir);
                let _p = flow::register(flow::open_pool(&mut r).0);
                let t = flow::futio(self.tune.clone(), Some(flow::stream_policy(k, flow::semaphore(1))), 4096);
                let mut s = AnyStream::<Bytes>::new(k, b, t);
                let mut d = Driver::new(self.seed, Drive::Woken, flow::alone_stream(k));
                on(&mut || loop { match d.run(|cx| s.poll(cx)) { Ok(Some(x)) => { x?; } Ok(None) => break Ok(()), Err(_) => break Err("lost".into()) } })
            }
        }
    }
}

fn injected(c: &mut Case<'_>) -> CaseResult {
    let what = WHAT[c.index as usize % WHAT.len()];
    let errno = *c.rng.pick(&ERRNOS);
    let len = 200 + c.rng.usize(20_000);
    let dir = c.dir.join("t");
    std::fs::create_dir_all(&dir)?;
    let ram = c.rng.below(150);
    let tune = Tuner::new().set_max_body_ram(ram).set_buffer_size_ram(64 + c.rng.usize(3000)).set_buffer_size_fs(64 + c.rng.usize(5000)).set_temp_dir(&dir).finish();
    let data = if c.rng.chance(1, 2) { c.rng.bytes(len) } else { c.rng.text(len) };
    let w = Work { out: dir.join("a.barc"), dir: dir.clone(), data, tune, alg: *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]), sink: c.rng.usize(3), stream: c.rng.usize(5), seed: c.rng.next() };
    // Without faults, to count the operations; then with one.
    let (seen, at, armed, fired) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(u64::MAX)), Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let hook: interpose::Hook = {
        let (seen, at, armed, fired) = (seen.clone(), at.clone(), armed.clone(), fired.clone());
        Arc::new(move |e: &Event| {
            if !armed.load(SeqCst) || e.phase != Phase::Before || matches!(e.op, Op::Close | Op::Munmap | Op::Dup) { return Action::Go; }
            if seen.fetch_add(1, SeqCst) == at.load(SeqCst) { fired.store(true, SeqCst); return Action::Fail(errno); }
            Action::Go
        })
    };
    let _w = interpose::watch(&[&dir], hook);
    let arm = |x: bool| armed.store(x, SeqCst);
    w.perform(what, &arm).map_err(|e| Stop::Harness(format!("{} without faults: {}", what, e)))?;
    let n = seen.swap(0, SeqCst);
    if n == 0 { return Ok(()); }
    let k = c.rng.below(n);
    at.store(k, SeqCst);
    interpose::quiet(|| { std::fs::remove_file(&w.out).ok(); });
    c.step(format!("{} {:?} {:?} {:?}, {} at operation {} of {}", what, w.alg, SINKS[w.sink], STREAMS[w.stream], errno, k, n));
    let r = w.perform(what, &arm);
    let kind = io::Error::from_raw_os_error(errno).kind();
    if fired.load(SeqCst) {
        match r {
            Ok(()) => c.count("faults without effect", 1),
            Err(e) => {
                if e.to_string() == "lost" { return Err(Stop::Harness("not woken".into())); }
                names(&*e, kind, None).map_err(|x| match x { Stop::Violation(s) => Stop::Violation(format!("{}; {}", s, c.trace[0])), x => x })?;
                c.count("injected failures traced", 1);
                c.in_set_str("operations whose failures were traced", what);
                let d = format!("{} {:?} {} {}", what, w.alg, errno, k.min(20));
                c.distinct_str(&d);
            }
        }
    }
    Ok(())
}

/// A source or destination that fails with its own error.
struct Failing { left: usize, kind: ErrorKind, text: String, with: Vec<u8> }
impl Failing {
    fn error(&self) -> io::Error { io::Error::new(self.kind, self.text.clone()) }
    fn take(&mut self, n: usize) -> io::Result<usize> {
        if self.left == 0 { return Err(self.error()); }
        let n = n.min(self.left);
        self.left -= n;
        Ok(n)
    }
}
impl Read for Failing { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.take(b.len())?; for (i, x) in b[..n].iter_mut().enumerate() { *x = self.with[i % self.with.len()]; } Ok(n) } }
impl Write for Failing { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.take(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }

const KINDS: [ErrorKind; 9] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData,
    ErrorKind::ConnectionReset, ErrorKind::PermissionDenied, ErrorKind::WriteZero];

fn ends(c: &mut Case<'_>) -> CaseResult {
    let len = 1 + c.rng.usize(20_000);
    let data = c.rng.text(len);
    let kind = *c.rng.pick(&KINDS);
    let text = format!("no more of {:016x}", c.rng.next());
    let left = c.rng.usize(len);
    let mut f = Failing { left, kind, text: text.clone(), with: b"abc".to_vec() };
    let what = c.rng.below(4);
    c.step(format!("{} {:?} behind {} bytes of {}", what, kind, left, len));
    let t = gen::tune(&mut c.rng, len as u64, &c.dir);
    let st = *c.rng.pick(&[State::RamOne, State::RamMany, State::FsRead, State::FsSlice, State::MapFs]);
    let e: Fault = match what {
        0 => match BodyImage::read_from(&mut f, c.rng.below(30_000), &t) {
            Err(BodyError::BodyTooLong(_)) => return Ok(()),
            Err(e) => e.into(),
            Ok(_) => return violation(format!("a body from a failing source: {}", c.trace[0])),
        },
        1 => { let b = gen::body(&mut c.rng, st, &data, &c.dir); match b.write_to(&mut f) { Err(e) => e.into(), Ok(_) => return violation(format!("copied out to a failing destination: {}", c.trace[0])) } }
        2 => { let b = gen::body(&mut c.rng, st, &data, &c.dir); match write_body(&mut f, true, &b) { Err(e) => e.into(), Ok(_) => return violation(format!("a body written to a failing destination: {}", c.trace[0])) } }
        _ => {
            let mut h = gen::headers(&mut c.rng);
            h.insert("x", "y".parse().unwrap());
            f.left = c.rng.usize(5);
            match write_headers(&mut f, true, &h) { Err(e) => e.into(), Ok(_) => return violation(format!("headers written to a failing destination: {}", c.trace[0])) }
        }
    };
    names(&*e, kind, Some(&text)).map_err(|x| match x { Stop::Violation(s) => Stop::Violation(format!("{}; {}", s, c.trace[0])), x => x })?;
    c.count("failing ends traced", 1);
    c.distinct(hash(&[what, KINDS.iter().position(|k| *k == kind).unwrap() as u64, st as u64, left.min(50) as u64]));
    Ok(())
}

fn hash(v: &[u64]) -> u64 { v.iter().fold(7, |a, x| crate::rng::mix(a ^ x)) }

/// Refused input, reported with what was wrong with it.
fn refused(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let tune = Tuner::new().set_temp_dir(&dir).finish();
    let (rec, m) = record(&mut c.rng, &dir, 300);
    drop(rec);
    let mut img = encode(&mut c.rng, &m, Alg::Plain);
    let p = dir.join("x.barc");
    let read = |img: &[u8], t: &Tunables| -> Result<Result<Option<Record>, BarcError>, Stop> {
        std::fs::write(&p, img)?;
        Ok(BarcFile::new(&p).reader().map_err(|e| Stop::Harness(e.to_string()))?.read(t))
    };
    let wrong = |got: String, want: String| violation::<()>(format!("{} instead of {}", got, want));
    let k = c.rng.below(9);
    let d;
    let e: Fault = match k {
        0 => {
            let b = loop { let b = c.rng.next() as u8; if !b"RD".contains(&b) { break b; } };
            img[19] = b;
            d = format!("record type {}", b);
            match read(&img, &tune)? { Err(e) => { if !matches!(e, BarcError::UnknownRecordType(x) if x == b) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        1 => {
            let b = loop { let b = c.rng.next() as u8; if !b"PZB".contains(&b) { break b; } };
            img[20] = b;
            d = format!("compression {}", b);
            match read(&img, &tune)? { Err(e) => { if !matches!(e, BarcError::UnknownCompression(x) if x == b) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        2 => {
            let at = *c.rng.pick(&[6usize, 11, 17, 22, 26, 28, 32, 34, 43, 45, 49]);
            let b = loop { let b = c.rng.next() as u8; if !b"0123456789abcdefABCDEF".contains(&b) { break b; } };
            img[at] = b;
            d = format!("digit {} at {}", b, at);
            match read(&img, &tune)? { Err(e) => { if !matches!(e, BarcError::ReadInvalidRecHeadHex(x) if x == b) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        3 => {
            let n = 20 + c.rng.usize(33);
            img.truncate(n);
            d = format!("head of {} bytes", n);
            match read(&img, &tune)? { Err(e) => { if !matches!(e, BarcError::ReadIncompleteRecHead(x) if x == n) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        4 => {
            let at = c.rng.usize(6);
            img[at] ^= 0x20 | 1;
            d = format!("a magic of {:?}", &img[..6]);
            match read(&img, &tune)? { Err(e) => { if !matches!(e, BarcError::ReadInvalidRecHead) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        5 => {
            let max = 100 + c.rng.below(2000);
            let ram = c.rng.below(max);
            let t = Tuner::new().set_max_body_ram(ram).set_max_body(max).set_buffer_size_ram(2048).set_temp_dir(&dir).finish();
            let n = max as usize + 1 + c.rng.usize(3000);
            d = format!("{} bytes with a maximum of {}", n, max);
            match BodyImage::read_from(&mut &vec![1u8; n][..], 0, &t) {
                Err(e) => { match e { BodyError::BodyTooLong(l) => { ensure!(l > max && l <= n as u64, "a length of {} reported for {}", l, d); ensure!(e.to_string().contains(&l.to_string()), "{:?} for a length of {}", e.to_string(), l); } _ => return wrong(format!("{:?}", e), d) } e.into() }
                Ok(_) => return violation(format!("accepted {}", d)),
            }
        }
        6 => {
            // What a decoder can't do, by name.
            let b = c.rng.bytes(30);
            let mut dl = encoded(BodyImage::from_slice(b), "compress");
            d = "an unsupported encoding".to_string();
            match decode_res_body(&mut dl, &tune) { Err(e) => { if !matches!(e, FutioError::UnsupportedEncoding(Encoding::Compress)) { return wrong(format!("{:?}", e), d); } ensure!(e.to_string().contains("compress"), "{:?} for compress", e.to_string()); e.into() } Ok(_) => return violation("decoded the undecodable") }
        }
        7 => {
            // A bad header line in a block of announced length.
            let line: &[u8] = *c.rng.pick(&[&b"bad name: x\r\n\r\n"[..], b": x\r\n\r\n", b"a\0b: x\r\n\r\n", b"novalue\r\n\r\n", b"x: \x01\r\n\r\n", b"x: y\n\n\n\n\n\n", b"x: y\r\n\r\nz: more\r\n\r\n", b"\r\nx: y\r\n\r\n"]);
            let mut f = format!("BARC2 {:012x} DP {:05x} 00000 0000000000 00000\r\n\r\n", line.len(), line.len()).into_bytes();
            f.extend_from_slice(line);
            d = format!("a header block of {:?}", String::from_utf8_lossy(line));
            match read(&f, &tune)? { Err(e) => { if !matches!(e, BarcError::InvalidHeader(_)) { return wrong(format!("{:?}", e), d); } e.into() } Ok(_) => return violation(format!("read with {}", d)) }
        }
        _ => {
            let mut rec = Record::default();
            let all = ["url", "method", "response-version", "response-status"];
            let (lack, bad) = (c.rng.usize(4), c.rng.chance(1, 2));
            for (i, (n, v)) in all.iter().zip(["http://a/", "GET", "HTTP/1.1", "200 OK"]).enumerate() {
                let v = if i == lack { if !bad { continue; } "\u{7f}?".replace('\u{7f}', "{ ") } else { v.to_string() };
                rec.meta.insert(http::header::HeaderName::from_static(n), v.parse().unwrap());
            }
            d = format!("{} {}", if bad { "a bad" } else { "no" }, all[lack]);
            use barc::DialogConvertError::*;
            match Dialog::try_from(rec) {
                Err(e) => {
                    let fits = match (&e, lack, bad) {
                        (NoMetaUrl, 0, false) | (NoMetaMethod, 1, false) | (NoMetaResVersion, 2, false) | (NoMetaResStatus, 3, false) => true,
                        (InvalidUrl(_), 0, true) | (InvalidMethod(_), 1, true) | (InvalidVersion(_), 2, true) | (InvalidStatusCode(_), 3, true) | (MalformedMetaResStatus, 3, true) => true,
                        _ => false,
                    };
                    if !fits { return wrong(format!("{:?}", e), d); }
                    BarcError::from(e).into()
                }
                Ok(_) => return violation(format!("a dialog with {}", d)),
            }
        }
    };
    c.step(d.clone());
    shown(&*e).map_err(|x| match x { Stop::Violation(s) => Stop::Violation(format!("{}; {}", s, d)), x => x })?;
    c.count("refusals compared", 1);
    c.in_set("kinds of refusal", k);
    c.distinct_str(&d);
    Ok(())
}

/// Connections that fail.
#[cfg(feature = "http")]
mod connection {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Clone)]
    pub struct Bad(pub ErrorKind, pub String);
    impl hyper::service::Service<hyper::Uri> for Bad {
        type Response = tokio::net::TcpStream;
        type Error = io::Error;
        type Future = Pin<Box<dyn std::future::Future<Output = io::Result<Self::Response>> + Send>>;
        fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn call(&mut self, _: hyper::Uri) -> Self::Future { let e = io::Error::new(self.0, self.1.clone()); Box::pin(async move { Err(e) }) }
    }

    pub fn case(c: &mut Case<'_>) -> CaseResult {
        let kind = *c.rng.pick(&KINDS);
        let text = format!("no way to {:016x}", c.rng.next());
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build()?;
        c.step(format!("connection refused with {:?}", kind));
        let client: hyper::Client<Bad, hyper::Body> = hyper::Client::builder().build(Bad(kind, text.clone()));
        let rr: RequestRecord<hyper::Body> = http::Request::get("http://a/").record().unwrap();
        let e = match rt.block_on(async { request_dialog(&client, rr, FutioTunables::new()).await }) { Err(e) => e, Ok(_) => return violation("a dialog without a connection") };
        names(&e, kind, Some(&text))?;
        c.count("failed connections traced", 1);
        c.distinct(hash(&[99, KINDS.iter().position(|k| *k == kind).unwrap() as u64]));
        // One that can't be built.
        let r: Result<RequestRecord<hyper::Body>, http::Error> = http::Request::builder().header("bad name", "x").uri("http://a/").record();
        match r { Err(e) => shown(&FutioError::from(e))?, Ok(_) => return violation("a request with a bad header") }
        let d = std::time::Duration::from_millis(1 + c.rng.below(100_000));
        for e in [FutioError::ResponseTimeout(d), FutioError::BodyTimeout(d)] { shown(&e)?; ensure!(e.to_string().contains(&format!("{:?}", d)), "{:?} for {:?}", e.to_string(), d); }
        let l = c.rng.next();
        let e = FutioError::ContentLengthTooLong(l);
        ensure!(e.to_string().contains(&l.to_string()), "{:?} for {}", e.to_string(), l);
        Ok(())
    }
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(2600, 26_000);
    x.run("injected", n, injected);
    let n = x.tier(3000, 30_000);
    x.run("ends", n, ends);
    let n = x.tier(4000, 40_000);
    x.run("refused", n, refused);
    #[cfg(feature = "http")]
    {
        let n = x.tier(200, 1000);
        x.run("connections", n, connection::case);
        x.require("failed connections traced", 100);
    }
    x.require("injected failures traced", 1000);
    x.require("distinct operations whose failures were traced", 13);
    x.require("failing ends traced", 1500);
    x.require("refusals compared", 3000);
    x.require("distinct kinds of refusal", 9);
}

