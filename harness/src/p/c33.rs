//! C33: the record command.
use std::net::{TcpListener, TcpStream};

use body_image::Encoding;

use super::c15::{type_counts, Policy};
use super::c27::{external, parts, serve};
use crate::archive::*;
use crate::cli;
use crate::ctx::*;
use crate::rng::Rng;

const ACCEPTS: [&str; 6] = ["*/*", "text/x-test;q=0.5", "application/json, text/plain;q=0.1", "image/png", "a/b; c=\"d e\"", "x"];
const TYPES: [&str; 4] = ["text/plain", "application/json", "image/png", "font/ttf"];

/// A response as the bytes a server sends.
fn wire(status: u16, headers: &Canon, body: &[u8], chunked: bool, r: &mut Rng) -> (Vec<u8>, usize) {
    let mut w = format!("HTTP/1.1 {} x\r\n", status).into_bytes();
    for (n, vs) in headers { for v in vs { w.extend_from_slice(n.as_bytes()); w.extend_from_slice(b": "); w.extend_from_slice(v); w.extend_from_slice(b"\r\n"); } }
    w.extend_from_slice(b"\r\n");
    let at = w.len();
    if chunked {
        for c in crate::gen::chunks(r, body) {
            if c.is_empty() { continue; }
            w.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
            w.extend_from_slice(&c);
            w.extend_from_slice(b"\r\n");
        }
        w.extend_from_slice(b"0\r\n\r\n");
    } else { w.extend_from_slice(body); }
    (w, at)
}

fn get<'a>(h: &'a Canon, n: &str) -> Option<&'a [Vec<u8>]> { h.iter().find(|x| x.0 == n).map(|x| &x.1[..]) }

/// Some runs of the command into one archive.
fn session(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let out = dir.join("out.barc");
    let mut img = Vec::new();
    for _ in 0..c.rng.below(3) { let m = cli::model(&mut c.rng, 500); let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]); img.extend(encode(&mut c.rng, &m, alg)); }
    let existing = !img.is_empty() || c.rng.chance(1, 4);
    if existing { std::fs::write(&out, &img)?; }
    let runs = 1 + c.rng.below(3);
    for _ in 0..runs { one(c, &mut img)?; }
    Ok(())
}

fn one(c: &mut Case<'_>, img: &mut Vec<u8>) -> CaseResult {
    let dir = c.dir.clone();
    let out = dir.join("out.barc");
    let ls = TcpListener::bind("127.0.0.1:0")?;
    let port = ls.local_addr()?.port();
    // The response.
    let chunked = c.rng.chance(1, 2);
    let status = *c.rng.pick(&[200u16, 200, 200, 201, 206, 301, 404, 500, 599]);
    let enc = *c.rng.pick(&[None, None, Some((Encoding::Gzip, "gzip")), Some((Encoding::Gzip, "GZIP")), Some((Encoding::Deflate, "deflate")), Some((Encoding::Brotli, "br")), Some((Encoding::Compress, "compress"))]);
    let len = match c.rng.below(12) { 0 => 0, 1 => 250_000 + c.rng.usize(100_000), 2..=5 => 900 + c.rng.usize(400), 6..=8 => 3800 + c.rng.usize(700), _ => c.rng.usize(30_000) };
    let plain = if c.rng.chance(1, 3) { c.rng.bytes(len) } else { c.rng.text(len) };
    let mut body = match enc { Some((e, _)) if e != Encoding::Compress => super::c03::compress(e, 4, &plain), _ => plain.clone() };
    // What goes wrong.
    let flaw = match c.rng.below(10) { 0 => "cut", 1 => "cut head", 2 => "damaged", 3 => "silent", 4 => "refused", _ => "" };
    let mut flaw = flaw;
    let no_decode = c.rng.chance(1, 3);
    if flaw == "damaged" {
        // Streams that end early or whose check fails.
        match enc {
            Some((Encoding::Gzip, _)) if body.len() > 20 => { let n = body.len(); if c.rng.chance(1, 2) { body[n - 6] ^= 0xff; } else { body.truncate(n - 9 - c.rng.usize(5)); } }
            Some((Encoding::Deflate, _)) | Some((Encoding::Brotli, _)) if body.len() > 8 => { let n = body.len(); body.truncate(n - 1 - c.rng.usize(n / 2)); }
            _ => flaw = "",
        }
    }
    let mut h: Canon = vec![
        (if chunked { "transfer-encoding".into() } else { "content-length".into() }, vec![if chunked { b"chunked".to_vec() } else { body.len().to_string().into_bytes() }]),
        ("set-cookie".into(), vec![format!("a={:x}", c.rng.next()).into_bytes(), b"b".to_vec()]),
    ];
    if let Some((_, n)) = enc { h.push(("content-encoding".into(), vec![n.as_bytes().to_vec()])); }
    if c.rng.chance(4, 5) { h.push(("content-type".into(), vec![c.rng.pick(&TYPES).as_bytes().to_vec()])); }
    h.sort();
    let (mut w, at) = wire(status, &h, &body, chunked, &mut c.rng);
    match flaw {
        "cut" => { if w.len() == at { flaw = ""; } else { let n = at + c.rng.usize(w.len() - at); w.truncate(n); } }
        "cut head" => { let n = 1 + c.rng.usize(at - 1); w.truncate(n); }
        "silent" => w.clear(),
        _ => {}
    }
    let unsupported = !no_decode && matches!(enc, Some((Encoding::Compress, _)));
    let fails = matches!(flaw, "cut" | "cut head" | "silent" | "refused") || unsupported || flaw == "damaged" && !no_decode;
    // The command.
    let target = c.rng.pick(&["/", "/p?q", "/a/b%20c?x=1&y=2", "/?", "/long/".repeat(30).as_str()]).to_string();
    let url = format!("http://127.0.0.1:{}{}", port, target);
    let accept = if c.rng.chance(1, 2) { Some(*c.rng.pick(&ACCEPTS)) } else { None };
    let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
    let mut opts: Vec<Vec<String>> = Vec::new();
    match alg { Alg::Plain => (), Alg::Gzip => opts.push(vec![c.rng.pick(&["-z", "--gzip"]).to_string()]), Alg::Brotli => opts.push(vec![c.rng.pick(&["-b", "--brotli"]).to_string()]) }
    if no_decode { opts.push(vec!["--no-decode".into()]); }
    if let Some(x) = accept { opts.push(if c.rng.chance(1, 2) { vec!["--accept".into(), x.into()] } else { vec![format!("--accept={}", x)] }); }
    let path = if c.rng.chance(1, 2) { "out.barc".to_string() } else { out.to_string_lossy().into_owned() };
    opts.push(vec![url.clone(), path]);
    c.rng.shuffle(&mut opts);
    let mut a: Vec<String> = vec!["record".into()];
    a.extend(opts.concat());
    c.step(format!("record {} {} of {} ({} sent) {:?} chunked {}, no-decode {}, accept {:?}, {:?} {}", target, status, len, body.len(), enc, chunked, no_decode, accept, alg, flaw));
    let last = c.trace[c.trace.len() - 1].clone();
    let (r, q) = if flaw == "refused" {
        drop(ls);
        (cli::call(&dir, &a, cli::LIMITS)?, None)
    } else {
        let t = serve(ls, parts(&mut c.rng, &w));
        let r = cli::call(&dir, &a, cli::LIMITS)?;
        let q = external(|| { if !t.is_finished() { TcpStream::connect(("127.0.0.1", port)).ok(); } t.join().unwrap() });
        (r, Some(q))
    };
    if String::from_utf8_lossy(&r.err).contains("Timeout before") { return Err(Stop::Harness("the loopback exchange took a minute".into())); }
    if let Some(q) = &q {
        let q = q.as_ref().map_err(|e| Stop::Violation(format!("request did not arrive: {}; {}; {}", e, r.show(), last)))?;
        ensure!(q.method == "GET" && q.target == target && q.body.is_empty(), "request was {} {}: {}", q.method, q.target, last);
        let sent = |n: &str| q.headers.iter().filter(|h| h.0 == n).map(|h| &h.1[..]).collect::<Vec<_>>();
        let want = accept.unwrap_or(body_image_futio::BROWSE_ACCEPT);
        ensure!(sent("accept") == [want.as_bytes()], "accept header sent is {:?} instead of {:?}", sent("accept").iter().map(|v| String::from_utf8_lossy(v)).collect::<Vec<_>>(), want);
    }
    let now = std::fs::read(&out).unwrap_or_default();
    ensure!(now.starts_with(img), "earlier records changed: {}", last);
    if fails {
        ensure!(!r.ok(), "exit 0: {}", last);
        ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", r.show(), last);
        ensure!(!r.err.is_empty(), "failed without a message: {}", last);
        ensure!(now == *img, "a record of a failed exchange: {}", last);
        c.count("failures reported", 1);
        c.in_set_str("kinds of failure", if unsupported && flaw.is_empty() { "unsupported" } else { flaw });
    } else {
        ensure!(r.ok(), "{}: {}", r.show(), last);
        let got = decode_at(&now, img.len() as u64).map_err(|e| Stop::Violation(format!("{}: {}", e, last)))?.ok_or_else(|| Stop::Violation(format!("no record written: {}", last)))?;
        ensure!(got.end == now.len() as u64, "more than one record written: {}", last);
        let m = &got.model;
        ensure!(m.res_h == h, "response headers in the archive differ: {}", last);
        let decoded = enc.is_some() && !no_decode && !body.is_empty();
        let want = if decoded { &plain } else { &body };
        ensure!(&m.res_b == want, "response body in the archive: {}: {}", diff(&m.res_b, want), last);
        ensure!(m.req_b.is_empty(), "a request body in the archive: {}", last);
        let q = q.unwrap().map_err(Stop::Violation)?;
        for n in ["accept", "accept-encoding", "accept-language", "user-agent"] { ensure!(get(&m.req_h, n).is_some() == q.headers.iter().any(|h| h.0 == n), "header {} of the request not recorded: {}", n, last); }
        for (n, vs) in &m.req_h {
            let sent: Vec<Vec<u8>> = q.headers.iter().filter(|h| &h.0 == n).map(|h| h.1.clone()).collect();
            ensure!(&sent == vs, "request header {} in the archive differs from the one sent: {}", n, last);
        }
        let meta = |n: &str| get(&m.meta, n).map(|v| String::from_utf8_lossy(&v[0]).into_owned());
        ensure!(meta("url").as_deref() == Some(&url[..]) || target == "/?" , "url {:?} in the archive: {}", meta("url"), last);
        ensure!(meta("method").as_deref() == Some("GET"), "method {:?} in the archive", meta("method"));
        ensure!(meta("response-status").map_or(false, |s| s.starts_with(&status.to_string())), "status {:?} in the archive instead of {}", meta("response-status"), status);
        ensure!(meta("response-version").as_deref() == Some("HTTP/1.1"), "version {:?} in the archive", meta("response-version"));
        // Compressed as asked for, where that is worth while.
        let policy = match alg { Alg::Plain => None, Alg::Gzip => Some(Policy { min: 4096, check: true, coef: 0.5 }), Alg::Brotli => Some(Policy { min: 1024, check: true, coef: 0.5 }) };
        let ty = type_counts(&m.res_h).ok_or_else(|| Stop::Harness("content type".into()))?;
        let identity = meta("response-decoded").map_or(false, |d| d.split(',').any(|x| x.trim() == "identity"));
        let hb = (size_of(&m.meta) + size_of(&m.req_h) + size_of(&m.res_h)) as u64;
        let comp = policy.map_or(false, |p| p.compress((0, false), (want.len() as u64, ty), identity, hb));
        ensure!(got.alg == if comp { alg } else { Alg::Plain }, "stored as {:?}: {}", got.alg, last);
        c.count(if comp { "recorded compressed" } else { "recorded plain" }, 1);
        if decoded { c.count("recorded decoded", 1); }
        if enc.is_some() && no_decode { c.count("recorded as encoded", 1); }
    }
    *img = now;
    ensure!(cli::left_over(&dir)? == 0, "temporary files left behind: {}", last);
    c.distinct_str(&last);
    Ok(())
}

/// Commands that can't be carried out.
fn refused(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let out = dir.join("out.barc");
    let m = cli::model(&mut c.rng, 300);
    let img = encode(&mut c.rng, &m, Alg::Plain);
    std::fs::write(&out, &img)?;
    std::fs::create_dir_all(dir.join("d"))?;
    let ls = TcpListener::bind("127.0.0.1:0")?;
    let url = format!("http://127.0.0.1:{}/", ls.local_addr()?.port());
    let k = c.rng.below(9);
    let a: Vec<&str> = match k {
        0 => vec![&url],
        1 => vec![],
        2 => vec!["-z", "-b", &url, "out.barc"],
        3 => vec!["--accept", "a\nb", &url, "out.barc"],
        4 => vec![*c.rng.pick(&["", "http://", "not a url", "http://a b/", "ht!tp://x/", "/only/path", "127.0.0.1"]), "out.barc"],
        5 => vec!["ftp://127.0.0.1/x", "out.barc"],
        6 => vec!["--nonsense", &url, "out.barc"],
        7 => vec![&url, "d"],
        _ => vec![&url, "none/such/out.barc"],
    };
    let mut args: Vec<String> = vec!["record".into()];
    args.extend(a.iter().map(|s| s.to_string()));
    c.step(format!("record {:?}", a.iter().map(|s| if *s == url { "URL" } else { *s }).collect::<Vec<_>>()));
    let what = c.trace[0].clone();
    // The server may be asked before the flaw is noticed, or not.
    let t = serve(ls, vec![b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\nab".to_vec()]);
    let port = url.rsplit(':').next().unwrap().trim_end_matches('/').parse::<u16>().unwrap();
    let r = cli::call(&dir, &args, cli::LIMITS)?;
    external(|| { if !t.is_finished() { TcpStream::connect(("127.0.0.1", port)).ok(); } t.join().unwrap().ok() });
    ensure!(!r.ok(), "exit 0: {}", what);
    ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", r.show(), what);
    ensure!(!r.err.is_empty(), "failed without a message: {}", what);
    ensure!(std::fs::read(&out).unwrap_or_default() == img, "existing archive changed: {}", what);
    ensure!(cli::left_over(&dir)? == 0, "temporary files left behind: {}", what);
    c.count("refusals compared", 1);
    c.in_set("kinds of refusal", k);
    c.distinct_str(&what);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(250, 2500);
    x.run("sessions", n, session);
    let n = x.tier(120, 600);
    x.run("refused", n, refused);
    x.require("recorded compressed", 20);
    x.require("recorded plain", 40);
    x.require("recorded decoded", 20);
    x.require("recorded as encoded", 10);
    x.require("failures reported", 40);
    x.require("distinct kinds of failure", 6);
    x.require("refusals compared", 80);
    x.require("distinct kinds of refusal", 9);
}
