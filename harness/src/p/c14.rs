//! C14: dialog to record and back.
use std::convert::TryFrom;

use barc::*;
use body_image::{BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use body_image_futio::decode_res_body;
use http::header::HeaderValue;

use super::c03::compress;
use crate::archive::*;
use crate::ctx::*;
use crate::gen::{self, canon};
use crate::rng::Rng;

pub const ENCODINGS: [Encoding; 6] = [Encoding::Chunked, Encoding::Deflate, Encoding::Gzip, Encoding::Brotli, Encoding::Compress, Encoding::Identity];
pub const VERSIONS: [http::Version; 5] = [http::Version::HTTP_09, http::Version::HTTP_10, http::Version::HTTP_11, http::Version::HTTP_2, http::Version::HTTP_3];

/// A dialog as plain values.
#[derive(Clone, Debug, PartialEq)]
pub struct Plain { pub method: String, pub url: String, pub version: http::Version, pub status: u16, pub decoded: Vec<Encoding>,
    pub req_h: Canon, pub res_h: Canon, pub req_b: Vec<u8>, pub res_b: Vec<u8> }

pub fn plain(d: &Dialog) -> std::io::Result<Plain> {
    Ok(Plain { method: d.method().as_str().to_string(), url: d.url().to_string(), version: d.res_version(), status: d.res_status().as_u16(),
        decoded: d.res_decoded().to_vec(), req_h: canon(d.req_headers()), res_h: canon(d.res_headers()),
        req_b: gen::read_all(d.req_body())?, res_b: gen::read_all(d.res_body())? })
}

pub fn method(r: &mut Rng) -> http::Method {
    let std = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE"];
    let ext = ["PROPFIND", "MKCOL", "x", "get", "M-SEARCH", "A!-._9", "VERYLONGEXTENSIONMETHODNAMEBEYONDINLINE"];
    let s: &str = if r.chance(3, 4) { std[r.usize(std.len())] } else { ext[r.usize(ext.len())] };
    http::Method::from_bytes(s.as_bytes()).unwrap()
}

pub fn url(r: &mut Rng) -> http::Uri {
    let fixed = ["http://localhost:8080/path?q=1", "https://user:pw@example.com/", "/", "*", "/a/b?c=d&e=%20f", "http://[::1]:90/x", "http://h",
        "HTTP://Example.COM/UPPER", "ftp://x/y", "http://a.b/;p=1,2?x=[y]&z={w}", "example.com:443", "/?", "http://h/?q", "x://y/~!$&'()*+,;=:@"];
    let s = if r.chance(1, 2) { fixed[r.usize(fixed.len())].to_string() } else {
        let n = r.usize(60);
        let p: String = (0..n).map(|_| b"abcXYZ019-._~!$&'()*+,;=:@/%25?"[r.usize(31)] as char).collect();
        format!("http://host{}/{}", r.below(100), p)
    };
    s.parse().unwrap()
}

pub fn dialog(r: &mut Rng, dir: &std::path::Path) -> Dialog {
    let (q, s) = (body_data(r, 5000), body_data(r, 9000));
    let (sq, ss) = (*r.pick(&gen::STATES), *r.pick(&gen::STATES));
    let status = if r.chance(1, 2) { *r.pick(&[200u16, 204, 301, 404, 500, 101, 304]) } else { 100 + r.below(900) as u16 };
    let decoded = (0..r.usize(5)).map(|_| *r.pick(&ENCODINGS)).collect();
    Dialog::new(
        Prolog { method: method(r), url: url(r), req_headers: gen::headers(r), req_body: gen::body(r, sq, &q, dir) },
        Epilog { version: *r.pick(&VERSIONS), status: http::StatusCode::from_u16(status).unwrap(), res_decoded: decoded, res_headers: gen::headers(r), res_body: gen::body(r, ss, &s, dir) })
}

fn compare(what: &str, d: &Dialog, want: &Plain) -> CaseResult {
    let got = plain(d).map_err(|e| Stop::Violation(format!("{}: body unreadable: {}", what, e)))?;
    ensure!(got.method == want.method, "{}: method {} instead of {}", what, got.method, want.method);
    ensure!(got.url == want.url, "{}: url {} instead of {}", what, got.url, want.url);
    ensure!(got.version == want.version, "{}: version {:?} instead of {:?}", what, got.version, want.version);
    ensure!(got.status == want.status, "{}: status {} instead of {}", what, got.status, want.status);
    ensure!(got.decoded == want.decoded, "{}: decoded {:?} instead of {:?}", what, got.decoded, want.decoded);
    ensure!(got.req_h == want.req_h && got.res_h == want.res_h, "{}: headers differ", what);
    ensure!(got.req_b == want.req_b, "{}: request body: {}", what, diff(&got.req_b, &want.req_b));
    ensure!(got.res_b == want.res_b, "{}: response body: {}", what, diff(&got.res_b, &want.res_b));
    Ok(())
}

fn through(c: &mut Case<'_>, d: Dialog) -> CaseResult {
    let dir = c.dir.clone();
    let want = plain(&d)?;
    c.step(format!("{} {} {:?} {} {:?}", want.method, want.url, want.version, want.status, want.decoded));
    c.in_set_str("decoded lists", &format!("{:?}", want.decoded));
    let rec = Record::try_from(d.clone()).map_err(|e| Stop::Violation(format!("to a record: {}", e)))?;
    let back = Dialog::try_from(rec.clone()).map_err(|e| Stop::Violation(format!("back from a record: {} ({:?} {:?})", e, want.version, want.decoded)))?;
    compare("converted", &back, &want)?;
    // Statuses are known by their number, whatever phrase follows.
    let mut other = rec.clone();
    let phrase = *c.rng.pick(&["", " ", " Fine", " \u{e9}t\u{e9}", " 404 Not Found"]);
    other.meta.insert("response-status", HeaderValue::from_bytes(format!("{}{}", want.status, phrase).as_bytes()).unwrap());
    let back = Dialog::try_from(other).map_err(|e| Stop::Violation(format!("back from a record of status {}{:?}: {}", want.status, phrase, e)))?;
    compare("converted with another phrase", &back, &want)?;
    // Converting leaves the original alone.
    compare("original", &d, &want)?;
    let f = BarcFile::new(dir.join("a.barc"));
    let s = Strat::any(&mut c.rng);
    f.writer().and_then(|mut w| w.write(&rec, &*s.boxed())).map_err(|e| Stop::Violation(format!("write: {}", e)))?;
    let t = reader_tune(&mut c.rng, &dir);
    let read = f.reader().and_then(|mut r| r.read(&t)).map_err(|e| Stop::Violation(format!("read: {}", e)))?;
    let read = match read { Some(r) => r, None => return violation("record not there") };
    let back = Dialog::try_from(read).map_err(|e| Stop::Violation(format!("back from the archive: {}", e)))?;
    compare("archived", &back, &want)?;
    c.count("dialogs compared", 4);
    c.distinct_str(&format!("{:?}", (&want.method, &want.url, want.version, want.status, &want.decoded, want.req_b.len(), want.res_b.len())));
    Ok(())
}

fn random(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let d = dialog(&mut c.rng, &dir);
    through(c, d)
}

/// Dialogs as response decoding leaves them.
fn decoded(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut d = dialog(&mut c.rng, &dir);
    let l = gen::len(&mut c.rng, 9000) as usize;
    let text = c.rng.text(l);
    let (p, mut e) = d.explode();
    let enc = *c.rng.pick(&[Encoding::Gzip, Encoding::Deflate, Encoding::Brotli, Encoding::Identity]);
    e.res_headers.remove("content-encoding");
    e.res_headers.remove("transfer-encoding");
    e.res_decoded.clear();
    match enc {
        Encoding::Identity => { e.res_body = BodyImage::from_slice(text.clone()); }
        x => { e.res_headers.insert("content-encoding", x.to_string().parse().unwrap()); e.res_body = BodyImage::from_slice(compress(x, 2, &text)); }
    }
    if c.rng.chance(1, 2) { e.res_headers.insert("transfer-encoding", HeaderValue::from_static("chunked")); e.res_decoded.push(Encoding::Chunked); }
    d = Dialog::new(p, e);
    let t = reader_tune(&mut c.rng, &dir);
    decode_res_body(&mut d, &t).map_err(|e| Stop::Violation(format!("decode: {}", e)))?;
    c.count("decoded dialogs", 1);
    through(c, d)
}

/// Lists of decoded encodings as others may have spelled them.
fn spelled(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let d = dialog(&mut c.rng, &dir);
    let mut want = plain(&d)?;
    let mut rec = Record::try_from(d).map_err(|e| Stop::Violation(format!("to a record: {}", e)))?;
    let n = 1 + c.rng.usize(4);
    want.decoded = (0..n).map(|_| *c.rng.pick(&ENCODINGS)).collect();
    let mut s = String::new();
    for (i, e) in want.decoded.iter().enumerate() {
        if i > 0 { s.push(','); }
        let sp = |r: &mut Rng| *r.pick(&["", " ", "  ", "\t"]);
        s.push_str(sp(&mut c.rng));
        s.push_str(match e { Encoding::Chunked => "chunked", Encoding::Deflate => "deflate", Encoding::Gzip => "gzip", Encoding::Brotli => "br", Encoding::Compress => "compress", _ => "identity" });
        s.push_str(sp(&mut c.rng));
    }
    c.step(format!("decoded list spelled {:?}", s));
    rec.meta.insert("response-decoded", HeaderValue::from_str(&s).unwrap());
    let back = match Dialog::try_from(rec) { Ok(d) => d, Err(e) => return violation(format!("response-decoded {:?}: {}", s, e)) };
    compare(&format!("response-decoded {:?}", s), &back, &want)?;
    c.count("spellings accepted", 1);
    c.distinct_str(&s);
    Ok(())
}

/// Records that lack or garble what is needed.
fn garbled(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let d = dialog(&mut c.rng, &dir);
    let mut rec = Record::try_from(d).map_err(|e| Stop::Violation(format!("to a record: {}", e)))?;
    let field = *c.rng.pick(&["url", "method", "response-version", "response-status", "response-decoded"]);
    let lack = field != "response-decoded" && c.rng.chance(1, 3);
    let mut val = String::new();
    if lack { rec.meta.remove(field); } else {
        let v: &[u8] = match field {
            "url" => *c.rng.pick(&[&b""[..], b" ", b"http://a b/", b"http://", b"\xff\xfe", b"http://h:port:x/", b"http:///"]),
            "method" => *c.rng.pick(&[&b""[..], b"GE T", b"G\xffT", b"(GET)", b"GET,"]),
            "response-version" => *c.rng.pick(&[&b""[..], b"HTTP", b"HTTP/4.0", b"HTTP/1.2", b"http/1.1", b"1.1", b"HTTP/1.1x", b"\xff"]),
            "response-status" => *c.rng.pick(&[&b""[..], b"2", b"20", b"xyz", b"OK 200", b"099", b"\xff\xff\xff", b"2 0"]),
            _ => *c.rng.pick(&[&b""[..], b"gzip;", b"nope", b"gzip, nope", b"gzip gzip", b",", b"gzip,,br", b"\xff"]),
        };
        val = String::from_utf8_lossy(v).into_owned();
        rec.meta.insert(field, HeaderValue::from_bytes(v).unwrap());
    }
    c.step(format!("{} {} {:?}", if lack { "without" } else { "garbled" }, field, val));
    let r = match no_panic(|| Dialog::try_from(rec)) { Ok(r) => r, Err(p) => return violation(format!("{} {:?}: {}", field, val, p.show())) };
    use DialogConvertError::*;
    let ok = match &r {
        Ok(_) => false,
        Err(e) => match (field, lack, e) {
            ("url", true, NoMetaUrl) | ("method", true, NoMetaMethod) | ("response-version", true, NoMetaResVersion) | ("response-status", true, NoMetaResStatus) => true,
            ("url", false, InvalidUrl(_)) | ("method", false, InvalidMethod(_)) | ("response-version", false, InvalidVersion(_)) => true,
            ("response-status", false, MalformedMetaResStatus) | ("response-status", false, InvalidStatusCode(_)) | ("response-decoded", false, InvalidResDecoded(_)) => true,
            _ => false,
        },
    };
    ensure!(ok, "record with {} {} {:?} gave {:?}", field, if lack { "missing" } else { "set to" }, val, r.as_ref().map(|_| "a dialog").map_err(|e| e.to_string()));
    // Described in words too.
    if let Err(e) = r { ensure!(!e.to_string().is_empty(), "error without a description"); }
    c.count("garbled records refused", 1);
    c.distinct_str(&format!("{}{}{}", field, lack, val));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 15_000);
    x.run("random-dialogs", n, random);
    let n = x.tier(300, 3000);
    x.run("decoded-dialogs", n, decoded);
    let n = x.tier(600, 3000);
    x.run("garbled-records", n, garbled);
    let n = x.tier(200, 1500);
    x.run("spelled-lists", n, spelled);
    x.require("spellings accepted", 100);
    x.require("dialogs compared", 1000);
    x.require("decoded dialogs", 200);
    x.require("garbled records refused", 300);
    x.require("distinct decoded lists", 100);
}
