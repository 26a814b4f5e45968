//! C23: encodings found in headers.
use body_image::Encoding;
use body_image_futio::{find_chunked, find_encodings};
use http::header::{HeaderMap, HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};

use crate::ctx::*;
use crate::rng::Rng;

/// What a name means, if anything.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Name { Chunked, Comp(Encoding), Other }

const NAMES: [(&str, Name); 15] = [
    ("chunked", Name::Chunked), ("gzip", Name::Comp(Encoding::Gzip)), ("x-gzip", Name::Comp(Encoding::Gzip)),
    ("deflate", Name::Comp(Encoding::Deflate)), ("br", Name::Comp(Encoding::Brotli)), ("compress", Name::Comp(Encoding::Compress)),
    ("identity", Name::Other), ("trailers", Name::Other), ("zstd", Name::Other), ("x-unknown", Name::Other),
    ("gzip2", Name::Other), ("chunked2", Name::Other), ("xgzip", Name::Other), ("b r", Name::Other), ("*", Name::Other),
];

pub fn spell(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 => s.to_ascii_uppercase(),
        1 => { let mut v: Vec<char> = s.chars().collect(); for x in v.iter_mut() { if r.chance(1, 2) { *x = x.to_ascii_uppercase(); } } v.into_iter().collect() }
        _ => s.to_string(),
    }
}

fn space(r: &mut Rng) -> &'static str { *r.pick(&["", "", " ", "  ", "\t", " \t "]) }

/// A header's values and the names they hold, in order.
fn side(r: &mut Rng, max: usize) -> (Vec<Vec<u8>>, Vec<Name>) {
    let mut vals = Vec::new();
    let mut names = Vec::new();
    for _ in 0..r.usize(max + 1) {
        let mut s = String::new();
        let n = r.usize(5);
        for i in 0..n {
            if i > 0 { s.push_str(space(r)); s.push(','); s.push_str(space(r)); }
            if r.chance(1, 8) { continue; } // an empty element
            let (t, m) = *r.pick(&NAMES);
            // Most are spelled in full.
            s.push_str(&spell(r, t));
            names.push(m);
        }
        if r.chance(1, 4) { s = format!("{}{}{}", space(r), s, space(r)); }
        vals.push(s.into_bytes());
    }
    (vals, names)
}

fn put(h: &mut HeaderMap, te: &[Vec<u8>], ce: &[Vec<u8>], r: &mut Rng) {
    // Interleaved with each other and with unrelated headers.
    let (mut i, mut j) = (0, 0);
    while i < te.len() || j < ce.len() {
        if r.chance(1, 5) { h.append(*r.pick(&["accept-encoding", "te", "vary", "content-type", "x-transfer-encoding"]), HeaderValue::from_static("gzip, chunked")); }
        if j >= ce.len() || (i < te.len() && r.chance(1, 2)) { h.append(TRANSFER_ENCODING, HeaderValue::from_bytes(&te[i]).unwrap()); i += 1; }
        else { h.append(CONTENT_ENCODING, HeaderValue::from_bytes(&ce[j]).unwrap()); j += 1; }
    }
}

fn last(v: &[Name]) -> Option<Encoding> {
    v.iter().rev().find_map(|n| if let Name::Comp(e) = n { Some(*e) } else { None })
}

fn judge(c: &mut Case<'_>, h: &HeaderMap, te: &[Name], ce: &[Name], what: &str) -> CaseResult {
    let mut want = Vec::new();
    let chunked = te.contains(&Name::Chunked);
    if chunked { want.push(Encoding::Chunked); }
    if let Some(e) = last(te).or_else(|| last(ce)) { want.push(e); }
    let got = find_encodings(h);
    ensure!(got == want, "{}: found {:?} instead of {:?}", what, got, want);
    let f = find_chunked(h);
    ensure!(f == chunked, "{}: chunked {} but {:?}", what, f, got);
    c.in_set_str("results", &format!("{:?}", want));
    c.count("header sets judged", 1);
    Ok(())
}

fn sets(c: &mut Case<'_>) -> CaseResult {
    for _ in 0..20 {
        let (te, tn) = side(&mut c.rng, 3);
        let (ce, cn) = side(&mut c.rng, 3);
        let mut h = HeaderMap::new();
        put(&mut h, &te, &ce, &mut c.rng);
        let show = |v: &Vec<Vec<u8>>| v.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>();
        let what = format!("transfer {:?} content {:?}", show(&te), show(&ce));
        c.step(what.clone());
        c.distinct_str(&what);
        judge(c, &h, &tn, &cn, &what)?;
    }
    Ok(())
}

/// Every list of up to three plain names in either header.
fn lists(c: &mut Case<'_>) -> CaseResult {
    let k = NAMES.len() as u64 + 1;
    let base = c.index * 64;
    for i in base..base + 64 {
        if i >= k * k * k * k { break; }
        let d = [i % k, i / k % k, i / k / k % k, i / k / k / k % k];
        let pick = |x: u64| if x == 0 { None } else { Some(NAMES[x as usize - 1]) };
        let t: Vec<_> = [d[0], d[1]].iter().filter_map(|x| pick(*x)).collect();
        let e: Vec<_> = [d[2], d[3]].iter().filter_map(|x| pick(*x)).collect();
        let mut h = HeaderMap::new();
        let join = |v: &[(&str, Name)]| v.iter().map(|x| x.0).collect::<Vec<_>>().join(", ");
        if !t.is_empty() { h.insert(TRANSFER_ENCODING, HeaderValue::from_str(&join(&t)).unwrap()); }
        if !e.is_empty() { h.insert(CONTENT_ENCODING, HeaderValue::from_str(&join(&e)).unwrap()); }
        let what = format!("transfer {:?} content {:?}", join(&t), join(&e));
        c.distinct_str(&what);
        judge(c, &h, &t.iter().map(|x| x.1).collect::<Vec<_>>(), &e.iter().map(|x| x.1).collect::<Vec<_>>(), &what)?;
    }
    Ok(())
}

/// Anything that can be a header value: no failure, and both answers agree.
fn malformed(c: &mut Case<'_>) -> CaseResult {
    for _ in 0..20 {
        let mut h = HeaderMap::new();
        let mut show = Vec::new();
        for name in [TRANSFER_ENCODING, CONTENT_ENCODING] {
            for _ in 0..c.rng.usize(4) {
                let n = c.rng.usize(30);
                let v: Vec<u8> = match c.rng.below(3) {
                    0 => (0..n).map(|_| *c.rng.pick(&[0x80u8, 0xff, b',', b';', b'=', b'"', b'g', b'z', b'i', b'p', b' ', 0xc3, 0xa9])).collect(),
                    1 => { let mut v = b"chunked, gzip".to_vec(); let i = c.rng.usize(v.len()); v[i] = *c.rng.pick(&[0xffu8, 0x80, b',', b' ', b';', b'\t']); v }
                    _ => spell(&mut c.rng, *["gzip;q=1.0", "chunked;x", "\"chunked\"", "gzip gzip", ",,,", "chunked,gzip,br", "Chunked"].get(n % 7).unwrap()).into_bytes(),
                };
                show.push(format!("{}: {}", name, String::from_utf8_lossy(&v)));
                h.append(name.clone(), HeaderValue::from_bytes(&v).unwrap());
            }
        }
        let what = format!("{:?}", show);
        c.step(what.clone());
        c.distinct_str(&what);
        let got = find_encodings(&h);
        let f = find_chunked(&h);
        ensure!(got.contains(&Encoding::Chunked) == f, "{}: chunked {} but {:?}", what, f, got);
        ensure!(got.len() <= 1 + f as usize, "{}: {:?}", what, got);
        ensure!(got.iter().skip(1).all(|e| *e != Encoding::Chunked), "{}: {:?}", what, got);
        ensure!(!got.contains(&Encoding::Identity), "{}: {:?}", what, got);
        c.count("malformed sets", 1);
    }
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1000, 20_000);
    x.run("sets", n, sets);
    let k = NAMES.len() as u64 + 1;
    let n = k * k * k * k / 64 + 1;
    x.run("lists", n, lists);
    let n = x.tier(500, 10_000);
    x.run("malformed", n, malformed);
    x.require("header sets judged", 50_000);
    x.require("malformed sets", 5000);
    x.require("distinct results", 10);
}
