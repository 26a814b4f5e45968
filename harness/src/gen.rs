//! Generators shared by the property workloads.
use std::fs::File;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use body_image::{BodyImage, BodySink, Tunables, Tuner};
use http::header::{HeaderMap, HeaderName, HeaderValue};
use olio::fs::rc::ReadSlice;

use crate::interpose::quiet;
use crate::rng::Rng;

/// Lengths clustered around the places where behaviour changes.
pub fn len(r: &mut Rng, max: u64) -> u64 {
    let edge = [0u64, 1, 2, 3, 7, 63, 64, 65, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
        12288, 16384, 65535, 65536, 65537, 131072, 196607, 196608, 196609];
    let l = match r.below(10) {
        0..=4 => *r.pick(&edge),
        5 => r.below(16),
        6 => r.below(300),
        7 => r.below(5000),
        8 => r.below(40000),
        _ => r.below(max + 1),
    };
    l.min(max)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum State { Empty, RamOne, RamMany, FsRead, FsFile, FsFileLonger, FsSlice, MapFs, MapFile, MapSlice }

pub const STATES: [State; 10] = [State::Empty, State::RamOne, State::RamMany, State::FsRead, State::FsFile,
    State::FsFileLonger, State::FsSlice, State::MapFs, State::MapFile, State::MapSlice];

pub fn chunks(r: &mut Rng, data: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    let style = r.below(4);
    while i < data.len() {
        let n = match style {
            0 => 1 + r.usize(7),
            1 => 1 + r.usize(300),
            2 => 1 + r.usize(9000),
            _ => len(r, 70000).max(1) as usize,
        }.min(data.len() - i);
        // Keep the number of chunks reasonable for long bodies.
        let n = n.max(data.len() / 200).min(data.len() - i).max(1);
        v.push(data[i..i + n].to_vec());
        i += n;
        if r.chance(1, 8) { v.push(Vec::new()); }
    }
    if r.chance(1, 6) { v.insert(0, Vec::new()); }
    v
}

/// Build a body of exactly `data` in the given state. Empty data always
/// gives an empty body.
pub fn body(r: &mut Rng, st: State, data: &[u8], dir: &Path) -> BodyImage {
    if data.is_empty() {
        return if r.chance(1, 2) { BodyImage::empty() } else { BodySink::with_fs(dir).unwrap().prepare().unwrap() };
    }
    match st {
        State::Empty | State::RamOne => BodyImage::from_slice(data.to_vec()),
        State::RamMany => {
            let mut s = BodySink::with_ram(data.len() as u64);
            for c in chunks(r, data) { s.push(c).unwrap(); }
            s.prepare().unwrap()
        }
        State::FsRead | State::MapFs => {
            let mut s = BodySink::empty();
            let cs = chunks(r, data);
            let k = r.usize(cs.len() + 1);
            for (i, c) in cs.into_iter().enumerate() {
                if i == k { s.write_back(dir).unwrap(); }
                s.push(c).unwrap();
            }
            s.write_back(dir).unwrap();
            let mut b = s.prepare().unwrap();
            if st == State::MapFs { b.mem_map().unwrap(); }
            b
        }
        State::FsFile | State::FsFileLonger | State::MapFile => {
            let extra = if st == State::FsFileLonger || r.chance(1, 2) { len(r, 9000) as usize + 1 } else { 0 };
            let f = file_with(r, dir, 0, data, extra);
            let mut b = unsafe { BodyImage::from_file(f.1, data.len() as u64) };
            if st == State::MapFile { b.mem_map().unwrap(); }
            b
        }
        State::FsSlice | State::MapSlice => {
            let pre = slice_offset(r);
            let extra = len(r, 9000) as usize;
            let f = file_with(r, dir, pre, data, extra);
            let mut rs = ReadSlice::new(Arc::new(f.1), pre as u64, (pre + data.len()) as u64);
            // The position of the slice handed over is not part of the body.
            if r.chance(1, 4) {
                use std::io::Seek;
                rs.seek(std::io::SeekFrom::Start(r.below(data.len() as u64 + 1))).unwrap();
            }
            let mut b = unsafe { BodyImage::from_read_slice(rs) };
            if st == State::MapSlice { b.mem_map().unwrap(); }
            b
        }
    }
}

pub fn slice_offset(r: &mut Rng) -> usize {
    match r.below(5) {
        0 => 0,
        1 => 4096 * r.usize(4),
        2 => 1 + r.usize(64),
        3 => 4095 + r.usize(3),
        _ => r.usize(20000),
    }
}

/// A file with `pre` filler bytes, the data, then `extra` filler bytes. The
/// descriptor is opened outside the quiet section so that it can be observed.
pub fn file_with(r: &mut Rng, dir: &Path, pre: usize, data: &[u8], extra: usize) -> (PathBuf, File) {
    let mut p = dir.join(format!("src-{:x}", r.next()));
    // Never over a file that an earlier body may still be mapped from.
    while quiet(|| p.exists()) { p = dir.join(format!("src-{:x}", r.next())); }
    quiet(|| {
        let mut f = File::create(&p).unwrap();
        f.write_all(&vec![0xA5u8; pre]).unwrap();
        f.write_all(data).unwrap();
        f.write_all(&vec![0x5Au8; extra]).unwrap();
    });
    let f = File::open(&p).unwrap();
    (p, f)
}

/// A body beyond 32 bits in a file that is mostly a hole, and what is at some places of it.
pub struct Vast { pub path: PathBuf, pub body: BodyImage, pub len: u64, pub start: u64, pub want: Vec<(u64, Vec<u8>)> }

pub fn vast(r: &mut Rng, dir: &Path, whole: bool) -> std::io::Result<Vast> {
    use std::os::unix::fs::FileExt;
    let path = dir.join("vast");
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path)?;
    let len = (1u64 << 32) + r.below(1 << 20);
    let start = match r.below(3) { _ if whole => 0, 0 => 0, 1 => 4096 * r.below(1 << 21), _ => r.below(1 << 33) };
    let mut want: Vec<(u64, Vec<u8>)> = Vec::new();
    for i in 0..6 {
        let p = match i { 0 => 0, 1 => len - 8, 2 => (1u64 << 32) - 4, 3 => (1u64 << 31) - 4, _ => r.below(len - 8) };
        want.push((p, r.bytes(8)));
        f.write_all_at(&want[i].1, start + p)?;
    }
    // Some may overlap.
    f.set_len(start + len + r.below(3) * 5000)?;
    for (p, w) in &mut want { f.read_exact_at(w, start + *p)?; }
    let body = if whole { unsafe { BodyImage::from_file(f, len) } }
        else { unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(f), start, start + len)) } };
    Ok(Vast { path, body, len, start, want })
}

/// Tunables with thresholds near `around`, temp files in `dir`.
pub fn tune(r: &mut Rng, around: u64, dir: &Path) -> Tunables {
    let ram = match r.below(6) {
        0 => 0,
        1 => around,
        2 => around.saturating_sub(1 + r.below(3)),
        3 => around + 1 + r.below(3),
        4 => r.below(around + 2),
        _ => around + r.below(200_000),
    };
    let max = ram.max(around) + if r.chance(1, 2) { 0 } else { 1 + r.below(100_000) };
    // Or practically no limits.
    let (ram, max) = match r.below(24) { 0 => (ram, u64::MAX), 1 => { let m = *r.pick(&[1 << 40, 1 << 62, u64::MAX - 1, u64::MAX]); (m, m) } _ => (ram, max) };
    let mut t = Tuner::new();
    t.set_max_body_ram(ram).set_max_body(max).set_temp_dir(dir);
    t.set_buffer_size_ram(buf_size(r)).set_buffer_size_fs(buf_size(r));
    t.finish()
}

pub fn buf_size(r: &mut Rng) -> usize {
    *r.pick(&[1usize, 2, 7, 63, 64, 100, 512, 1000, 1023, 1024, 1025, 2048, 4096, 8192, 65536])
}

const NAMES: [&str; 16] = ["content-type", "x-a", "x-b", "set-cookie", "server", "date", "via", "accept",
    "x-very-long-header-name-that-goes-on-and-on-for-a-while", "etag", "1", "x!#$%&'*+-.^_`|~", "host", "vary", "link", "age"];

pub fn header_value(r: &mut Rng) -> HeaderValue {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 200 + r.usize(600), _ => 1 + r.usize(40) };
    let style = r.below(4);
    let mut v: Vec<u8> = (0..n).map(|_| match style {
        0 => 0x21 + r.usize(0x5e) as u8,
        1 => b"abc ,;=\"()\t"[r.usize(11)],
        2 => 0x80 + r.usize(0x80) as u8,
        _ => { let b = r.usize(256) as u8; if b == 127 || (b < 32 && b != 9) { b'z' } else { b } }
    }).collect();
    // HTTP disregards leading and trailing white space of a field value.
    while matches!(v.first(), Some(b' ') | Some(b'\t')) { v.remove(0); }
    while matches!(v.last(), Some(b' ') | Some(b'\t')) { v.pop(); }
    HeaderValue::from_bytes(&v).unwrap()
}

pub fn headers(r: &mut Rng) -> HeaderMap {
    let mut m = HeaderMap::new();
    let n = match r.below(10) { 0 | 1 => 0, 2 => 30 + r.usize(60), _ => 1 + r.usize(8) };
    for _ in 0..n {
        let name = if r.chance(3, 4) { HeaderName::from_bytes(r.pick(&NAMES).as_bytes()).unwrap() }
            else { HeaderName::from_bytes(format!("x-{:x}", r.below(1 << 20)).as_bytes()).unwrap() };
        let v = header_value(r);
        if m.contains_key(&name) && r.chance(1, 2) { continue; }
        m.append(name, v);
    }
    m
}

/// Name -> values in order, the comparison used for header maps.
pub fn canon(m: &HeaderMap) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<(String, Vec<Vec<u8>>)> = m.keys()
        .map(|k| (k.as_str().to_string(), m.get_all(k).iter().map(|x| x.as_bytes().to_vec()).collect()))
        .collect();
    v.sort();
    v
}

/// All bytes of a body through its reader.
pub fn read_all(b: &BodyImage) -> std::io::Result<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    b.reader().read_to_end(&mut v)?;
    Ok(v)
}
