//! C24: stream buffers as byte sequences.
use std::io::{IoSlice, Read};

use blocking_permit::Splittable;
use body_image::{BodyImage, Tuner};
use body_image_futio::UniBodyBuf;
use bytes::{Buf, Bytes};

use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen::{self, State};
use crate::rng::{mix, Rng};

const ORIGINS: [&str; 8] = ["bytes", "slice of bytes", "RAM stream", "file stream", "mapped", "mapped file", "mapped slice", "split stream"];

/// Buffers of one origin with what they hold. The body is gone by then.
fn origin(r: &mut Rng, dir: &std::path::Path, max: u64) -> Result<(Vec<(UniBodyBuf, Vec<u8>)>, &'static str), Stop> {
    let k = r.usize(ORIGINS.len());
    let len = gen::len(r, max) as usize;
    of_length(r, dir, k, len)
}

fn of_length(r: &mut Rng, dir: &std::path::Path, k: usize, len: usize) -> Result<(Vec<(UniBodyBuf, Vec<u8>)>, &'static str), Stop> {
    let data = r.bytes(len);
    let st = match k {
        0 => return Ok((vec![(UniBodyBuf::from(Bytes::from(data.clone())), data)], ORIGINS[k])),
        1 => {
            let (a, b) = (r.usize(100), r.usize(100));
            let mut v = vec![0xEE; a];
            v.extend_from_slice(&data);
            v.extend(vec![0xDD; b]);
            return Ok((vec![(UniBodyBuf::from(Bytes::from(v).slice(a..a + len)), data)], ORIGINS[k]));
        }
        2 => *r.pick(&[State::RamOne, State::RamMany]),
        3 => *r.pick(&[State::FsRead, State::FsFile, State::FsSlice, State::FsFileLonger]),
        4 => State::MapFs,
        5 => State::MapFile,
        6 => State::MapSlice,
        _ => *r.pick(&gen::STATES),
    };
    let kind = if k == 7 { StreamKind::Split } else { *r.pick(&[StreamKind::Direct, StreamKind::Yield, StreamKind::Permit]) };
    let mut fs = gen::buf_size(r);
    while len / fs > 20 { fs = fs * 4 + 1; }
    let mut item = *r.pick(&[1usize, 2, 100, 4096]);
    while len / item > 20 { item = item * 4 + 1; }
    let tune = futio(Tuner::new().set_buffer_size_fs(fs).set_temp_dir(dir).finish(), Some(stream_policy(kind, semaphore(1))), item);
    let body: BodyImage = gen::body(r, st, &data, dir);
    let mut s = AnyStream::<UniBodyBuf>::new(kind, body, tune);
    let mut d = Driver::new(r.next(), Drive::Woken, false);
    let mut v = Vec::new();
    let mut at = 0;
    while let Ok(Some(x)) = d.run(|cx| s.poll(cx)) {
        let b = match x { Ok(b) => b, Err(e) => return violation(format!("stream over {:?}: {}", st, e)) };
        let n = b.remaining();
        ensure!(at + n <= len, "stream over {:?} delivers too much", st);
        v.push((b, data[at..at + n].to_vec()));
        at += n;
    }
    ensure!(at == len, "stream over {:?} delivers {} of {}", st, at, len);
    drop(s);
    Ok((v, ORIGINS[k]))
}

/// Everything that can be seen without consuming.
fn look(b: &UniBodyBuf, m: &[u8], what: &str) -> CaseResult {
    ensure!(b.remaining() == m.len(), "{}: {} remaining instead of {}", what, b.remaining(), m.len());
    ensure!(b.has_remaining() == !m.is_empty(), "{}: has_remaining {}", what, b.has_remaining());
    let c = b.chunk();
    ensure!(c == m, "{}: chunk: {}", what, diff(c, m));
    ensure!(&b[..] == m, "{}: slice: {}", what, diff(&b[..], m));
    ensure!(b.as_ref() == m, "{}: reference: {}", what, diff(b.as_ref(), m));
    ensure!(b.len() == m.len(), "{}: len {}", what, b.len());
    let mut io = [IoSlice::new(&[]), IoSlice::new(&[]), IoSlice::new(&[])];
    let n = b.chunks_vectored(&mut io);
    let v: Vec<u8> = io[..n].iter().flat_map(|s| s.to_vec()).collect();
    ensure!(v == m, "{}: chunks: {}", what, diff(&v, m));
    Ok(())
}

fn ops(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut bufs, org) = origin(&mut c.rng, &dir, 40_000)?;
    if bufs.is_empty() { bufs.push((UniBodyBuf::from(Bytes::new()), Vec::new())); }
    // The files behind mappings are gone too.
    for e in std::fs::read_dir(&dir)?.flatten() { let _ = std::fs::remove_file(e.path()); }
    let mut h = crate::rng::hash_bytes(org.as_bytes());
    let n = 5 + c.rng.usize(40);
    for _ in 0..n {
        if bufs.is_empty() { break; }
        let i = c.rng.usize(bufs.len());
        let op = c.rng.below(12);
        let len = bufs[i].1.len();
        let k = match c.rng.below(4) { 0 => len, 1 => c.rng.usize(len + 1), 2 => c.rng.usize(20.min(len) + 1), _ => len / 2 };
        let what = format!("{} buffer of {}, operation {} by {}", org, len, op, k);
        c.step(what.clone());
        h = mix(h ^ op << 32 ^ k as u64);
        c.count("operations", 1);
        let (b, m) = &mut bufs[i];
        match op {
            0 | 1 => { b.advance(k); m.drain(..k); }
            2 | 3 | 4 => {
                let max = k.max(1);
                let got = b.split_if(max);
                match got {
                    None => ensure!(m.len() <= max, "{}: not split", what),
                    Some(p) => {
                        ensure!(m.len() > max, "{}: split though within {}", what, max);
                        let n = p.remaining();
                        ensure!(n > 0 && n <= max, "{}: part of {} bytes", what, n);
                        let rest = m.split_off(n);
                        ensure!(!rest.is_empty() && b.remaining() > 0, "{}: an empty part", what);
                        look(&p, m, &what)?;
                        look(b, &rest, &what)?;
                        let head = std::mem::replace(m, rest);
                        bufs.push((p, head));
                        c.count("splits", 1);
                    }
                }
            }
            5 => { let mut v = vec![0xCC; k]; b.copy_to_slice(&mut v); ensure!(v[..] == m[..k], "{}: copied: {}", what, diff(&v, &m[..k])); m.drain(..k); }
            6 => { let v = b.copy_to_bytes(k); ensure!(v[..] == m[..k], "{}: copied: {}", what, diff(&v, &m[..k])); m.drain(..k); }
            7 => if len >= 8 {
                let x = b.get_u8();
                ensure!(x == m[0], "{}: byte", what);
                let y = b.get_u32_le();
                ensure!(y.to_le_bytes() == m[1..5], "{}: word", what);
                let z = b.get_u16();
                ensure!(z.to_be_bytes() == m[5..7], "{}: half word", what);
                m.drain(..7);
            },
            8 => {
                let mut v = vec![0u8; k];
                let got = b.reader().read(&mut v)?;
                ensure!(got == k && v[..] == m[..k], "{}: read {}", what, got);
                m.drain(..k);
            }
            9 => {
                let (b, m) = bufs.swap_remove(i);
                let v: Bytes = b.into();
                ensure!(v[..] == m[..], "{}: converted: {}", what, diff(&v, &m));
                // And back.
                let b = UniBodyBuf::from(v);
                look(&b, &m, &what)?;
                bufs.push((b, m));
                c.count("conversions", 1);
            }
            10 => {
                let (b, m) = bufs.swap_remove(i);
                let other = c.rng.bytes(30);
                let mut ch = b.chain(&other[..]);
                let v = ch.copy_to_bytes(m.len() + 30);
                ensure!(v[..m.len()] == m[..] && v[m.len()..] == other[..], "{}: chained", what);
                if bufs.is_empty() { break; }
                continue;
            }
            _ => { bufs.swap_remove(i); c.count("drops", 1); continue; }
        }
        let (b, m) = &bufs[i.min(bufs.len() - 1)];
        look(b, m, &what)?;
    }
    // Whatever is left still reads right, on another thread too.
    let what = format!("{} buffer at the end", org);
    let far = c.rng.chance(1, 8);
    if far {
        let t = std::thread::spawn(move || -> Result<(), String> {
            for (b, m) in bufs { if &b[..] != &m[..] || rest(b) != m { return Err(what.clone()); } }
            Ok(())
        });
        match t.join() { Ok(Ok(())) => {}, Ok(Err(e)) => return violation(format!("{} on another thread", e)), Err(_) => return violation("panic on another thread") }
    } else {
        for (b, m) in bufs { look(&b, &m, &what)?; let v = rest(b); ensure!(v == m, "{}: {}", what, diff(&v, &m)); }
    }
    c.in_set_str("origins", org);
    c.distinct(h);
    Ok(())
}

/// Cut a whole buffer into parts, as the splitting stream does.
fn cleave(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (bufs, org) = origin(&mut c.rng, &dir, 60_000)?;
    split_up(c, bufs, org)
}

/// Buffers of many mebibytes, most of them mapped.
fn large(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let k = [4, 5, 6, 4, 5, 6, 0, 2][c.index as usize % 8];
    let n = (17 << 20) + c.rng.usize(16 << 20);
    let (mut bufs, org) = of_length(&mut c.rng, &dir, k, n)?;
    // Converted as a whole, and what is left after consuming some.
    let (mut b, m) = bufs.remove(0);
    let a = c.rng.usize(m.len() / 8);
    b.advance(a);
    look(&b, &m[a..], org)?;
    let (other, _) = of_length(&mut Rng::new(mix(c.seed ^ 0x24)), &dir, k, n)?;
    for (o, w) in other { let v: Bytes = o.into(); ensure!(v[..] == w[..], "{} buffer of {} converted: {}", org, w.len(), diff(&v, &w)); }
    bufs.push((b, m[a..].to_vec()));
    c.count("large buffers", 1);
    split_up(c, bufs, org)
}

fn split_up(c: &mut Case<'_>, bufs: Vec<(UniBodyBuf, Vec<u8>)>, org: &'static str) -> CaseResult {
    for (mut b, m) in bufs {
        let max = match c.rng.below(5) { 0 => 1, 1 => m.len().max(1), 2 => m.len() / 2 + 1, 3 => (m.len() + 1).max(1), _ => 1 + c.rng.usize(m.len() + 1) }.max(m.len() / 500).max(1);
        let mut parts: Vec<UniBodyBuf> = Vec::new();
        while let Some(p) = b.split_if(max) { parts.push(p); }
        parts.push(b);
        let what = format!("{} buffer of {} split by {}", org, m.len(), max);
        let want = if m.is_empty() { 1 } else { (m.len() + max - 1) / max };
        ensure!(parts.len() >= want, "{}: {} parts", what, parts.len());
        let mut all = Vec::new();
        for p in &parts {
            ensure!(p.remaining() <= max && (p.remaining() > 0 || m.is_empty()), "{}: part of {}", what, p.remaining());
            all.extend_from_slice(p.chunk());
        }
        ensure!(all == m, "{}: {}", what, diff(&all, &m));
        // Disjoint: consuming one leaves the others.
        let k = c.rng.usize(parts.len());
        let n = parts[k].remaining();
        parts[k].advance(n);
        let mut at = 0;
        for (i, p) in parts.iter().enumerate() {
            let l = if i == k { n } else { p.remaining() };
            if i != k { ensure!(p.chunk() == &m[at..at + l], "{}: part {} after consuming {}", what, i, k); }
            at += l;
        }
        c.count("parts", parts.len() as u64);
        c.distinct_str(&what);
    }
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(4000, 40_000);
    x.run("operations", n, ops);
    let n = x.tier(600, 6000);
    x.run("cleave", n, cleave);
    let n = x.tier(8, 50);
    x.run("large", n, large);
    x.require("large buffers", 6);
    x.require("operations", 30_000);
    x.require("splits", 3000);
    x.require("conversions", 1000);
    x.require("distinct origins", 8);
}
