//! C01: body byte fidelity in every state.
use std::io::{self, Read, Seek, SeekFrom, Write};

use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage};

use crate::ctx::*;
use crate::gen::{self, State, STATES};
use crate::rng::{hash_bytes, Rng};

/// Accepts an arbitrary, sometimes tiny, part of each write, and sometimes
/// reports an interruption, as any `Write` may.
pub struct Picky { pub got: Vec<u8>, pub rng: Rng, pub max: usize }

impl Write for Picky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.rng.chance(1, 9) { return Err(io::ErrorKind::Interrupted.into()); }
        let n = (1 + self.rng.usize(self.max)).min(b.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> CaseResult {
    ensure!(got == want, "{}: {}", what, diff(got, want));
    Ok(())
}

/// Read the body in one randomly chosen way and compare.
pub fn observe(c: &mut Case<'_>, b: &BodyImage, want: &[u8]) -> CaseResult {
    ensure!(b.len() == want.len() as u64, "len() is {}, {} bytes were appended", b.len(), want.len());
    ensure!(b.is_empty() == want.is_empty(), "is_empty() is {} for {} bytes", b.is_empty(), want.len());
    let way = c.rng.below(6);
    c.count("reads compared", 1);
    match way {
        0 => {
            let got = gen::read_all(b).map_err(|e| Stop::Violation(format!("read_to_end failed: {}", e)))?;
            same("read_to_end", &got, want)
        }
        1 => {
            let mut rd = b.reader();
            let mut got = Vec::new();
            let max = *c.rng.pick(&[1usize, 3, 64, 1000, 4096, 8192, 70000]);
            let max = max.max(want.len() / 500);
            let mut buf = vec![0xEEu8; max];
            loop {
                let n = 1 + c.rng.usize(max);
                let k = rd.read(&mut buf[..n]).map_err(|e| Stop::Violation(format!("read failed: {}", e)))?;
                ensure!(k <= n, "read of {} returned {}", n, k);
                if k == 0 { break; }
                got.extend_from_slice(&buf[..k]);
                ensure!(got.len() <= want.len(), "read past the end of the body: {} > {}", got.len(), want.len());
            }
            for _ in 0..2 {
                let k = rd.read(&mut buf[..1]).map_err(|e| Stop::Violation(format!("read at end failed: {}", e)))?;
                ensure!(k == 0, "read returned data after the end");
            }
            // A zero-sized read never fails.
            ensure!(rd.read(&mut []).map(|n| n == 0).unwrap_or(false), "zero-sized read");
            same("sized reads", &got, want)
        }
        2 => seeks(c, b.reader(), want),
        3 => {
            let mut v = Vec::new();
            let n = b.write_to(&mut v).map_err(|e| Stop::Violation(format!("write_to failed: {}", e)))?;
            ensure!(n == want.len() as u64, "write_to returned {} for {} bytes", n, want.len());
            same("write_to", &v, want)
        }
        4 => {
            let seed = c.rng.next();
            let max = (1 + c.rng.usize(5000)).max(want.len() / 300);
            let mut w = Picky { got: Vec::new(), rng: Rng::new(seed), max };
            let n = b.write_to(&mut w).map_err(|e| Stop::Violation(format!("write_to(partial writer) failed: {}", e)))?;
            ensure!(n == want.len() as u64, "write_to returned {} for {} bytes", n, want.len());
            same("write_to(partial writer)", &w.got, want)
        }
        _ => {
            exploded(b.clone(), want)
        }
    }
}

/// Consume the body and compare its parts.
fn exploded(bc: BodyImage, want: &[u8]) -> CaseResult {
    let st = (bc.is_ram(), bc.is_mem_map());
    match bc.explode() {
        ExplodedImage::Ram(v) => {
            ensure!(st.0, "explode gave Ram for a body not in RAM");
            let mut got = Vec::new();
            for x in v { got.extend_from_slice(&x); }
            same("explode Ram", &got, want)
        }
        ExplodedImage::FsRead(mut rs) => {
            ensure!(!st.0 && !st.1, "explode gave FsRead for {:?}", st);
            ensure!(rs.len() == want.len() as u64, "exploded slice length {} for {}", rs.len(), want.len());
            let mut got = Vec::new();
            rs.read_to_end(&mut got).map_err(|e| Stop::Violation(format!("exploded read: {}", e)))?;
            same("explode FsRead", &got, want)
        }
        ExplodedImage::MemMap(m) => {
            ensure!(st.1, "explode gave MemMap for {:?}", st);
            same("explode MemMap", &m, want)
        }
        #[allow(unreachable_patterns)]
        _ => Ok(()),
    }
}

fn seeks(c: &mut Case<'_>, rd: BodyReader<'_>, want: &[u8]) -> CaseResult {
    fn go<T: Read + Seek>(c: &mut Case<'_>, mut t: T, want: &[u8]) -> CaseResult {
        let n = want.len() as i64;
        let mut pos: i64 = 0;
        for _ in 0..12 {
            let (from, target) = match c.rng.below(4) {
                0 => { let x = c.rng.below(n as u64 + 1) as i64; (SeekFrom::Start(x as u64), x) }
                1 => { let x = c.rng.below(n as u64 + 1) as i64; (SeekFrom::End(-x), n - x) }
                _ => { let x = c.rng.below(n as u64 + 1) as i64; (SeekFrom::Current(x - pos), x) }
            };
            let at = t.seek(from).map_err(|e| Stop::Violation(format!("seek {:?}: {}", from, e)))?;
            ensure!(at as i64 == target, "seek {:?} from {} gave {}", from, pos, at);
            pos = target;
            let k = c.rng.usize(5000) + 1;
            let mut buf = vec![0xEE; k];
            let r = t.read(&mut buf).map_err(|e| Stop::Violation(format!("read after seek: {}", e)))?;
            ensure!(r > 0 || pos == n, "no data at {} of {}", pos, n);
            ensure!(pos as usize + r <= want.len(), "read past end after seek");
            same("read after seek", &buf[..r], &want[pos as usize..pos as usize + r])?;
            pos += r as i64;
        }
        c.count("seeks compared", 12);
        Ok(())
    }
    match rd {
        BodyReader::Contiguous(cur) => {
            same("contiguous slice", cur.get_ref(), want)?;
            go(c, cur, want)
        }
        BodyReader::FileSlice(rs) => go(c, rs, want),
        mut g => {
            let mut v = Vec::new();
            g.read_to_end(&mut v).map_err(|e| Stop::Violation(format!("gathering read: {}", e)))?;
            same("gathering read", &v, want)
        }
    }
}

/// Random append history, then random image operations on a set of clones.
#[allow(deprecated)]
fn history(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let (mut sink, mut ram) = match c.rng.below(5) {
        0 => (BodySink::empty(), true),
        1 => (BodySink::default(), true),
        2 => (BodySink::with_ram(gen::len(&mut c.rng, 100_000)), true),
        3 => (BodySink::with_ram_buffers(c.rng.usize(20)), true),
        _ => (BodySink::with_fs(&dir).map_err(|e| Stop::Violation(format!("with_fs: {}", e)))?, false),
    };
    let mut model: Vec<u8> = Vec::new();
    let n = c.rng.usize(14);
    let mut sig = String::new();
    for _ in 0..n {
        let l = gen::len(&mut c.rng, 70_000) as usize;
        let data = c.rng.bytes(l);
        let op = c.rng.below(5);
        let r = match op {
            0 => sink.push(data.clone()).map_err(|e| e.to_string()),
            1 => sink.push(bytes::Bytes::from(data.clone())).map_err(|e| e.to_string()),
            2 => sink.write_all(&data).map_err(|e| e.to_string()),
            3 => sink.save(data.clone()).map_err(|e| e.to_string()),
            _ => sink.write_back(&dir).map(|_| ()).map_err(|e| e.to_string()),
        };
        c.step(format!("op{} len {}", op, l));
        sig.push_str(&format!("{}{}", op, (l > 0) as u8));
        if let Err(e) = r { return violation(format!("append failed: {}", e)); }
        if op == 4 { ram = false } else { model.extend_from_slice(&data) }
        c.count("appends", 1);
        ensure!(sink.len() == model.len() as u64, "sink len {} after appending {}", sink.len(), model.len());
        ensure!(sink.is_empty() == model.is_empty(), "sink is_empty");
        ensure!(sink.is_ram() == ram, "sink is_ram() {} but expected {}", sink.is_ram(), ram);
    }
    let img = sink.prepare().map_err(|e| Stop::Violation(format!("prepare: {}", e)))?;
    ensure!(img.is_ram() == (ram || model.is_empty()), "prepared state: is_ram {}", img.is_ram());
    images(c, vec![img], &model, sig)
}

/// Random operations on clones of one body.
fn images(c: &mut Case<'_>, mut imgs: Vec<BodyImage>, model: &[u8], mut sig: String) -> CaseResult {
    let n = 4 + c.rng.usize(10);
    for _ in 0..n {
        let i = c.rng.usize(imgs.len());
        let op = c.rng.below(8);
        sig.push_str(&format!("/{}", op));
        match op {
            0 => {
                let was_ram = imgs[i].is_ram();
                let r = imgs[i].mem_map();
                if let Err(e) = r { return violation(format!("mem_map: {}", e)); }
                ensure!(imgs[i].is_mem_map() == !was_ram, "mem_map of ram={} gave mapped={}", was_ram, imgs[i].is_mem_map());
                c.count("mem_map calls", 1);
            }
            1 => {
                let before = (imgs[i].is_ram(), imgs[i].is_mem_map());
                imgs[i].gather();
                ensure!(before == (imgs[i].is_ram(), imgs[i].is_mem_map()), "gather changed the state");
                if before.0 {
                    match imgs[i].reader() {
                        BodyReader::Contiguous(_) => {}
                        _ => return violation("not contiguous after gather"),
                    }
                }
                c.count("gather calls", 1);
            }
            2 if imgs.len() < 6 => { let b = imgs[i].clone(); imgs.push(b); c.count("clones", 1); }
            3 if imgs.len() > 1 => { imgs.swap_remove(i); }
            _ => observe(c, &imgs[i].clone(), model)?,
        }
        c.step(format!("image op{} on {}", op, i));
    }
    for b in &imgs { observe(c, b, model)?; }
    // Whatever happened to the clones, one more complete look at the first,
    // which may be the original, and then take it apart.
    let last = imgs.swap_remove(0);
    drop(imgs);
    observe(c, &last, model)?;
    exploded(last, model)?;
    c.distinct(hash_bytes(sig.as_bytes()) ^ hash_bytes(model));
    Ok(())
}

/// Bodies built directly in each state, file lengths and slice offsets
/// around page boundaries.
fn states(c: &mut Case<'_>) -> CaseResult {
    let st = STATES[(c.index as usize) % STATES.len()];
    let l = gen::len(&mut c.rng, 200_000) as usize;
    let data = if st == State::Empty { Vec::new() } else { c.rng.bytes(l) };
    let dir = c.dir.clone();
    let b = gen::body(&mut c.rng, st, &data, &dir);
    c.step(format!("{:?} len {}", st, data.len()));
    c.in_set_str("state x size class", &format!("{:?}/{}", st, (data.len() as f64 + 1.0).log2() as u32));
    images(c, vec![b], &data, format!("{:?}", st))
}

/// Bodies of very many small buffers.
fn scattered(c: &mut Case<'_>) -> CaseResult {
    let n = 500 + c.rng.usize(6000);
    let most = 1 + c.rng.usize(20);
    let spill = match c.rng.below(3) { 0 => Some(c.rng.usize(n + 1)), _ => None };
    let dir = c.dir.clone();
    let mut sink = BodySink::empty();
    let mut model = Vec::new();
    for i in 0..n {
        if spill == Some(i) { sink.write_back(&dir).map_err(|e| Stop::Violation(format!("write_back: {}", e)))?; }
        let l = c.rng.usize(most + 1);
        let b = c.rng.bytes(l);
        model.extend_from_slice(&b);
        sink.push(b).map_err(|e| Stop::Violation(format!("append failed: {}", e)))?;
    }
    if spill == Some(n) { sink.write_back(&dir).map_err(|e| Stop::Violation(format!("write_back: {}", e)))?; }
    c.step(format!("{} buffers of up to {}, to a file at {:?}", n, most, spill));
    c.count("appends", n as u64);
    let img = sink.prepare().map_err(|e| Stop::Violation(format!("prepare: {}", e)))?;
    images(c, vec![img], &model, format!("{}/{}/{:?}", n, most, spill))
}

/// Counts what it is given and keeps some parts of it.
struct Marks<'a> { at: u64, want: &'a [(u64, Vec<u8>)], got: Vec<Vec<u8>> }

impl Write for Marks<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let (s, e) = (self.at, self.at + b.len() as u64);
        for (i, (p, w)) in self.want.iter().enumerate() {
            let (x, y) = (s.max(*p), e.min(p + w.len() as u64));
            if x < y { self.got[i].extend_from_slice(&b[(x - s) as usize..(y - s) as usize]); }
        }
        self.at = e;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Bodies beyond 32 bits, in files that are mostly holes.
fn vast(c: &mut Case<'_>) -> CaseResult {
    let whole = c.index & 2 != 0;
    let dir = c.dir.clone();
    let gen::Vast { path, mut body, len, start, want } = gen::vast(&mut c.rng, &dir, whole)?;
    let b = &mut body;
    let mapped = c.index & 1 != 0;
    if mapped { b.mem_map().map_err(|e| Stop::Violation(format!("mapping {}: {}", len, e)))?; }
    c.step(format!("{} bytes at {}, mapped {}", len, start, mapped));
    let b = body.clone();
    ensure!(b.len() == len, "length {} for {}", b.len(), len);
    fn look<T: Read + Seek>(mut t: T, want: &[(u64, Vec<u8>)], len: u64) -> CaseResult {
        for (p, w) in want {
            let mut g = vec![0u8; 8];
            t.seek(SeekFrom::Start(*p)).and_then(|_| t.read_exact(&mut g)).map_err(|e| Stop::Violation(format!("8 bytes at {} of {}: {}", p, len, e)))?;
            ensure!(&g == w, "{:?} at {} instead of {:?}", g, p, w);
        }
        let e = t.seek(SeekFrom::End(0)).map_err(|e| Stop::Violation(format!("seek to the end: {}", e)))?;
        ensure!(e == len, "end at {} instead of {}", e, len);
        ensure!(t.read(&mut [0]).map(|n| n == 0).unwrap_or(false), "data behind the end");
        Ok(())
    }
    match b.reader() {
        BodyReader::FileSlice(s) => look(s, &want, len)?,
        BodyReader::Contiguous(s) => look(s, &want, len)?,
        _ => return violation("a file read in parts"),
    }
    let mut m = Marks { at: 0, want: &want, got: vec![Vec::new(); want.len()] };
    let n = b.write_to(&mut m).map_err(|e| Stop::Violation(format!("write_to: {}", e)))?;
    ensure!(n == len && m.at == len, "write_to of {} wrote {} and returned {}", len, m.at, n);
    for (g, (p, w)) in m.got.iter().zip(&want) { ensure!(g == w, "write_to gave {:?} at {} instead of {:?}", g, p, w); }
    match b.explode() {
        ExplodedImage::FsRead(s) => { ensure!(!mapped && s.len() == len, "exploded to {} for {}", s.len(), len); look(s, &want, len)? }
        ExplodedImage::MemMap(s) => { ensure!(mapped && s.len() as u64 == len, "exploded to {} for {}", s.len(), len); look(io::Cursor::new(&s[..]), &want, len)? }
        _ => return violation("a file exploded to RAM"),
    }
    c.count("bodies beyond 32 bits compared", 1);
    std::fs::remove_file(&path)?;
    c.distinct(len ^ start);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1500, 12000);
    x.run("append-history", n, history);
    x.run("direct-states", n, states);
    let n = x.tier(60, 600);
    x.run("many-buffers", n, scattered);
    // The interpreter and the sanitizers have no use for these.
    if cfg!(feature = "interpose") {
        let n = x.tier(4, 24);
        x.run("vast-bodies", n, vast);
        x.require("bodies beyond 32 bits compared", 4);
    }
    x.require("reads compared", 1000);
    x.require("mem_map calls", 100);
    x.require("seeks compared", 100);
    x.require("distinct state x size class", 20);
}
