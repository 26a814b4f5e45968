//! C05: file operation faults under bodies.
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use body_image::{BodyImage, BodySink, Tunables};
use bytes::Bytes;

use super::c02::Source;
use crate::ctx::*;
use crate::gen::{self, State};
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault { NoSpace, Io, Interrupt, Short(usize), ShortThenNoSpace(usize),
    /// From here on files only grow by this many bytes more.
    Full(usize) }

pub const FAULTS: [Fault; 9] = [Fault::NoSpace, Fault::Io, Fault::Interrupt, Fault::Short(0), Fault::Short(1), Fault::Short(3), Fault::ShortThenNoSpace(2),
    Fault::Full(0), Fault::Full(5)];

/// Bytes a write of `e` adds to its file, and what it overwrites before that.
fn growth(e: &Event) -> (usize, usize) {
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat64(e.fd, &mut st) } != 0 { return (e.len, 0); }
    let size = st.st_size.max(0) as u64;
    let append = unsafe { libc::fcntl(e.fd, libc::F_GETFL) } & libc::O_APPEND != 0;
    let pos = if append { size }
        else if e.op == Op::Pwrite { e.off.max(0) as u64 }
        else { unsafe { libc::lseek64(e.fd, 0, libc::SEEK_CUR) }.max(0) as u64 };
    let over = size.saturating_sub(pos).min(e.len as u64) as usize;
    (e.len - over, over)
}

fn faultable(op: Op) -> bool {
    !matches!(op, Op::Close | Op::Munmap | Op::Dup)
}

/// Injects one fault at the n-th operation; counts operations.
pub struct Plan {
    pub at: u64,
    pub fault: Fault,
    pub seen: AtomicU64,
    pub fired: AtomicBool,
    pub follow: AtomicBool,
    pub budget: AtomicU64,
    pub overrun: AtomicBool,
    /// Room left once the disk is nearly full.
    pub room: AtomicU64,
    pub lifted: AtomicBool,
    pub ops: Mutex<Vec<Op>>,
}

impl Plan {
    pub fn new(at: u64, fault: Fault, budget: u64) -> Arc<Plan> {
        Arc::new(Plan { at, fault, seen: AtomicU64::new(0), fired: AtomicBool::new(false), follow: AtomicBool::new(false),
            budget: AtomicU64::new(budget), overrun: AtomicBool::new(false),
            room: AtomicU64::new(match fault { Fault::Full(k) => k as u64, _ => 0 }), lifted: AtomicBool::new(false), ops: Mutex::new(Vec::new()) })
    }

    pub fn hook(self: &Arc<Self>) -> interpose::Hook {
        let p = self.clone();
        Arc::new(move |e: &Event| p.on(e))
    }

    fn on(&self, e: &Event) -> Action {
        if e.phase != Phase::Before || !faultable(e.op) { return Action::Go; }
        let n = self.seen.fetch_add(1, SeqCst);
        if n > self.budget.load(SeqCst) {
            // A call that never gets anywhere: end it.
            self.overrun.store(true, SeqCst);
            return Action::Fail(libc::EIO);
        }
        if self.at == u64::MAX {
            let mut v = self.ops.lock().unwrap();
            if v.len() < 100_000 { v.push(e.op); }
            return Action::Go;
        }
        if let Fault::Full(_) = self.fault {
            if n < self.at || self.lifted.load(SeqCst) || !matches!(e.op, Op::Write | Op::Pwrite | Op::Copy) { return Action::Go; }
            let (grow, over) = growth(e);
            let room = self.room.load(SeqCst) as usize;
            if grow <= room { self.room.store((room - grow) as u64, SeqCst); return Action::Go; }
            self.fired.store(true, SeqCst);
            self.room.store(0, SeqCst);
            return if room + over > 0 { Action::Short(room + over) } else { Action::Fail(libc::ENOSPC) };
        }
        if self.follow.swap(false, SeqCst) { return Action::Fail(libc::ENOSPC); }
        if n != self.at { return Action::Go; }
        self.fired.store(true, SeqCst);
        let data = matches!(e.op, Op::Read | Op::Pread | Op::Write | Op::Pwrite | Op::Copy);
        match self.fault {
            Fault::NoSpace => Action::Fail(libc::ENOSPC),
            Fault::Io => Action::Fail(libc::EIO),
            Fault::Interrupt => Action::Fail(libc::EINTR),
            // A short transfer of at least one byte (zero would mean the end).
            Fault::Short(k) if data => Action::Short((if k == 0 { e.len / 2 } else { k }).max(1)),
            Fault::ShortThenNoSpace(k) if data && matches!(e.op, Op::Write | Op::Pwrite | Op::Copy) => {
                self.follow.store(true, SeqCst);
                Action::Short(k)
            }
            _ => Action::Fail(libc::EIO),
        }
    }

    /// Space was made.
    pub fn lift(&self) { self.lifted.store(true, SeqCst); }
}

/// What one replayed history reported. `steps` is compared between fault-free
/// and faulty runs only through the model inside `history`.
struct Outcome { errors: u64, compared: u64, ops: Vec<Op> }

fn expect(r: Result<Vec<u8>, String>, want: &[u8], what: &str, errors: &mut u64, compared: &mut u64) -> CaseResult {
    match r {
        Ok(got) => { ensure!(got == want, "{}: {}", what, diff(&got, want)); *compared += 1; Ok(()) }
        Err(_) => { *errors += 1; Ok(()) }
    }
}

fn read_all(b: &BodyImage) -> Result<Vec<u8>, String> { gen::read_all(b).map_err(|e| e.to_string()) }

fn copy_all(b: &BodyImage) -> Result<Result<Vec<u8>, String>, Stop> {
    let mut v = Vec::new();
    match b.write_to(&mut v) {
        Ok(n) if n == v.len() as u64 => Ok(Ok(v)),
        Ok(n) => violation(format!("copy-out reported {} and copied {}", n, v.len())),
        Err(e) => Ok(Err(e.to_string())),
    }
}

/// Everything a body offers, each either right or an error.
fn use_body(r: &mut Rng, b: BodyImage, want: &[u8], out: &Path, e: &mut u64, n: &mut u64) -> CaseResult {
    ensure!(b.len() == want.len() as u64, "body length {} instead of {}", b.len(), want.len());
    let mut b = b;
    for _ in 0..3 {
        match r.below(6) {
            0 => expect(read_all(&b), want, "reader", e, n)?,
            1 => expect(copy_all(&b)?, want, "copy-out", e, n)?,
            2 => {
                let was = b.is_mem_map();
                match b.mem_map() {
                    Ok(_) => {}
                    Err(_) => {
                        *e += 1;
                        ensure!(!b.is_mem_map() || was, "failed mapping reported as mapped");
                    }
                }
                ensure!(b.len() == want.len() as u64, "length {} after mapping", b.len());
            }
            3 => {
                // Copy into a file, as archives do.
                let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(out)
                    .map_err(|x| Stop::Violation(x.to_string()));
                if let Ok(ref mut f) = f {
                    let res = b.write_to(f);
                    let got = interpose::quiet(|| std::fs::read(out));
                    match res {
                        Ok(k) => {
                            let got = got?;
                            ensure!(k == want.len() as u64 && got == want, "copy to file claims {}: {}", k, diff(&got, want));
                            *n += 1;
                        }
                        Err(_) => *e += 1,
                    }
                } else { *e += 1; }
            }
            4 => {
                let at = r.below(want.len() as u64 + 1);
                let mut rd = b.reader();
                if let body_image::BodyReader::FileSlice(ref mut rs) = rd {
                    let res = rs.seek(SeekFrom::Start(at)).and_then(|_| { let mut v = Vec::new(); rs.read_to_end(&mut v).map(|_| v) });
                    expect(res.map_err(|x| x.to_string()), &want[at as usize..], "seek and read", e, n)?;
                }
            }
            _ => { let c = b.clone(); expect(read_all(&c), want, "clone", e, n)?; b.gather(); }
        }
    }
    // After any error the content is still there.
    expect(copy_all(&b)?, want, "copy-out", e, n)?;
    expect(read_all(&b), want, "reader", e, n)
}

/// One deterministic history under `plan`.
fn history(seed: u64, dir: &Path, plan: &Arc<Plan>, kind: u64) -> Result<Outcome, Stop> {
    let mut r = Rng::new(seed);
    let (mut e, mut n) = (0u64, 0u64);
    let len = gen::len(&mut r, 20_000) as usize;
    let data = r.bytes(len);
    let out = dir.join("out");
    let _w = interpose::watch(&[dir], plan.hook());
    match kind {
        0 => {
            // A sink history; a failed append is not part of the body.
            let mut s = match r.below(3) {
                0 => match BodySink::with_fs(dir) { Ok(s) => s, Err(_) => return Ok(Outcome { errors: 1, compared: 0, ops: Vec::new() }) },
                1 => BodySink::with_ram(len as u64),
                _ => BodySink::empty(),
            };
            let mut model: Vec<u8> = Vec::new();
            let parts = gen::chunks(&mut r, &data);
            let spill = r.usize(parts.len() + 1);
            for (i, p) in parts.iter().enumerate() {
                if i == spill {
                    let was_ram = s.is_ram();
                    match s.write_back(dir) {
                        Ok(_) => ensure!(!s.is_ram() && s.len() == model.len() as u64, "spilled sink has length {} of {}", s.len(), model.len()),
                        Err(_) => {
                            e += 1;
                            ensure!(was_ram, "spill of a file backed sink failed");
                            ensure!(s.is_ram() && s.len() == 0 && s.is_empty(), "failed spill left length {} ram {}", s.len(), s.is_ram());
                            model.clear();
                        }
                    }
                }
                let res = if r.chance(1, 2) { s.push(Bytes::from(p.clone())) } else { s.write_all(p) };
                match res {
                    Ok(()) => model.extend_from_slice(p),
                    Err(_) => e += 1,
                }
                ensure!(s.len() == model.len() as u64, "sink length {} after {} bytes were accepted", s.len(), model.len());
            }
            match s.prepare() {
                Ok(b) => use_body(&mut r, b, &model, &out, &mut e, &mut n)?,
                Err(_) => e += 1,
            }
        }
        1 => {
            let tune: Tunables = gen::tune(&mut r, len as u64, dir);
            let est = r.below(2 * len as u64 + 2);
            let mut src = Source::new(data.clone(), Rng::new(seed ^ 5), 2);
            match BodyImage::read_from(&mut src, est, &tune) {
                Ok(b) => use_body(&mut r, b, &data, &out, &mut e, &mut n)?,
                Err(_) => e += 1,
            }
        }
        2 => {
            // Bodies over existing files; built unobserved.
            let st = *r.pick(&[State::FsRead, State::FsFile, State::FsFileLonger, State::FsSlice]);
            let b = {
                let p = plan.clone();
                let keep = p.seen.load(SeqCst);
                interpose::set_hook(Arc::new(|_| Action::Go));
                let b = gen::body(&mut r, st, &data, dir);
                p.seen.store(keep, SeqCst);
                interpose::set_hook(plan.hook());
                b
            };
            use_body(&mut r, b, &data, &out, &mut e, &mut n)?;
        }
        3 => {
            // Response decoding into a file.
            let comp = super::c03::compress(body_image::Encoding::Gzip, 4, &data);
            let mut h = http::HeaderMap::new();
            h.insert(http::header::CONTENT_ENCODING, "gzip".parse().unwrap());
            let tune = gen::tune(&mut r, len as u64, dir);
            let mut dl = super::c03::dialog(h, BodyImage::from_slice(comp.clone()));
            use body_image::Recorded;
            match body_image_futio::decode_res_body(&mut dl, &tune) {
                Ok(_) => { let b = dl.res_body().clone(); use_body(&mut r, b, &data, &out, &mut e, &mut n)? }
                Err(_) => {
                    e += 1;
                    let got = read_all(dl.res_body());
                    ensure!(got.as_ref() == Ok(&comp), "failed decode changed the body");
                }
            }
        }
        4 => {
            // Reading records whose bodies go to temporary files.
            use barc::*;
            let path = dir.join("a.barc");
            let f = BarcFile::new(&path);
            let req = r.bytes(len / 3);
            let mut hd = http::HeaderMap::new();
            hd.insert(http::header::CONTENT_TYPE, "text/plain".parse().unwrap());
            let rec = Record { rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: hd.clone(), res_headers: hd,
                req_body: BodyImage::from_slice(req.clone()), res_body: BodyImage::from_slice(data.clone()) };
            let mode = r.below(3);
            interpose::quiet(|| {
                let mut w = f.writer().unwrap();
                match mode {
                    0 => w.write(&rec, &NoCompressStrategy::default()),
                    1 => w.write(&rec, &GzipCompressStrategy::default().set_min_len(0).set_check_identity(false)),
                    _ => w.write(&rec, &BrotliCompressStrategy::default().set_min_len(0).set_check_identity(false)),
                }.unwrap();
            });
            let tune = gen::tune(&mut r, len as u64 / 2, dir);
            let mut tb = body_image::Tuner::new();
            tb.set_max_body_ram(tune.max_body_ram()).set_max_body(tune.max_body_ram().max(1 << 30)).set_temp_dir(dir)
                .set_buffer_size_ram(tune.buffer_size_ram()).set_buffer_size_fs(tune.buffer_size_fs());
            let tune = tb.finish();
            let mut rd = match f.reader() { Ok(x) => x, Err(_) => return Ok(Outcome { errors: 1, compared: 0, ops: Vec::new() }) };
            for _ in 0..2 {
                use body_image::{Recorded, RequestRecorded};
                match rd.read(&tune) {
                    Ok(Some(x)) => {
                        let b = x.req_body().clone();
                        use_body(&mut r, b, &req, &out, &mut e, &mut n)?;
                        let b = x.res_body().clone();
                        use_body(&mut r, b, &data, &out, &mut e, &mut n)?;
                        break;
                    }
                    Ok(None) => return violation("record missing under a read fault"),
                    Err(_) => { e += 1; }
                }
            }
        }
        _ => {
            // Streams and sinks.
            use crate::exec::{Drive, Driver};
            use crate::flow::*;
            let tune = gen::tune(&mut r, len as u64, dir);
            let k = *r.pick(&SINKS);
            let (p, _) = pool(&mut r);
            let _reg = register(p);
            let sem = semaphore(1);
            let ft = futio(tune.clone(), Some(sink_policy(k, sem)), 1 + r.usize(9000));
            let mut s = AnySink::<Bytes>::new(k, BodySink::empty(), ft.clone());
            let items: Vec<Bytes> = gen::chunks(&mut r, &data).into_iter().map(Bytes::from).collect();
            let mut d = Driver::new(r.next(), Drive::Woken, alone_sink(k));
            let b = match s.send_all(items, &mut d) {
                Err(_) => return violation("sink pending without a wake-up under a fault"),
                Ok(Err(_)) => { e += 1; None }
                Ok(Ok(())) => match s.into_inner().prepare() { Ok(b) => Some(b), Err(_) => { e += 1; None } },
            };
            if let Some(mut b) = b {
                ensure!(b.len() == len as u64, "sink accepted {} of {}", b.len(), len);
                if r.chance(1, 3) && b.mem_map().is_err() { e += 1; }
                let k = *r.pick(&STREAMS);
                let ft = futio(tune, Some(stream_policy(k, sem)), 1 + r.usize(9000));
                let mut st = AnyStream::<body_image_futio::UniBodyBuf>::new(k, b, ft);
                let mut d = Driver::new(r.next(), Drive::Woken, alone_stream(k));
                let mut got = Vec::new();
                loop {
                    match d.run(|cx| st.poll(cx)) {
                        Err(_) => return violation("stream pending without a wake-up under a fault"),
                        Ok(None) => { ensure!(got == data, "{:?} stream ended: {}", k, diff(&got, &data)); n += 1; break; }
                        Ok(Some(Ok(x))) => got.extend(rest(x)),
                        Ok(Some(Err(_))) => { e += 1; break; }
                    }
                }
            }
        }
    }
    let ops = plan.ops.lock().unwrap().clone();
    if plan.overrun.load(SeqCst) { return violation(format!("{} file operations without an end", plan.seen.load(SeqCst))); }
    Ok(Outcome { errors: e, compared: n, ops })
}

const KINDS: [&str; 6] = ["sink", "ingest", "existing-file", "decode", "archive", "async"];

fn sweep(c: &mut Case<'_>, kind: u64) -> CaseResult {
    let seed = c.rng.next();
    let dir = c.dir.join("w");
    let fresh = |dir: &Path| -> std::io::Result<()> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir)
    };
    fresh(&dir)?;
    let dry = Plan::new(u64::MAX, Fault::Io, 1_000_000);
    let o = history(seed, &dir, &dry, kind).map_err(|s| match s { Stop::Violation(v) => Stop::Violation(format!("without faults: {}", v)), s => s })?;
    ensure!(o.errors == 0, "{} errors in a fault-free run", o.errors);
    let total = dry.seen.load(SeqCst);
    c.step(format!("{} history {:#x}: {} operations {:?}", KINDS[kind as usize], seed, total, &o.ops[..o.ops.len().min(12)]));
    c.count("fault-free operations", total);
    let cap = if c.thorough { 24 } else { 12 };
    let mut points: Vec<u64> = (0..total).collect();
    if total > cap {
        let mut r = Rng::new(seed ^ 77);
        r.shuffle(&mut points);
        points.truncate(cap as usize);
    }
    for at in points {
        let op = o.ops[at as usize];
        for f in FAULTS.iter() {
            if c.rng.chance(1, 2) { continue; }
            fresh(&dir)?;
            let plan = Plan::new(at, *f, total * 4 + 1_000_000);
            let r = history(seed, &dir, &plan, kind);
            let r = r.map_err(|s| match s {
                Stop::Violation(v) => Stop::Violation(format!("{:?} at operation {} ({:?}) of {}: {}", f, at, op, total, v)),
                s => s,
            })?;
            if plan.fired.load(SeqCst) {
                c.count("faults injected", 1);
                c.in_set_str("operation and fault kinds", &format!("{}/{:?}/{:?}", kind, op, f));
                c.distinct_str(&format!("{}/{}/{}/{:?}", kind, seed, at, f));
            }
            c.count("errors reported", r.errors);
            c.count("results compared", r.compared);
        }
    }
    Ok(())
}

/// Backing files shorter than the body.
fn truncated(c: &mut Case<'_>) -> CaseResult {
    let len = 1 + gen::len(&mut c.rng, 30_000) as usize;
    let data = c.rng.bytes(len);
    let keep = match c.rng.below(3) { 0 => len - 1, 1 => 0, _ => c.rng.usize(len) };
    let pre = if c.rng.chance(1, 2) { 0 } else { gen::slice_offset(&mut c.rng) };
    let dir = c.dir.clone();
    let slice = c.rng.chance(1, 2) || pre > 0;
    let (p, f) = gen::file_with(&mut c.rng, &dir, pre, &data, 0);
    let b = if slice {
        unsafe { BodyImage::from_read_slice(olio::fs::rc::ReadSlice::new(Arc::new(f), pre as u64, (pre + len) as u64)) }
    } else {
        unsafe { BodyImage::from_file(f, len as u64) }
    };
    std::fs::OpenOptions::new().write(true).open(&p)?.set_len((pre + keep) as u64)?;
    c.step(format!("body of {} at {} over a file keeping {}", len, pre, keep));
    let mut v = Vec::new();
    match b.write_to(&mut v) {
        Ok(n) => return violation(format!("copied {} of {} bytes and reported {}", v.len(), len, n)),
        Err(_) => ensure!(v[..] == data[..v.len().min(len)] && v.len() <= keep, "copied bytes that are not in the file"),
    }
    // Copying into a file takes another path through the kernel.
    let mut out = std::fs::File::create(dir.join("o"))?;
    if let Ok(n) = b.write_to(&mut out) { return violation(format!("copied {} of {} bytes to a file and reported {}", keep, len, n)); }
    let mut w = super::c01::Picky { got: Vec::new(), rng: Rng::new(c.rng.next()), max: 700 };
    if let Ok(n) = b.write_to(&mut w) { return violation(format!("copied {} bytes of {} and reported {}", keep, len, n)); }
    // As a record: refused or at least not acknowledged.
    {
        use barc::*;
        let f = BarcFile::new(dir.join("t.barc"));
        let rec = Record { rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: http::HeaderMap::new(), res_headers: http::HeaderMap::new(),
            req_body: BodyImage::empty(), res_body: b.clone() };
        let mut w = f.writer().map_err(|e| Stop::Harness(e.to_string()))?;
        let r = if c.rng.chance(1, 2) { w.write(&rec, &NoCompressStrategy::default()) } else { w.write(&rec, &GzipCompressStrategy::default().set_min_len(0)) };
        ensure!(r.is_err(), "archived a body of {} from a file keeping {}", len, keep);
    }
    // A stream over it ends with an error, not early.
    {
        use crate::exec::{Drive, Driver};
        use crate::flow::*;
        let k = *c.rng.pick(&STREAMS);
        let (pl, _) = pool(&mut c.rng);
        let _reg = register(pl);
        let t = gen::tune(&mut c.rng, len as u64, &dir);
        let ft = futio(t, Some(stream_policy(k, semaphore(1))), 4096);
        let mut st = AnyStream::<Bytes>::new(k, b.clone(), ft);
        let mut d = Driver::new(c.rng.next(), Drive::Woken, alone_stream(k));
        let mut got = 0;
        loop {
            match d.run(|cx| st.poll(cx)) {
                Err(_) => return violation("stream pending without a wake-up"),
                Ok(None) => return violation(format!("{:?} stream ended after {} of {} bytes without an error", k, got, len)),
                Ok(Some(Ok(x))) => got += x.len(),
                Ok(Some(Err(_))) => break,
            }
        }
        c.count("short streams refused", 1);
    }
    // Mapping it is an error and leaves it as it was.
    let mut m = b;
    match m.mem_map() {
        Err(_) => {}
        Ok(_) => {
            // Touching the part that is not there would fault.
            return violation(format!("mapped {} bytes over a file keeping {}", len, keep));
        }
    }
    c.count("truncated files refused", 1);
    c.distinct_str(&format!("{}/{}/{}/{}", len, keep, pre, slice));
    Ok(())
}

/// Output that fails or takes little at a time.
fn outputs(c: &mut Case<'_>) -> CaseResult {
    let len = gen::len(&mut c.rng, 60_000) as usize;
    let data = c.rng.bytes(len);
    let st = *c.rng.pick(&gen::STATES);
    let dir = c.dir.clone();
    let b = gen::body(&mut c.rng, st, &data, &dir);
    struct Out { got: Vec<u8>, room: usize, rng: Rng }
    impl Write for Out {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.rng.chance(1, 6) { return Err(std::io::ErrorKind::Interrupted.into()); }
            let n = (1 + self.rng.usize(5000)).min(b.len()).min(self.room - self.got.len());
            if n == 0 && !b.is_empty() { return if self.rng.chance(1, 2) { Ok(0) } else { Err(std::io::Error::from_raw_os_error(libc::ENOSPC)) }; }
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let room = match c.rng.below(3) { 0 => len, 1 => len.saturating_sub(1), _ => c.rng.usize(len + 1) };
    let mut o = Out { got: Vec::new(), room, rng: Rng::new(c.rng.next()) };
    c.step(format!("{:?} body of {} into room for {}", st, len, room));
    let r = b.write_to(&mut o);
    match r {
        Ok(n) => ensure!(n == len as u64 && o.got == data, "copy-out reported {}: {}", n, diff(&o.got, &data)),
        Err(_) => ensure!(room < len && o.got[..] == data[..o.got.len()], "copy-out failed or altered bytes with room for {} of {}", room, len),
    }
    ensure!(room >= len || o.got.len() <= room, "overrun");
    c.count("limited outputs", 1);
    c.distinct_str(&format!("{:?}/{}/{}", st, len, room));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    for k in 0..6u64 {
        let n = if k == 5 { x.tier(40, 90) } else { x.tier(60, 140) };
        x.run(&format!("faults-{}", KINDS[k as usize]), n, |c| sweep(c, k));
    }
    let n = x.tier(400, 3000);
    x.run("truncated-files", n, truncated);
    let n = x.tier(1000, 8000);
    x.run("limited-outputs", n, outputs);
    x.require("faults injected", 2000);
    x.require("results compared", 2000);
    x.require("errors reported", 500);
    x.require("distinct operation and fault kinds", 60);
}
