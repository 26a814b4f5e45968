//! C07: clones and concurrent readers.
use std::io::{Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use body_image::{BodyImage, BodyReader};
use body_image_futio::UniBodyBuf;
use bytes::Bytes;

use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Event};
use crate::rng::Rng;
use crate::sched::{Member, Sched};

/// One thread's work on its own clone. `point` is called between steps.
fn work(seed: u64, mut b: BodyImage, want: &[u8], point: &dyn Fn(), steps: usize, dir: &std::path::Path, compared: &AtomicU64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut held: Vec<BodyImage> = Vec::new();
    let bad = |what: &str, got: &[u8], want: &[u8]| Err(format!("{}: {}", what, diff(got, want)));
    for _ in 0..steps {
        point();
        if b.len() != want.len() as u64 { return Err(format!("length {} instead of {}", b.len(), want.len())); }
        match r.below(10) {
            0 | 1 => {
                // Small reads with other threads in between.
                let mut got = Vec::new();
                let mut rd = b.reader();
                let k = 1 + r.usize(want.len() / 4 + 2);
                let mut buf = vec![0u8; k];
                loop {
                    point();
                    let n = rd.read(&mut buf).map_err(|e| format!("read: {}", e))?;
                    if n == 0 { break; }
                    got.extend_from_slice(&buf[..n]);
                }
                if got != want { return bad("reader", &got, want); }
            }
            2 => {
                // Two readers of one body, alternating.
                let mut a = b.reader();
                let mut z = b.reader();
                let (mut ga, mut gz) = (Vec::new(), Vec::new());
                let mut buf = vec![0u8; 1 + r.usize(want.len() / 3 + 2)];
                let (mut da, mut dz) = (false, false);
                while !da || !dz {
                    point();
                    if r.chance(1, 2) { let n = a.read(&mut buf).map_err(|e| e.to_string())?; ga.extend_from_slice(&buf[..n]); da |= n == 0; }
                    else { let n = z.read(&mut buf).map_err(|e| e.to_string())?; gz.extend_from_slice(&buf[..n]); dz |= n == 0; }
                }
                if ga != want { return bad("first of two readers", &ga, want); }
                if gz != want { return bad("second of two readers", &gz, want); }
            }
            3 => {
                if let BodyReader::FileSlice(mut rs) = b.reader() {
                    for _ in 0..3 {
                        let at = r.usize(want.len() + 1);
                        point();
                        rs.seek(SeekFrom::Start(at as u64)).map_err(|e| e.to_string())?;
                        point();
                        let mut v = vec![0u8; r.usize(want.len() - at + 1)];
                        rs.read_exact(&mut v).map_err(|e| format!("read after seek: {}", e))?;
                        if v != want[at..at + v.len()] { return bad("seek and read", &v, &want[at..at + v.len()]); }
                    }
                }
            }
            4 => {
                struct Slow<'a>(Vec<u8>, &'a dyn Fn(), usize);
                impl<'a> std::io::Write for Slow<'a> {
                    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { (self.1)(); let n = b.len().min(self.2); self.0.extend_from_slice(&b[..n]); Ok(n) }
                    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
                }
                let mut o = Slow(Vec::new(), point, 1 + want.len() / 5 + r.usize(3000));
                let n = b.write_to(&mut o).map_err(|e| format!("copy-out: {}", e))?;
                if n != want.len() as u64 || o.0 != want { return bad("copy-out", &o.0, want); }
            }
            5 => { b.mem_map().map_err(|e| format!("map: {}", e))?; }
            6 => { b.gather(); }
            7 => { held.push(b.clone()); if held.len() > 2 { held.remove(0); } }
            8 => {
                let k = *r.pick(&[StreamKind::Direct, StreamKind::Yield, StreamKind::Split]);
                let t = futio(gen::tune(&mut r, want.len() as u64, dir), None, 1 + want.len() / 6 + r.usize(4000));
                let mut got = Vec::new();
                let mut d = Driver::new(r.next(), Drive::Woken, true);
                if r.chance(1, 2) {
                    let mut s = AnyStream::<UniBodyBuf>::new(k, b.clone(), t);
                    loop { point(); match d.run(|cx| s.poll(cx)) { Ok(Some(Ok(x))) => got.extend(rest(x)), Ok(None) => break, Ok(Some(Err(e))) => return Err(format!("stream: {}", e)), Err(_) => return Err("stream without wake-up".into()) } }
                } else {
                    let mut s = AnyStream::<Bytes>::new(k, b.clone(), t);
                    loop { point(); match d.run(|cx| s.poll(cx)) { Ok(Some(Ok(x))) => got.extend(rest(x)), Ok(None) => break, Ok(Some(Err(e))) => return Err(format!("stream: {}", e)), Err(_) => return Err("stream without wake-up".into()) } }
                }
                if got != want { return bad("stream", &got, want); }
            }
            _ => {
                // A partly read reader abandoned, then a fresh one.
                let mut v = vec![0u8; r.usize(want.len() + 1)];
                { let mut rd = b.reader(); rd.read_exact(&mut v).map_err(|e| format!("partial read: {}", e))?; }
                if v != want[..v.len()] { return bad("partial read", &v, &want[..v.len()]); }
                if let Some(h) = held.pop() { b = h; }
            }
        }
        compared.fetch_add(1, SeqCst);
    }
    Ok(())
}

/// One thread's look at a body it does not own.
fn look(seed: u64, b: &BodyImage, want: &[u8], point: &dyn Fn(), steps: usize, compared: &AtomicU64) -> Result<(), String> {
    struct Out<'a>(Vec<u8>, &'a dyn Fn(), usize);
    impl<'a> std::io::Write for Out<'a> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { (self.1)(); let n = b.len().min(self.2); self.0.extend_from_slice(&b[..n]); Ok(n) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let mut r = Rng::new(seed);
    let copy = |most: usize| -> Result<(), String> {
        let mut o = Out(Vec::new(), point, most);
        let n = b.write_to(&mut o).map_err(|e| format!("copy-out: {}", e))?;
        if n != want.len() as u64 || o.0 != want { return Err(format!("copy-out: {}", diff(&o.0, want))); }
        compared.fetch_add(1, SeqCst);
        Ok(())
    };
    for _ in 0..steps {
        point();
        let most = 1 + want.len() / 5 + r.usize(3000);
        if r.chance(1, 2) { copy(most)?; continue; }
        // Read, at times with a copy made in between.
        let at = if r.chance(1, 2) { r.usize(want.len() + 1) } else { usize::MAX };
        let mut got = Vec::new();
        let mut rd = b.reader();
        let mut buf = vec![0u8; 1 + r.usize(want.len() / 3 + 2)];
        let mut copied = false;
        loop {
            point();
            if got.len() >= at && !copied { copied = true; copy(most)?; }
            let n = rd.read(&mut buf).map_err(|e| format!("read: {}", e))?;
            if n == 0 { break; }
            got.extend_from_slice(&buf[..n]);
        }
        if got != want { return Err(format!("reader: {}", diff(&got, want))); }
        compared.fetch_add(1, SeqCst);
    }
    Ok(())
}

fn setup(c: &mut Case<'_>, max: u64) -> (BodyImage, Vec<u8>, gen::State) {
    let len = 1 + gen::len(&mut c.rng, max) as usize;
    let data = c.rng.bytes(len);
    let st = *c.rng.pick(&gen::STATES);
    let dir = c.dir.clone();
    let mut b = gen::body(&mut c.rng, st, &data, &dir);
    if c.rng.chance(1, 8) { b.gather(); }
    (b, data, st)
}

/// Threads serialised at every step and file operation, in an order chosen
/// from the seed.
fn scheduled(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let slot: Arc<Mutex<Option<Arc<Sched>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |_: &Event| {
        let s = s2.lock().unwrap().clone();
        if let Some(s) = s { s.point(); }
        Action::Go
    }));
    let (b, data, st) = setup(c, 12_000);
    let n = 2 + c.rng.usize(3);
    let sched = Sched::new(n, c.rng.next());
    *slot.lock().unwrap() = Some(sched.clone());
    let data = Arc::new(data);
    let compared = Arc::new(AtomicU64::new(0));
    let err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let ev0 = interpose::events();
    let hs: Vec<_> = (0..n).map(|i| {
        let (sched, b, data, dir, seed, compared, err) = (sched.clone(), b.clone(), data.clone(), dir.clone(), c.rng.next(), compared.clone(), err.clone());
        std::thread::spawn(move || {
            sched.enter(i);
            let _m = Member(sched.clone());
            let p = || sched.point();
            if let Err(e) = work(seed, b, &data, &p, 4, &dir, &compared) { err.lock().unwrap().get_or_insert(e); }
        })
    }).collect();
    drop(b);
    let mut panicked = false;
    for h in hs { panicked |= h.join().is_err(); }
    *slot.lock().unwrap() = None;
    drop(w);
    let (h, sw) = sched.outcome();
    c.step(format!("{:?} body of {}, {} threads, {} switches", st, data.len(), n, sw));
    c.count("scheduling switches", sw);
    c.count("file operation events", interpose::events() - ev0);
    c.in_set("schedules", h);
    c.distinct(h);
    c.count("steps compared", compared.load(SeqCst));
    if let Some(e) = err.lock().unwrap().take() { return violation(format!("{:?} body, {} threads: {}", st, n, e)); }
    if panicked { return violation("a reading thread panicked"); }
    Ok(())
}

/// Threads sharing one body, of which there is no clone.
fn borrowed(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let slot: Arc<Mutex<Option<Arc<Sched>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |_: &Event| {
        let s = s2.lock().unwrap().clone();
        if let Some(s) = s { s.point(); }
        Action::Go
    }));
    let (mut b, data, st) = setup(c, 20_000);
    if c.rng.chance(1, 5) { b.mem_map().map_err(|e| Stop::Violation(format!("map: {}", e)))?; }
    let n = 2 + c.rng.usize(3);
    let sched = Sched::new(n, c.rng.next());
    *slot.lock().unwrap() = Some(sched.clone());
    let compared = AtomicU64::new(0);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.next()).collect();
    let panicked = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().enumerate().map(|(i, seed)| {
            let (sched, b, data, compared, err) = (sched.clone(), &b, &data, &compared, &err);
            s.spawn(move || {
                sched.enter(i);
                let _m = Member(sched.clone());
                let p = || sched.point();
                if let Err(e) = look(*seed, b, data, &p, 3, compared) { err.lock().unwrap().get_or_insert(e); }
            })
        }).collect();
        hs.into_iter().fold(false, |p, h| h.join().is_err() || p)
    });
    *slot.lock().unwrap() = None;
    drop(w);
    let (h, sw) = sched.outcome();
    c.step(format!("{:?} body of {} shared by {} threads, {} switches", st, data.len(), n, sw));
    c.count("scheduling switches", sw);
    c.in_set("schedules", h);
    c.distinct(h);
    c.count("looks at a borrowed body", compared.load(SeqCst));
    if let Some(e) = err.lock().unwrap().take() { return violation(format!("{:?} body shared by {} threads: {}", st, n, e)); }
    if panicked { return violation("a reading thread panicked"); }
    Ok(())
}

/// Free-running threads.
fn free(c: &mut Case<'_>) -> CaseResult {
    let (b, data, st) = setup(c, 60_000);
    let dir = c.dir.clone();
    let n = 2 + c.rng.usize(7);
    let data = Arc::new(data);
    let compared = Arc::new(AtomicU64::new(0));
    let err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let go = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..n).map(|_| {
        let (b, data, dir, seed, compared, err, go) = (b.clone(), data.clone(), dir.clone(), c.rng.next(), compared.clone(), err.clone(), go.clone());
        std::thread::spawn(move || {
            while !go.load(SeqCst) { std::hint::spin_loop(); }
            if let Err(e) = work(seed, b, &data, &|| {}, 12, &dir, &compared) { err.lock().unwrap().get_or_insert(e); }
        })
    }).collect();
    go.store(true, SeqCst);
    drop(b);
    let mut panicked = false;
    for h in hs { panicked |= h.join().is_err(); }
    c.step(format!("{:?} body of {}, {} free threads", st, data.len(), n));
    c.count("steps compared", compared.load(SeqCst));
    c.count("free-running threads", n as u64);
    c.distinct_str(&format!("{:?}/{}/{}", st, data.len(), c.seed));
    if let Some(e) = err.lock().unwrap().take() { return violation(format!("{:?} body, {} threads: {}", st, n, e)); }
    if panicked { return violation("a reading thread panicked"); }
    Ok(())
}

/// Bodies of records read from one archive share its descriptor.
fn shared_archive(c: &mut Case<'_>) -> CaseResult {
    use barc::*;
    use body_image::{Recorded, RequestRecorded};
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let f = BarcFile::new(&path);
    let mut want = Vec::new();
    {
        let mut w = f.writer().map_err(|e| Stop::Harness(e.to_string()))?;
        for _ in 0..3 {
            let (a, z) = (1 + gen::len(&mut c.rng, 9000) as usize, 1 + gen::len(&mut c.rng, 9000) as usize);
            let (q, s) = (c.rng.bytes(a), c.rng.bytes(z));
            let rec = Record { rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: http::HeaderMap::new(), res_headers: http::HeaderMap::new(),
                req_body: BodyImage::from_slice(q.clone()), res_body: BodyImage::from_slice(s.clone()) };
            w.write(&rec, &NoCompressStrategy::default()).map_err(|e| Stop::Harness(e.to_string()))?;
            want.push(q);
            want.push(s);
        }
    }
    let slot: Arc<Mutex<Option<Arc<Sched>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let w = interpose::watch(&[&dir], Arc::new(move |_: &Event| {
        let s = s2.lock().unwrap().clone();
        if let Some(s) = s { s.point(); }
        Action::Go
    }));
    let t = body_image::Tuner::new().set_max_body_ram(0).set_temp_dir(&dir).finish();
    let mut rd = f.reader().map_err(|e| Stop::Violation(e.to_string()))?;
    let mut bodies = Vec::new();
    while let Some(r) = rd.read(&t).map_err(|e| Stop::Violation(e.to_string()))? {
        bodies.push(r.req_body().clone());
        bodies.push(r.res_body().clone());
    }
    ensure!(bodies.len() == want.len(), "{} bodies instead of {}", bodies.len(), want.len());
    let n = 2 + c.rng.usize(3);
    let sched = Sched::new(n + 1, c.rng.next());
    *slot.lock().unwrap() = Some(sched.clone());
    let compared = Arc::new(AtomicU64::new(0));
    let err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let mut hs = Vec::new();
    for i in 0..n {
        let k = c.rng.usize(bodies.len());
        let (sched, b, data, dir, seed, compared, err) = (sched.clone(), bodies[k].clone(), want[k].clone(), dir.clone(), c.rng.next(), compared.clone(), err.clone());
        hs.push(std::thread::spawn(move || {
            sched.enter(i);
            let _m = Member(sched.clone());
            let p = || sched.point();
            if let Err(e) = work(seed, b, &data, &p, 3, &dir, &compared) { err.lock().unwrap().get_or_insert(e); }
        }));
    }
    {
        // The reader itself goes on meanwhile.
        let (sched, t, err, want, compared) = (sched.clone(), t.clone(), err.clone(), want.clone(), compared.clone());
        hs.push(std::thread::spawn(move || {
            sched.enter(n);
            let _m = Member(sched.clone());
            let r = (|| -> Result<(), String> {
                rd.seek(0).map_err(|e| e.to_string())?;
                let mut i = 0;
                while let Some(r) = rd.read(&t).map_err(|e| format!("record read: {}", e))? {
                    let got = gen::read_all(r.res_body()).map_err(|e| e.to_string())?;
                    if got != want[2 * i + 1] { return Err(format!("record {}: {}", i, diff(&got, &want[2 * i + 1]))); }
                    compared.fetch_add(1, SeqCst);
                    i += 1;
                }
                if i != 3 { return Err(format!("{} records instead of 3", i)); }
                Ok(())
            })();
            if let Err(e) = r { err.lock().unwrap().get_or_insert(e); }
        }));
    }
    let mut panicked = false;
    for h in hs { panicked |= h.join().is_err(); }
    *slot.lock().unwrap() = None;
    drop(w);
    let (h, sw) = sched.outcome();
    c.step(format!("archive of 3 records, {} body threads, {} switches", n, sw));
    c.in_set("schedules", h);
    c.distinct(h);
    c.count("scheduling switches", sw);
    c.count("steps compared", compared.load(SeqCst));
    if let Some(e) = err.lock().unwrap().take() { return violation(format!("archive bodies, {} threads: {}", n, e)); }
    if panicked { return violation("a reading thread panicked"); }
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(500, 4000);
    x.run("scheduled", n, scheduled);
    let n = x.tier(200, 1500);
    x.run("borrowed", n, borrowed);
    x.require("looks at a borrowed body", 600);
    let n = x.tier(200, 1500);
    x.run("shared-archive", n, shared_archive);
    let n = x.tier(150, 1500);
    x.run("free-running", n, free);
    x.require("scheduling switches", 10_000);
    x.require("distinct schedules", 300);
    x.require("steps compared", 3000);
}
