//! C06: where temporary storage lives and that it is released.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use body_image::{BodyImage, BodySink, Dialog, Encoding, Recorded, Tunables, Tuner};
use body_image_futio::{decode_res_body, UniBodyBuf};
use bytes::Bytes;

use super::c02::Source;
use super::c03::{compress, dialog};
use super::c05::{Fault, Plan, FAULTS};
use crate::ctx::*;
use crate::exec::{Drive, Driver};
use crate::flow::*;
use crate::gen;
use crate::interpose::{self, Action, Event, Op, Phase};
use crate::rng::Rng;

/// Descriptors and mappings that refer to `dir`, by what the kernel says.
fn held(dir: &Path) -> (Vec<String>, Vec<String>) {
    let mut fds = Vec::new();
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(dir) { fds.push(format!("{}", t.display())); }
            }
        }
    }
    let d = dir.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let maps = maps.lines().filter(|l| l.contains(&d)).map(|l| l.to_string()).collect();
    (fds, maps)
}

/// Files opened for writing anywhere, while watching all of the file system.
struct Opens { inside: AtomicU64, outside: Mutex<Vec<PathBuf>>, dir: PathBuf, fault: Option<Arc<Plan>> }

impl Opens {
    fn on(&self, e: &Event) -> Action {
        if let (Op::Open, Phase::Before, Some(p)) = (e.op, e.phase, e.path.as_ref()) {
            let writes = e.flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR) != 0 || e.flags & libc::O_TMPFILE == libc::O_TMPFILE;
            if writes && !p.starts_with("/dev") && !p.starts_with("/proc") {
                if p.starts_with(&self.dir) { self.inside.fetch_add(1, SeqCst); }
                else { self.outside.lock().unwrap().push(p.clone()); }
            }
        }
        match &self.fault { Some(p) if in_dir(e, &self.dir) => p.on_event(e), _ => Action::Go }
    }
}

fn in_dir(e: &Event, dir: &Path) -> bool {
    match &e.path { Some(p) => p.starts_with(dir), None => true }
}

enum Thing {
    Sink(BodySink),
    Body(BodyImage, Vec<u8>),
    Dialog(Dialog),
    Stream(AnyStream<UniBodyBuf>),
    Bytes(AnyStream<Bytes>),
    Item(UniBodyBuf, Vec<u8>),
    Reader(olio::fs::rc::ReadSlice),
}

impl Thing {
    fn name(&self) -> &'static str {
        match self { Thing::Sink(_) => "sink", Thing::Body(..) => "body", Thing::Dialog(_) => "dialog", Thing::Stream(_) | Thing::Bytes(_) => "stream", Thing::Item(..) => "item", Thing::Reader(_) => "reader" }
    }
}

/// What stays visible. Dispatched work of something dropped may just be creating its file, which
/// might be visible for a moment.
pub fn visible(dir: &Path) -> Vec<String> {
    let mut v = listed(dir);
    for _ in 0..400 {
        if v.is_empty() { break; }
        std::thread::sleep(std::time::Duration::from_millis(5));
        v = listed(dir);
    }
    v
}

fn listed(dir: &Path) -> Vec<String> {
    std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
}

fn tunables(r: &mut Rng, around: u64, dir: &Path) -> Tunables {
    let mut t = Tuner::new();
    let ram = match r.below(3) { 0 => 0, 1 => around / 2, _ => around };
    t.set_max_body_ram(ram).set_max_body(1 << 30).set_temp_dir(dir);
    t.set_buffer_size_fs(1 + r.usize(5000)).set_buffer_size_ram(1 + r.usize(5000));
    t.finish()
}

fn history(c: &mut Case<'_>, fault: Option<Arc<Plan>>) -> CaseResult {
    let dir = c.dir.join("t");
    std::fs::create_dir_all(&dir)?;
    let opens = Arc::new(Opens { inside: AtomicU64::new(0), outside: Mutex::new(Vec::new()), dir: dir.clone(), fault });
    let o2 = opens.clone();
    let mut r = Rng::new(c.seed ^ 1);
    // Decided before watching: pool threads and the like open nothing.
    let (pl, _) = open_pool(&mut r);
    let _reg = register(pl);
    let sem = semaphore(2);
    let w = interpose::watch(&[Path::new("/")], Arc::new(move |e: &Event| o2.on(e)));
    let mut things: Vec<Thing> = Vec::new();
    let steps = 4 + r.usize(16);
    let mut tr: Vec<String> = Vec::new();
    // Work of an abandoned dispatched sink may still create its file later.
    let mut abandoned = false;
    for _ in 0..steps {
        let what = r.below(13);
        let len = gen::len(&mut r, 20_000) as usize;
        let k = if things.is_empty() { 0 } else { r.usize(things.len()) };
        let before = opens.inside.load(SeqCst);
        let mut ram_only = false;
        match what {
            0 => { if let Ok(s) = BodySink::with_fs(&dir) { things.push(Thing::Sink(s)); } tr.push("new file sink".into()); }
            1 => {
                // RAM only: no file may be created.
                let mut s = BodySink::with_ram(len as u64);
                let data = r.bytes(len);
                for p in gen::chunks(&mut r, &data) { let _ = s.push(p); }
                things.push(Thing::Sink(s));
                ram_only = true;
                tr.push(format!("new RAM sink {}", len));
            }
            2 => {
                let data = r.bytes(len);
                let t = tunables(&mut r, len as u64, &dir);
                let mut src = Source::new(data.clone(), Rng::new(r.next()), 2);
                let est = if r.chance(1, 2) { 0 } else { len as u64 };
                if r.chance(1, 4) { src.fail_at = Some((len / 2, std::io::ErrorKind::Other)); }
                ram_only = len as u64 <= t.max_body_ram() && est <= t.max_body_ram();
                if let Ok(b) = BodyImage::read_from(&mut src, est, &t) { things.push(Thing::Body(b, data)); }
                tr.push(format!("ingest {} ram {}", len, t.max_body_ram()));
            }
            3 => {
                let data = r.bytes(len);
                let comp = compress(Encoding::Gzip, 2, &data);
                let t = tunables(&mut r, len as u64, &dir);
                let mut h = http::HeaderMap::new();
                h.insert(http::header::CONTENT_ENCODING, "gzip".parse().unwrap());
                let mut dl = dialog(h, BodyImage::from_slice(comp));
                if decode_res_body(&mut dl, &t).is_ok() {
                    let b = dl.res_body().clone();
                    if gen::read_all(&b).map(|g| g == data).unwrap_or(true) { things.push(Thing::Body(b, data)); things.push(Thing::Dialog(dl)); }
                    else { return violation("decoded body differs"); }
                }
                tr.push(format!("decode {} ram {}", len, t.max_body_ram()));
            }
            4 if !things.is_empty() => {
                if let Thing::Sink(s) = &mut things[k] { let _ = s.write_back(&dir); tr.push(format!("spill {}", k)); }
            }
            5 if !things.is_empty() => {
                if let Thing::Sink(_) = things[k] {
                    if let Thing::Sink(s) = things.swap_remove(k) {
                        if let Ok(b) = s.prepare() {
                            if let Ok(d) = gen::read_all(&b) { things.push(Thing::Body(b, d)); }
                        }
                        tr.push(format!("prepare {}", k));
                    }
                }
            }
            6 if !things.is_empty() => {
                if let Thing::Body(b, _) = &mut things[k] { let _ = b.mem_map(); tr.push(format!("map {}", k)); }
            }
            7 if !things.is_empty() => {
                let n = match &things[k] {
                    Thing::Body(b, d) => Some(Thing::Body(b.clone(), d.clone())),
                    Thing::Dialog(d) => Some(Thing::Dialog(d.clone())),
                    Thing::Item(i, _) => { let _ = i; None }
                    _ => None,
                };
                if let Some(n) = n { things.push(n); tr.push(format!("clone {}", k)); }
            }
            8 if !things.is_empty() => {
                if let Thing::Body(b, _) = &things[k] {
                    let kind = *r.pick(&STREAMS);
                    let t = futio(tunables(&mut r, 100, &dir), Some(stream_policy(kind, sem)), 1 + r.usize(5000));
                    let n = if r.chance(1, 2) { Thing::Stream(AnyStream::new(kind, b.clone(), t)) } else { Thing::Bytes(AnyStream::new(kind, b.clone(), t)) };
                    things.push(n);
                    tr.push(format!("stream {:?} over {}", kind, k));
                }
            }
            9 if !things.is_empty() => {
                // A few polls of a stream; keep an item.
                let mut item = None;
                if let Thing::Stream(s) = &mut things[k] {
                    let sig = crate::exec::Signal::new();
                    let w = std::task::Waker::from(sig);
                    let mut cx = std::task::Context::from_waker(&w);
                    for _ in 0..r.usize(4) {
                        if let std::task::Poll::Ready(Some(Ok(b))) = s.poll(&mut cx) { let d = b.as_ref().to_vec(); item = Some(Thing::Item(b, d)); break; }
                    }
                    tr.push(format!("poll {}", k));
                }
                if let Some(i) = item { things.push(i); }
            }
            10 if !things.is_empty() => {
                if let Thing::Body(b, _) = &things[k] {
                    if let body_image::BodyReader::FileSlice(rs) = b.reader() { things.push(Thing::Reader(rs)); tr.push(format!("reader of {}", k)); }
                }
            }
            11 if !things.is_empty() => {
                // Through an asynchronous sink.
                let kind = *r.pick(&SINKS);
                let t = futio(tunables(&mut r, len as u64, &dir), Some(sink_policy(kind, sem)), 4096);
                let data = r.bytes(len);
                let mut s = AnySink::<Bytes>::new(kind, BodySink::empty(), t);
                let mut d = Driver::new(r.next(), Drive::Woken, alone_sink(kind));
                let items: Vec<Bytes> = gen::chunks(&mut r, &data).into_iter().map(Bytes::from).collect();
                if r.chance(1, 3) {
                    // Dropped in the middle.
                    let sig = crate::exec::Signal::new();
                    let w = std::task::Waker::from(sig);
                    let mut cx = std::task::Context::from_waker(&w);
                    for b in items {
                        match s.poll_ready(&mut cx) { std::task::Poll::Ready(Ok(())) => {} _ => break }
                        if s.start_send(b).is_err() { break; }
                    }
                    abandoned |= kind == SinkKind::Dispatch;
                    tr.push(format!("{:?} sink dropped", kind));
                } else {
                    match s.send_all(items, &mut d) {
                        Err(_) => return violation("sink pending without a wake-up"),
                        Ok(Ok(())) => things.push(Thing::Sink(s.into_inner())),
                        Ok(Err(_)) => {}
                    }
                    tr.push(format!("{:?} sink of {}", kind, len));
                }
            }
            _ if !things.is_empty() => { let t = things.swap_remove(k); tr.push(format!("drop {} {}", t.name(), k)); drop(t); }
            _ => {}
        }
        if ram_only && !abandoned {
            let made = opens.inside.load(SeqCst) - before;
            ensure!(made == 0, "{} files created for a body within the RAM limit", made);
            c.count("RAM-only steps without files", 1);
        }
        let vis = interpose::quiet(|| visible(&dir));
        ensure!(vis.is_empty(), "left visible after step '{}': {:?}", tr.last().map(|s| s.as_str()).unwrap_or(""), vis);
        c.count("directory listings", 1);
    }
    // Drop everything in random order; whatever remains stays readable.
    r.shuffle(&mut things);
    let faulty = opens.fault.is_some();
    while let Some(t) = things.pop() {
        drop(t);
        if !faulty {
            for (i, t) in things.iter().enumerate() {
                match t {
                    Thing::Body(b, d) => {
                        let got = interpose::quiet(|| gen::read_all(b)).map_err(|e| Stop::Violation(format!("body {} unreadable after others dropped: {}", i, e)))?;
                        ensure!(&got == d, "body {} after others dropped: {}", i, diff(&got, d));
                        c.count("survivors read", 1);
                    }
                    Thing::Item(b, d) => { ensure!(b.as_ref() == &d[..], "item {} altered after others dropped", i); c.count("survivors read", 1); }
                    _ => {}
                }
            }
        }
    }
    drop(w);
    for t in &tr { c.step(t.clone()); }
    // Dispatched work of dropped streams may still be finishing.
    drop(_reg);
    let mut left = held(&dir);
    let mut spins = 0;
    while (!left.0.is_empty() || !left.1.is_empty()) && spins < 400 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        left = held(&dir);
        spins += 1;
    }
    ensure!(left.0.is_empty(), "descriptors still open after everything dropped: {:?}", left.0);
    ensure!(left.1.is_empty(), "mappings still present after everything dropped: {:?}", left.1);
    let vis = visible(&dir);
    ensure!(vis.is_empty(), "left visible at the end: {:?}", vis);
    let out = opens.outside.lock().unwrap().clone();
    ensure!(out.is_empty(), "opened for writing outside the configured directory: {:?}", out);
    c.count("temporary files created", opens.inside.load(SeqCst));
    c.count("descriptor and mapping censuses", 1);
    c.distinct_str(&tr.join(";"));
    Ok(())
}

impl Plan {
    pub fn on_event(self: &Arc<Self>, e: &Event) -> Action { (self.hook())(e) }
}

fn plain(c: &mut Case<'_>) -> CaseResult { history(c, None) }

fn faulty(c: &mut Case<'_>) -> CaseResult {
    let at = c.rng.below(60);
    let f: Fault = *c.rng.pick(&FAULTS);
    let p = Plan::new(at, f, 2_000_000);
    c.step(format!("{:?} at {}", f, at));
    let p2 = p.clone();
    let r = history(c, Some(p));
    if p2.fired.load(SeqCst) { c.count("faults injected", 1); }
    r
}

/// Archive reads spill into the configured directory too.
fn archive(c: &mut Case<'_>) -> CaseResult {
    use barc::*;
    let dir = c.dir.join("t");
    std::fs::create_dir_all(&dir)?;
    let path = c.dir.join("a.barc");
    let f = BarcFile::new(&path);
    let n = 1 + c.rng.usize(4);
    let mut want: BTreeMap<usize, (Vec<u8>, Vec<u8>)> = BTreeMap::new();
    for i in 0..n {
        let (lq, ls) = (gen::len(&mut c.rng, 20_000) as usize, gen::len(&mut c.rng, 20_000) as usize);
        let (q, s) = (c.rng.bytes(lq), c.rng.bytes(ls));
        let mut hd = http::HeaderMap::new();
        hd.insert(http::header::CONTENT_TYPE, "text/plain".parse().unwrap());
        let rec = Record { rec_type: RecordType::Dialog, meta: http::HeaderMap::new(), req_headers: hd.clone(), res_headers: hd,
            req_body: BodyImage::from_slice(q.clone()), res_body: BodyImage::from_slice(s.clone()) };
        let mut w = f.writer().map_err(|e| Stop::Harness(e.to_string()))?;
        match c.rng.below(3) {
            0 => w.write(&rec, &NoCompressStrategy::default()),
            1 => w.write(&rec, &GzipCompressStrategy::default().set_min_len(0).set_check_identity(false)),
            _ => w.write(&rec, &BrotliCompressStrategy::default().set_min_len(0).set_compression_level(2).set_check_identity(false)),
        }.map_err(|e| Stop::Harness(e.to_string()))?;
        want.insert(i, (q, s));
    }
    drop(f);
    let f = BarcFile::new(&path);
    let t = tunables(&mut c.rng, 10_000, &dir);
    let opens = Arc::new(Opens { inside: AtomicU64::new(0), outside: Mutex::new(Vec::new()), dir: dir.clone(), fault: None });
    let o2 = opens.clone();
    let w = interpose::watch(&[Path::new("/")], Arc::new(move |e: &Event| o2.on(e)));
    let mut rd = f.reader().map_err(|e| Stop::Violation(e.to_string()))?;
    let mut recs = Vec::new();
    let mut i = 0;
    while let Some(r) = rd.read(&t).map_err(|e| Stop::Violation(format!("read: {}", e)))? {
        use body_image::RequestRecorded;
        let vis = interpose::quiet(|| visible(&dir));
        ensure!(vis.is_empty(), "left visible after a record read: {:?}", vis);
        let w = &want[&i];
        ensure!(interpose::quiet(|| gen::read_all(r.req_body()))? == w.0 && interpose::quiet(|| gen::read_all(r.res_body()))? == w.1, "record {} differs", i);
        recs.push(r);
        i += 1;
    }
    drop(rd);
    c.rng.shuffle(&mut recs);
    drop(recs);
    drop(w);
    let all = held(&c.dir.clone());
    ensure!(all.0.is_empty() && all.1.is_empty(), "still held after records dropped: {:?}", all);
    let out = opens.outside.lock().unwrap().clone();
    ensure!(out.is_empty(), "opened for writing outside the configured directory: {:?}", out);
    c.count("temporary files created", opens.inside.load(SeqCst));
    c.count("descriptor and mapping censuses", 1);
    c.step(format!("{} records ram {}", n, t.max_body_ram()));
    c.distinct_str(&format!("{:?}/{}", want.values().map(|w| (w.0.len(), w.1.len())).collect::<Vec<_>>(), t.max_body_ram()));
    Ok(())
}

/// A directory that does not exist is an error, not somewhere else.
fn missing_dir(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.join("none");
    let len = 1 + gen::len(&mut c.rng, 5000);
    let mut t = Tuner::new();
    t.set_max_body_ram(len / 2).set_max_body(1 << 20).set_temp_dir(&dir);
    let t = t.finish();
    let opens = Arc::new(Opens { inside: AtomicU64::new(0), outside: Mutex::new(Vec::new()), dir: dir.clone(), fault: None });
    let o2 = opens.clone();
    let w = interpose::watch(&[Path::new("/")], Arc::new(move |e: &Event| o2.on(e)));
    let mut src = Source::new(vec![1; len as usize], Rng::new(c.seed), 3);
    let r = BodyImage::read_from(&mut src, 0, &t);
    let s = BodySink::with_fs(&dir);
    drop(w);
    ensure!(r.is_err() && s.is_err(), "a body was stored although its directory is missing");
    let out = opens.outside.lock().unwrap().clone();
    ensure!(out.is_empty(), "opened for writing outside the configured directory: {:?}", out);
    c.step(format!("missing directory, body of {}", len));
    c.count("missing directories refused", 1);
    c.distinct_str(&format!("{}", len));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(1200, 8000);
    x.run("histories", n, plain);
    let n = x.tier(1200, 8000);
    x.run("faulty-histories", n, faulty);
    let n = x.tier(200, 1500);
    x.run("archive-reads", n, archive);
    let n = x.tier(50, 200);
    x.run("missing-directory", n, missing_dir);
    x.require("temporary files created", 1000);
    x.require("descriptor and mapping censuses", 1000);
    x.require("faults injected", 200);
    x.require("survivors read", 1000);
    x.require("RAM-only steps without files", 500);
}
