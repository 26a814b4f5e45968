//! C31: configuration builders against a model of their settings.
use std::path::{Path, PathBuf};
use std::time::Duration;

use body_image::{BodyImage, Tunables, Tuner};
use body_image_futio::*;

use crate::ctx::*;
use crate::flow;
use crate::gen;
use crate::rng::Rng;

/// The settings of one configuration, as plain values.
#[derive(Clone, Debug, PartialEq)]
struct Image { ram: u64, max: u64, buf_ram: usize, buf_fs: usize, deflate: u16, gzip: u16, brotli: u16, dir: PathBuf }

#[derive(Clone, Debug, PartialEq)]
struct Io { image: Image, item: usize, res: Option<Duration>, body: Option<Duration>, policy: (u8, usize) }

impl Image {
    fn documented() -> Image {
        Image { ram: 192 << 10, max: 1 << 30, buf_ram: 8 << 10, buf_fs: 64 << 10, deflate: 4, gzip: 5, brotli: 6, dir: std::env::temp_dir() }
    }
    fn of(t: &Tunables) -> Result<Image, Stop> {
        ensure!(&*t.temp_dir_rc() == t.temp_dir(), "two directories reported: {:?} and {:?}", t.temp_dir_rc(), t.temp_dir());
        Ok(Image { ram: t.max_body_ram(), max: t.max_body(), buf_ram: t.buffer_size_ram(), buf_fs: t.buffer_size_fs(), deflate: t.size_estimate_deflate(),
            gzip: t.size_estimate_gzip(), brotli: t.size_estimate_brotli(), dir: t.temp_dir().to_path_buf() })
    }
    fn valid(&self) -> bool { self.ram <= self.max }
}

fn policy(p: BlockingPolicy) -> (u8, usize) {
    match p { BlockingPolicy::Direct => (0, 0), BlockingPolicy::Permit(s) => (1, s as *const _ as usize), _ => (2, 0) }
}

impl Io {
    fn documented() -> Io { Io { image: Image::documented(), item: 512 << 10, res: None, body: Some(Duration::from_secs(60)), policy: (0, 0) } }
    fn of(t: &FutioTunables) -> Result<Io, Stop> {
        let p = policy(t.blocking_policy());
        let s = t.blocking_semaphore().map(|s| s as *const _ as usize);
        ensure!(s == if p.0 == 1 { Some(p.1) } else { None }, "the semaphore reported is not that of the policy {:?}", p);
        let image = Image::of(t.image())?;
        let by_ref: &Tunables = t.as_ref();
        ensure!(Image::of(by_ref)? == image, "two sets of limits reported");
        Ok(Io { image, item: t.stream_item_size(), res: t.res_timeout(), body: t.body_timeout(), policy: p })
    }
    fn valid(&self) -> bool { match (self.res, self.body) { (Some(r), Some(b)) => r <= b, _ => true } }
}

/// Values with the extremes among them.
fn size(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0, 1 => 1, 2 => u64::MAX, 3 => u64::MAX - 1, 4 => 192 << 10, 5 => 1 << 30, 6 => u32::MAX as u64 + r.below(3),
        7 => r.below(100), _ => { let b = r.below(64); r.next() >> b }
    }
}

fn duration(r: &mut Rng) -> Duration {
    match r.below(8) {
        0 => Duration::ZERO, 1 => Duration::from_nanos(1 + r.below(3)), 2 => Duration::MAX, 3 => Duration::from_secs(60),
        4 => Duration::from_secs(60) + Duration::from_nanos(1), 5 => Duration::from_secs(60) - Duration::from_nanos(1),
        6 => Duration::from_millis(r.below(100_000)), _ => Duration::new(r.below(1 << 40), r.below(1_000_000_000) as u32),
    }
}

fn directory(r: &mut Rng, base: &Path) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    match r.below(5) {
        0 => base.to_path_buf(),
        1 => PathBuf::from("relative/../dir"),
        2 => PathBuf::from(std::ffi::OsString::from_vec(vec![b'/', 0xff, 0xfe, b'x'])),
        3 => PathBuf::from(""),
        _ => base.join(format!("d{}/", r.below(1000))),
    }
}

/// Run a setter or finisher that is to be refused or not.
fn refused<T>(f: impl FnOnce() -> T) -> Result<Option<T>, Stop> {
    match no_panic(f) {
        Ok(v) => Ok(Some(v)),
        Err(p) if p.in_harness() => Err(Stop::Harness(p.show())),
        Err(_) => { PANICS.lock().unwrap().clear(); Ok(None) }
    }
}

fn set(c: &mut Case<'_>, t: &mut Tuner, m: &mut Image) -> CaseResult {
    let r = &mut c.rng;
    let k = r.below(8);
    let v = size(r);
    let (s, ok): (String, bool) = match k {
        0 => { let x = refused(|| { t.set_max_body_ram(v); })?; m.ram = v; (format!("RAM limit {}", v), x.is_some()) }
        1 => { let x = refused(|| { t.set_max_body(v); })?; m.max = v; (format!("maximum {}", v), x.is_some()) }
        2 | 3 => {
            let v = v as usize;
            let x = refused(|| { if k == 2 { t.set_buffer_size_ram(v); } else { t.set_buffer_size_fs(v); } })?;
            let d = format!("{} buffer {}", if k == 2 { "RAM" } else { "file" }, v);
            if v == 0 { ensure!(x.is_none(), "{} accepted", d); c.count("settings refused", 1); return Ok(()); }
            if k == 2 { m.buf_ram = v; } else { m.buf_fs = v; }
            (d, x.is_some())
        }
        4..=6 => {
            let v = if v > 9 { (v % 65_536) as u16 } else { v as u16 };
            let x = refused(|| { match k { 4 => t.set_size_estimate_deflate(v), 5 => t.set_size_estimate_gzip(v), _ => t.set_size_estimate_brotli(v) }; })?;
            let d = format!("estimate {} {}", k, v);
            if v == 0 { ensure!(x.is_none(), "{} accepted", d); c.count("settings refused", 1); return Ok(()); }
            match k { 4 => m.deflate = v, 5 => m.gzip = v, _ => m.brotli = v }
            (d, x.is_some())
        }
        _ => { let p = directory(r, &c.dir); let x = refused(|| { t.set_temp_dir(&p); })?; let d = format!("directory {:?}", p); m.dir = p; (d, x.is_some()) }
    };
    ensure!(ok, "refused a setting: {}", s);
    c.count("settings made", 1);
    c.step(s);
    Ok(())
}

/// The configuration of a builder, refused exactly if it should be.
fn finish(c: &mut Case<'_>, t: &Tuner, m: &Image) -> Result<Option<Tunables>, Stop> {
    match (refused(|| t.finish())?, m.valid()) {
        (Some(f), true) => {
            let got = Image::of(&f)?;
            ensure!(&got == m, "configuration {:?} instead of {:?}", got, m);
            c.count("configurations compared", 1);
            Ok(Some(f))
        }
        (None, false) => { c.count("configurations refused", 1); Ok(None) }
        (Some(_), false) => violation(format!("accepted {:?}", m)),
        (None, true) => violation(format!("refused {:?}", m)),
    }
}

fn image(c: &mut Case<'_>) -> CaseResult {
    let mut t = if c.rng.chance(1, 2) { Tuner::new() } else { Tuner::default() };
    let mut m = Image::documented();
    let mut made: Vec<(Tunables, Image)> = Vec::new();
    if c.rng.chance(1, 4) { let d = if c.rng.chance(1, 2) { Tunables::new() } else { Tunables::default() }; made.push((d, m.clone())); }
    for _ in 0..1 + c.rng.usize(12) {
        match c.rng.below(6) {
            0 => if let Some(f) = finish(c, &t, &m)? { made.push((f, m.clone())); },
            // A copy of the builder goes on by itself.
            1 => { let mut u = t.clone(); let mut n = m.clone(); set(c, &mut u, &mut n)?; finish(c, &u, &n)?; c.count("builders copied", 1); }
            _ => set(c, &mut t, &mut m)?,
        }
    }
    if let Some(f) = finish(c, &t, &m)? { made.push((f.clone(), m.clone())); made.push((f, m)); }
    for (f, m) in &made {
        let got = Image::of(f)?;
        ensure!(&got == m, "an earlier configuration became {:?}, was {:?}", got, m);
        c.count("earlier configurations compared", 1);
    }
    let d = c.trace.join(";");
    c.distinct_str(&d);
    Ok(())
}

fn io(c: &mut Case<'_>) -> CaseResult {
    let mut t = if c.rng.chance(1, 2) { FutioTuner::new() } else { FutioTuner::default() };
    let mut m = Io::documented();
    let mut made: Vec<(FutioTunables, Io)> = Vec::new();
    if c.rng.chance(1, 4) { let d = if c.rng.chance(1, 2) { FutioTunables::new() } else { FutioTunables::default() }; made.push((d, m.clone())); }
    let n = 1 + c.rng.usize(12);
    for i in 0..=n {
        let k = if i == n { 0 } else { c.rng.below(9) };
        let (s, ok): (String, bool) = match k {
            0 => {
                match (refused(|| t.finish())?, m.valid()) {
                    (Some(f), true) => { let got = Io::of(&f)?; ensure!(got == m, "configuration {:?} instead of {:?}", got, m); c.count("configurations compared", 1); made.push((f, m.clone())); }
                    (None, false) => c.count("configurations refused", 1),
                    (Some(_), false) => return violation(format!("accepted {:?}", m)),
                    (None, true) => return violation(format!("refused {:?}", m)),
                }
                continue;
            }
            1 => {
                let mut it = Tuner::new();
                let mut im = Image::documented();
                for _ in 0..c.rng.usize(4) { set(c, &mut it, &mut im)?; }
                let f = match finish(c, &it, &im)? { Some(f) => f, None => continue };
                let x = refused(|| { t.set_image(f); })?;
                m.image = im;
                ("limits".into(), x.is_some())
            }
            2 => {
                let v = size(&mut c.rng) as usize;
                let x = refused(|| { t.set_stream_item_size(v); })?;
                if v == 0 { ensure!(x.is_none(), "item size 0 accepted"); c.count("settings refused", 1); continue; }
                m.item = v;
                (format!("item size {}", v), x.is_some())
            }
            3 => { let d = duration(&mut c.rng); let x = refused(|| { t.set_res_timeout(d); })?; m.res = Some(d); (format!("response timeout {:?}", d), x.is_some()) }
            4 => { let d = duration(&mut c.rng); let x = refused(|| { t.set_body_timeout(d); })?; m.body = Some(d); (format!("body timeout {:?}", d), x.is_some()) }
            5 => { let x = refused(|| { t.unset_res_timeout(); })?; m.res = None; ("no response timeout".into(), x.is_some()) }
            6 => { let x = refused(|| { t.unset_body_timeout(); })?; m.body = None; ("no body timeout".into(), x.is_some()) }
            _ => {
                let p = match c.rng.below(3) { 0 => BlockingPolicy::Direct, 1 => BlockingPolicy::Dispatch, _ => BlockingPolicy::Permit(flow::semaphore(1 + c.rng.usize(3))) };
                let x = refused(|| { t.set_blocking_policy(p); })?;
                m.policy = policy(p);
                (format!("policy {}", m.policy.0), x.is_some())
            }
        };
        ensure!(ok, "refused a setting: {}", s);
        c.count("settings made", 1);
        c.step(s);
    }
    let extra: Vec<_> = made.iter().map(|(f, m)| (f.clone(), m.clone())).collect();
    drop(t);
    for (f, m) in made.iter().chain(&extra) {
        let got = Io::of(f)?;
        ensure!(&got == m, "an earlier configuration became {:?}, was {:?}", got, m);
        c.count("earlier configurations compared", 1);
    }
    let d = c.trace.join(";");
    c.distinct_str(&d);
    Ok(())
}

/// The settings are those used: sizes of reads, the directory, both limits.
fn used(c: &mut Case<'_>) -> CaseResult {
    struct Asked<'a> { data: &'a [u8], at: usize, sizes: Vec<usize> }
    impl std::io::Read for Asked<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.sizes.push(b.len());
            let n = b.len().min(self.data.len() - self.at);
            b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
    let ram = c.rng.below(20_000);
    let max = ram + c.rng.below(20_000);
    let (br, bf) = (1 + c.rng.usize(9000), 1 + c.rng.usize(9000));
    let d = c.dir.join("t");
    std::fs::create_dir_all(&d)?;
    let t = Tuner::new().set_max_body(max).set_buffer_size_fs(bf).set_temp_dir(&d).set_max_body_ram(ram).set_buffer_size_ram(br).finish();
    let len = c.rng.usize(max as usize + 3000);
    let data = c.rng.bytes(len);
    let est = if c.rng.chance(1, 2) { 0 } else { c.rng.below(2 * max + 2) };
    let mut s = Asked { data: &data, at: 0, sizes: Vec::new() };
    let b = BodyImage::read_from(&mut s, est, &t);
    c.step(format!("{} bytes, estimated {}, limits {} {}, buffers {} {}", len, est, ram, max, br, bf));
    let (lo, hi) = (br.min(bf), br.max(bf));
    ensure!(s.sizes.iter().all(|n| *n <= hi), "asked the source for {:?} bytes with buffers of {} and {}", s.sizes.iter().max(), lo, hi);
    match b {
        Ok(b) => {
            ensure!(len as u64 <= max, "accepted {} bytes, maximum {}", len, max);
            ensure!(b.is_ram() == (len as u64 <= ram && est <= ram) || len == 0, "in RAM: {}; {}", b.is_ram(), c.trace[0]);
            let got = gen::read_all(&b)?;
            ensure!(got == data, "{}", diff(&got, &data));
            c.count("bodies taken in as configured", 1);
        }
        Err(_) => { ensure!(len as u64 > max, "refused {} bytes, maximum {}", len, max); c.count("bodies refused as configured", 1); }
    }
    let d = c.trace[0].clone();
    c.distinct_str(&d);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(20_000, 200_000);
    x.run("image", n, image);
    let n = x.tier(20_000, 200_000);
    x.run("io", n, io);
    let n = x.tier(4000, 40_000);
    x.run("used", n, used);
    x.require("settings made", 50_000);
    x.require("settings refused", 1000);
    x.require("configurations compared", 10_000);
    x.require("configurations refused", 1000);
    x.require("earlier configurations compared", 10_000);
    x.require("bodies taken in as configured", 500);
    x.require("bodies refused as configured", 100);
}
