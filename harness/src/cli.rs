//! Running the command line tool in a scratch directory, with limits.
use std::io;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;

use crate::archive::*;
use crate::ctx::*;
use crate::gen;
use crate::rng::{hash_bytes, mix, Rng};

pub struct Out { pub code: Option<i32>, pub signal: Option<i32>, pub out: Vec<u8>, pub err: Vec<u8> }

impl Out {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn show(&self) -> String {
        let e = String::from_utf8_lossy(&self.err);
        format!("status {:?}{}, stderr {:?}", self.code, self.signal.map(|s| format!(" signal {}", s)).unwrap_or_default(), e.chars().take(300).collect::<String>())
    }
}

pub fn tool() -> PathBuf {
    let mut p = std::env::current_exe().unwrap();
    p.set_file_name("barc");
    p
}

/// Limits given to the tool: CPU time, size of files it writes.
#[derive(Clone, Copy)]
pub struct Limits { pub cpu: u64, pub file: u64, pub ignore_fsize: bool }

pub const LIMITS: Limits = Limits { cpu: 60, file: 256 << 20, ignore_fsize: false };

/// Some calls ask for more logging, which goes to stderr and changes nothing else.
fn with_detail(args: &[String]) -> Vec<String> {
    let mut v = args.to_vec();
    let h = mix(hash_bytes(args.join("\0").as_bytes()));
    if h % 3 != 0 || args.is_empty() || args[0].starts_with('-') { return v; }
    let d: &[&str] = match (h >> 8) % 6 { 0 => &["-d"], 1 => &["-dd"], 2 => &["--debug"], 3 => &["-d", "--debug"], 4 => &["-dddd"], _ => &["-d", "-d", "-d"] };
    let at = ((h >> 16) % 2) as usize;
    for (i, f) in d.iter().enumerate() { v.insert(at + i, f.to_string()); }
    v
}

/// Run the tool below `dir` with its temporary files in `dir/tmp`; stdout goes to a file there.
pub fn call(dir: &Path, args: &[String], lim: Limits) -> io::Result<Out> {
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp)?;
    let so = dir.join(".stdout");
    let se = dir.join(".stderr");
    let mut cmd = Command::new(tool());
    let args = with_detail(args);
    cmd.args(&args).current_dir(dir).env_clear().env("TMPDIR", &tmp).env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null()).stdout(std::fs::File::create(&so)?).stderr(std::fs::File::create(&se)?);
    unsafe {
        cmd.pre_exec(move || {
            let set = |r, v: u64| { let l = libc::rlimit { rlim_cur: v, rlim_max: v + 1 }; libc::setrlimit(r, &l) };
            set(libc::RLIMIT_CPU, lim.cpu);
            set(libc::RLIMIT_FSIZE, lim.file);
            if lim.ignore_fsize { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
            Ok(())
        });
    }
    let mut k = cmd.spawn()?;
    let st = crate::watchdog::waiting(k.id(), || k.wait())?;
    use std::os::unix::process::ExitStatusExt;
    let r = Out { code: st.code(), signal: st.signal(), out: std::fs::read(&so)?, err: std::fs::read(&se)? };
    std::fs::remove_file(&so)?;
    std::fs::remove_file(&se)?;
    HEARTBEAT.fetch_add(1, SeqCst);
    Ok(r)
}

/// Temporary files the tool left behind.
pub fn left_over(dir: &Path) -> io::Result<usize> { Ok(std::fs::read_dir(dir.join("tmp"))?.count()) }

/// The plain values of some record.
pub fn model(r: &mut Rng, max: u64) -> Model {
    let m = if r.chance(1, 2) { gen::headers(r) } else { http::HeaderMap::new() };
    let q = gen::headers(r);
    let q = type_headers(r, q);
    let s = gen::headers(r);
    let s = type_headers(r, s);
    Model { meta: gen::canon(&m), req_h: gen::canon(&q), req_b: body_data(r, max / 2), res_h: gen::canon(&s), res_b: body_data(r, max) }
}

/// Bodies are mostly small, at times larger than the tool keeps in RAM.
pub fn some_model(r: &mut Rng) -> Model {
    let max = match r.below(40) { 0 => 420_000, 1..=5 => 40_000, _ => 1500 };
    let mut m = model(r, max);
    if max > 400_000 { let l = 190_000 + r.usize(220_000); m.res_b = if r.chance(1, 2) { r.bytes(l) } else { r.text(l) }; }
    m
}

/// A flag and its value in one of the accepted spellings.
pub fn flag(r: &mut Rng, short: &str, long: &str, value: &str) -> Vec<String> {
    match r.below(4) {
        0 => vec![short.to_string(), value.to_string()],
        1 => vec![format!("{}{}", short, value)],
        2 => vec![long.to_string(), value.to_string()],
        _ => vec![format!("{}={}", long, value)],
    }
}

/// Which records to take.
#[derive(Clone, Debug)]
pub struct Pick { pub index: Option<usize>, pub offset: Option<u64>, pub count: Option<u64> }

impl Pick {
    pub const ALL: Pick = Pick { index: None, offset: None, count: None };
    /// A selection for a file whose records start at `at` and end at `end`.
    pub fn any(r: &mut Rng, at: &[u64], end: u64) -> Pick {
        let n = at.len();
        let count = if r.chance(1, 2) { Some(match r.below(8) { 0 => u64::MAX, 1 => 0, _ => r.below(n as u64 + 3) }) } else { None };
        match r.below(5) {
            0 => Pick { index: None, offset: None, count },
            1 | 2 => Pick { index: Some(if r.chance(1, 20) { usize::MAX } else { r.usize(n + 3) }), offset: None, count },
            _ => { let i = r.usize(n + 1); Pick { index: None, offset: Some(*at.get(i).unwrap_or(&end)), count } }
        }
    }
    /// First record taken and the one after the last.
    pub fn range(&self, at: &[u64]) -> (usize, usize) {
        let n = at.len();
        let a = match (self.index, self.offset) {
            (Some(i), _) => i.min(n),
            (_, Some(o)) => at.iter().position(|x| *x == o).unwrap_or(n),
            _ => 0,
        };
        let b = match self.count { Some(c) => a.saturating_add(c.min(1 << 40) as usize).min(n), None => n };
        (a, b)
    }
    pub fn args(&self, r: &mut Rng) -> Vec<Vec<String>> {
        let mut v = Vec::new();
        if let Some(i) = self.index { v.push(flag(r, "-i", "--index", &i.to_string())); }
        if let Some(o) = self.offset { let s = if r.chance(1, 2) { format!("{:#x}", o) } else { o.to_string() }; v.push(flag(r, "-o", "--offset", &s)); }
        if let Some(c) = self.count { v.push(flag(r, "-c", "--count", &c.to_string())); }
        v
    }
    pub fn is_all(&self) -> bool { self.index.is_none() && self.offset.is_none() && self.count.is_none() }
}
