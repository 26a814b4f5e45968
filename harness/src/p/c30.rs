//! C30: log lines.
use std::collections::HashMap;
use std::fmt;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

use log::{Level, LevelFilter};

use crate::ctx::*;
use crate::rng::{hash_bytes, Rng};

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];
const TARGETS: [&str; 18] = ["barc_cli", "blocking_permit_x", "body_image", "body_image::read", "body_image_futio::stream", "barc", "barc::main", "blocking_permit", "blocking_permit::dispatch_pool",
    "hyper", "hyper::client", "tokio", "mio::poll", "bar", "xbarc", "my::barc", "Barc", "body-image"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Setup, Test, Twice, Never }

#[derive(Clone)]
struct Msg { id: String, level: Level, target: &'static str, text: String, inner: Option<Box<Msg>> }

#[derive(Clone)]
struct Thread { name: Option<String>, tokio: bool, msgs: Vec<Msg>, last: Option<Msg> }

#[derive(Clone)]
struct Plan { how: How, verbosity: u32, second: u32, threads: Vec<Thread>, pause: bool }

fn text(r: &mut Rng) -> String {
    let n = match r.below(30) { 0 => 0, 1 => 3000 + r.usize(12_000), 2..=5 => 200 + r.usize(900), _ => r.usize(60) };
    let set: Vec<char> = match r.below(3) { 0 => "abc: {}%".chars().collect(), 1 => "αβγ→ x".chars().collect(), _ => ('a'..='z').collect() };
    (0..n).map(|_| set[r.usize(set.len())]).collect()
}

fn msg(r: &mut Rng, id: String, nest: bool) -> Msg {
    let inner = if nest && r.chance(1, 12) { Some(Box::new(msg(r, format!("{}n", id), false))) } else { None };
    let t = text(r);
    Msg { text: format!("<{}> {} </{}>", id, t, id), id, level: *r.pick(&LEVELS), target: *r.pick(&TARGETS), inner }
}

fn plan(seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let how = match r.below(10) { 0 | 1 => How::Test, 2 => How::Twice, 3 if r.chance(1, 3) => How::Never, _ => How::Setup };
    let n = 1 + r.usize(8);
    let most = if r.chance(1, 4) { 120 } else { 25 };
    let per = 1 + r.usize(most);
    let threads = (0..n).map(|k| {
        let tokio = r.chance(1, 8);
        let name = if tokio { None } else {
            match r.below(7) { 0 => None, 1 => Some("worker".into()), 2 => Some(format!("thread {} of {}", k, n)), 3 => Some("ünïcode".into()), 4 => Some("tokio-runtime-worker".into()), 5 => Some((*r.pick(&["tokio", "tokio-pool 1", "tokio-runtime-worker-2", "my-tokio-runtime-worker", "hyper"])).into()), _ => Some(format!("t-{}", k)) }
        };
        let msgs = (0..1 + r.usize(per)).map(|i| msg(&mut r, format!("{}.{}", k, i), true)).collect();
        let last = if !tokio && r.chance(1, 3) { Some(msg(&mut r, format!("{}.last", k), false)) } else { None };
        Thread { name, tokio, msgs, last }
    }).collect();
    Plan { how, verbosity: if r.chance(1, 8) { 3 + r.below(5) as u32 } else { r.below(4) as u32 }, second: r.below(5) as u32, threads, pause: r.chance(1, 3) }
}

/// What the documentation says is printed.
fn shown(p: &Plan, m: &Msg) -> bool {
    if p.how == How::Never { return false; }
    let max = match p.verbosity { 0 => LevelFilter::Info, 1 | 2 => LevelFilter::Debug, _ => LevelFilter::Trace };
    if m.level > max { return false; }
    let local = ["body_image", "barc", "blocking_permit"].iter().any(|l| m.target.starts_with(l));
    p.verbosity != 1 || local || m.level <= Level::Info
}

/// Logs its inner message while being formatted.
struct Nest<'a>(&'a Msg);
impl fmt::Display for Nest<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m = &self.0;
        let half = m.text.char_indices().nth(m.text.chars().count() / 2).map_or(0, |x| x.0);
        f.write_str(&m.text[..half])?;
        if let Some(i) = &m.inner { emit(i); }
        f.write_str(&m.text[half..])
    }
}

fn emit(m: &Msg) {
    if m.inner.is_some() { log::log!(target: m.target, m.level, "{}", Nest(m)); return; }
    match m.level {
        Level::Error => log::error!(target: m.target, "{}", m.text),
        Level::Warn => log::warn!(target: m.target, "{}", m.text),
        Level::Info => log::info!(target: m.target, "{}", m.text),
        Level::Debug => log::debug!(target: m.target, "{}", m.text),
        Level::Trace => log::trace!(target: m.target, "{}", m.text),
    }
}

/// Logs when its thread ends.
struct AtEnd(Msg);
impl Drop for AtEnd { fn drop(&mut self) { emit(&self.0) } }
thread_local! { static AT_END: std::cell::RefCell<Option<AtEnd>> = const { std::cell::RefCell::new(None) }; }

pub fn child(args: &[String]) -> i32 {
    let p = plan(args[0].parse().unwrap());
    match p.how {
        How::Setup => if let Err(e) = piccolog::setup_logger(p.verbosity) { println!("bad: {}", e); return 1; },
        How::Test => { assert!(piccolog::test_logger()); assert!(piccolog::test_logger()); }
        How::Twice => {
            if let Err(e) = piccolog::setup_logger(p.verbosity) { println!("bad: {}", e); return 1; }
            if piccolog::setup_logger(p.second).is_ok() { println!("bad: set up twice"); return 1; }
        }
        How::Never => { assert!(piccolog::test_logger()); }
    }
    let gate = Arc::new(Barrier::new(p.threads.len()));
    let mut labels = Vec::new();
    let mut hs = Vec::new();
    for t in p.threads.clone() {
        let gate = gate.clone();
        let (tokio, name) = (t.tokio, t.name.clone());
        let work = move || {
            if let Some(l) = t.last.clone() { AT_END.with(|a| *a.borrow_mut() = Some(AtEnd(l))); }
            gate.wait();
            for m in &t.msgs { emit(m); }
            let th = std::thread::current();
            format!("{:?}", th.id())
        };
        if tokio {
            let (tx, rx) = std::sync::mpsc::channel();
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
            rt.spawn(async move { let name = std::thread::current().name().unwrap_or("-").to_string(); let id = work(); tx.send((name, id)).unwrap(); });
            hs.push((None, Some((rt, rx)), None));
        } else {
            let mut b = std::thread::Builder::new();
            if let Some(n) = name.clone() { b = b.name(n); }
            hs.push((Some(b.spawn(work).unwrap()), None, name));
        }
    }
    for (h, rt, name) in hs {
        let (name, id) = match (h, rt) {
            (Some(h), _) => (name.unwrap_or_else(|| "-".into()), h.join().unwrap()),
            (_, Some((rt, rx))) => { let x = rx.recv().unwrap(); drop(rt); x }
            _ => unreachable!(),
        };
        labels.push(if name == "tokio-runtime-worker" { format!("tokio-w-{}", id) } else { name });
    }
    log::logger().flush();
    for l in labels { println!("{}", l); }
    0
}

fn case(c: &mut Case<'_>) -> CaseResult {
    let seed = c.rng.next();
    let p = plan(seed);
    let total: usize = p.threads.iter().map(|t| t.msgs.len()).sum();
    c.step(format!("{:?} verbosity {} (then {}), {} threads, {} messages{}", p.how, p.verbosity, p.second, p.threads.len(), total, if p.pause { ", slow pipe" } else { "" }));
    let mut cmd = Command::new(std::env::current_exe()?);
    cmd.arg("child").arg("C30").arg(seed.to_string()).env_remove("TEST_LOG").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if p.how == How::Test { cmd.env("TEST_LOG", (p.verbosity + 1).to_string()); }
    if p.how == How::Never && p.second > 2 { cmd.env("TEST_LOG", "0"); }
    let mut k = cmd.spawn()?;
    let mut err = k.stderr.take().unwrap();
    let mut out = Vec::new();
    let done = crate::watchdog::waiting(k.id(), || -> std::io::Result<_> {
        if p.pause {
            // A small pipe, read in small pieces, makes writes come in parts.
            use std::os::unix::io::AsRawFd;
            unsafe { libc::fcntl(err.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
            let mut b = vec![0; 1 + c.rng.usize(3000)];
            loop { match err.read(&mut b)? { 0 => break, n => out.extend_from_slice(&b[..n]) } }
        } else { err.read_to_end(&mut out)?; }
        k.wait_with_output()
    })?;
    let says = String::from_utf8_lossy(&done.stdout).into_owned();
    let lossy = String::from_utf8_lossy(&out).into_owned();
    if done.status.code() != Some(0) {
        let tail: String = lossy.chars().rev().take(600).collect::<String>().chars().rev().collect();
        if lossy.contains("panicked at src/") && !lossy.contains("panicked at /") { return Err(Stop::Harness(format!("logging process: {:?}: {}", done.status, tail))); }
        return violation(format!("logging process ended with {:?}: {} {}", done.status, says.trim(), tail));
    }
    let labels: Vec<&str> = says.lines().collect();
    ensure!(labels.len() == p.threads.len(), "{} labels for {} threads", labels.len(), p.threads.len());
    let mut want: HashMap<String, (usize, Msg)> = HashMap::new();
    let mut hidden: HashMap<String, Msg> = HashMap::new();
    for (i, t) in p.threads.iter().enumerate() {
        for m in t.msgs.iter().chain(&t.last) {
            let s = shown(&p, m);
            if s { want.insert(m.id.clone(), (i, m.clone())); } else { hidden.insert(m.id.clone(), m.clone()); }
            // The inner message is only logged while the outer one is formatted.
            if let (true, Some(n)) = (s, &m.inner) { if shown(&p, n) { want.insert(n.id.clone(), (i, (**n).clone())); } else { hidden.insert(n.id.clone(), (**n).clone()); } }
        }
    }
    let n = want.len();
    ensure!(out.is_empty() || out.ends_with(b"\n"), "the last line is not ended");
    let (mut prev, mut switches, mut order) = (usize::MAX, 0u64, Vec::new());
    for l in lossy.lines() {
        let s = |x: &str| x.chars().take(160).collect::<String>();
        let id = match (l.find('<'), l.find('>')) { (Some(a), Some(b)) if a < b => l[a + 1..b].to_string(), _ => return violation(format!("a line that is no message: {:?}", s(l))) };
        if let Some(m) = hidden.get(&id) { return violation(format!("{} message from {} printed at verbosity {} ({:?}): {:?}", m.level, m.target, p.verbosity, p.how, s(l))); }
        let (i, m) = match want.remove(&id) { Some(x) => x, None => return violation(format!("message {} printed twice or never logged: {:?}", id, s(l))) };
        let pre = match l.strip_suffix(&m.text[..]) { Some(x) => x, None => return violation(format!("line of message {} is not whole: {:?}", id, s(l))) };
        let rest = pre.trim_start();
        ensure!(rest.starts_with(m.level.as_str()), "{} message labelled {:?}", m.level, s(pre));
        let rest = rest[m.level.as_str().len()..].trim_start();
        ensure!(rest.starts_with(m.target) && rest[m.target.len()..].starts_with(|x: char| x == ' ' || x == ':'), "message of target {} labelled {:?}", m.target, s(pre));
        let tn = rest[m.target.len()..].trim().trim_end_matches(':').trim();
        // Threads at their end may have lost their name.
        ensure!(tn == labels[i] || (id.ends_with("last") && tn == "-"), "message of thread {:?} labelled {:?}", labels[i], s(pre));
        if i != prev { switches += 1; prev = i; }
        order.push(i as u8);
    }
    if let Some((id, (_, m))) = want.iter().next() { return violation(format!("{} of {} enabled messages missing, such as {} {} {}", want.len(), n, id, m.level, m.target)); }
    c.count("messages printed", n as u64);
    c.count("messages withheld", hidden.len() as u64);
    c.count("changes of thread between lines", switches);
    c.count("nested messages", p.threads.iter().flat_map(|t| &t.msgs).filter(|m| m.inner.as_ref().map_or(false, |i| shown(&p, m) && shown(&p, i))).count() as u64);
    c.count("messages at thread end", p.threads.iter().filter(|t| t.last.as_ref().map_or(false, |m| shown(&p, m))).count() as u64);
    c.in_set("orders of threads", hash_bytes(&order));
    c.in_set_str("configurations", &format!("{:?}{}", p.how, p.verbosity));
    c.distinct(hash_bytes(&order) ^ seed);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(400, 5000);
    x.run("lines", n, case);
    x.require("messages printed", 5000);
    x.require("messages withheld", 2000);
    x.require("changes of thread between lines", 1000);
    x.require("nested messages", 50);
    x.require("messages at thread end", 50);
    x.require("distinct configurations", 10);
    x.require("distinct orders of threads", 100);
}
