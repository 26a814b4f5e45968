//! Notes the running case for post-mortem use, and recognises a process that
//! can never move again: every thread asleep without a single context switch
//! over many samples. It never judges by elapsed time alone.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};
use std::sync::Mutex;

use crate::ctx::{js, HEARTBEAT, PANICS};
use crate::interpose::quiet;

static CURRENT: Mutex<Option<(PathBuf, String, u64)>> = Mutex::new(None);
static DONE: AtomicBool = AtomicBool::new(false);
/// Set while a scenario legitimately waits for a timer or another process.
pub static EXTERNAL: AtomicBool = AtomicBool::new(false);
/// The process a scenario waits for, if any. It has no timer above a minute.
static CHILD: AtomicI32 = AtomicI32::new(0);

/// Wait, by `f`, for the process `id`.
pub fn waiting<T>(id: u32, f: impl FnOnce() -> T) -> T {
    CHILD.store(id as i32, SeqCst);
    EXTERNAL.store(true, SeqCst);
    let r = f();
    EXTERNAL.store(false, SeqCst);
    CHILD.store(0, SeqCst);
    r
}

pub fn finished() { DONE.store(true, SeqCst); }

/// Called before each case.
pub fn current(scenario: &str, case: u64) {
    let mut g = CURRENT.lock().unwrap();
    if let Some(c) = g.as_mut() {
        c.1 = scenario.to_string();
        c.2 = case;
        quiet(|| {
            let _ = std::fs::write(status(&c.0), format!("{}:{:#x}\n", scenario, case));
        });
    }
}

fn status(out: &Path) -> PathBuf { out.with_extension("current") }

/// (all threads asleep, fingerprint of their scheduling counters, cpu ticks)
fn sample(of: &str, me: i32) -> (bool, u64, u64) {
    let mut asleep = true;
    let mut fp = 0u64;
    let mut cpu = 0u64;
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", of)) {
        for e in rd.flatten() {
            let tid: i32 = e.file_name().to_string_lossy().parse().unwrap_or(0);
            if tid == me { continue; }
            let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
            let rest = stat.rsplit(')').next().unwrap_or("");
            let f: Vec<&str> = rest.split_whitespace().collect();
            if f.len() > 13 {
                if f[0] != "S" { asleep = false; }
                cpu += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
            } else { asleep = false; }
            let st = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
            for l in st.lines().filter(|l| l.contains("ctxt_switches")) {
                let n: u64 = l.split_whitespace().last().and_then(|x| x.parse().ok()).unwrap_or(0);
                fp = fp.wrapping_mul(31).wrapping_add(n).wrapping_add(tid as u64);
            }
        }
    }
    (asleep, fp, cpu)
}

pub fn start(out: &Path) {
    *CURRENT.lock().unwrap() = Some((out.to_path_buf(), String::new(), 0));
    let out = out.to_path_buf();
    std::thread::Builder::new().name("watchdog".into()).spawn(move || quiet(|| {
        let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
        let (mut beat, mut still, mut fp, mut cpu0) = (0u64, 0u32, 0u64, 0u64);
        let (mut kid, mut kid_still, mut kid_fp) = (0, 0u32, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if DONE.load(SeqCst) { return; }
            let b = HEARTBEAT.load(SeqCst);
            let (asleep, f, cpu) = sample("self", me);
            let k = CHILD.load(SeqCst);
            if k != 0 {
                let (ka, kf, kc) = sample(&k.to_string(), 0);
                let same = ka && asleep && k == kid && kf == kid_fp && f == fp && kf != 0;
                kid = k;
                kid_fp = kf;
                if same { kid_still += 1 } else { kid_still = 0 }
                let why = if kid_still >= 200 { "deadlock: every thread of the started process and of this one is asleep, and none was scheduled over 200 consecutive samples" }
                    else if kc > 20_000 { "no progress: the started process consumed over 200 s of processor time" } else { "" };
                if !why.is_empty() && CHILD.load(SeqCst) == k {
                    unsafe { libc::kill(k, libc::SIGKILL) };
                    report(&out, why);
                }
            } else { kid = 0; kid_still = 0; }
            if b != beat || cpu0 == 0 {
                beat = b; still = 0; fp = f; cpu0 = cpu.max(1);
                continue;
            }
            if asleep && f == fp && !EXTERNAL.load(SeqCst) { still += 1 } else { still = 0 }
            fp = f;
            if still >= 50 {
                report(&out, "deadlock: every thread of the process is asleep and none was scheduled over 50 consecutive samples; no timer, process or network peer is outstanding");
            }
            if cpu.saturating_sub(cpu0) > 20_000 {
                report(&out, "no progress: one case consumed over 200 s of processor time (a case needs well under 10 s)");
            }
        }
    })).expect("watchdog");
}

fn report(out: &Path, what: &str) -> ! {
    let (sc, case) = match CURRENT.try_lock() {
        Ok(g) => g.as_ref().map(|c| (c.1.clone(), c.2)).unwrap_or_default(),
        Err(_) => Default::default(),
    };
    let pan: Vec<String> = PANICS.try_lock().map(|p| p.iter().map(|x| x.show()).collect()).unwrap_or_default();
    let s = format!("{{\"property\": \"\", \"evaluations\": 1, \"distinct\": 1, \"wall_ms\": 0, \"truncated\": true, \"counters\": {{}}, \"missing\": [], \"samples\": [], \"errors\": [], \"violations\": [{{\"scenario\": {}, \"case\": \"{:#x}\", \"what\": {}, \"trace\": {}}}]}}\n",
        js(&sc), case, js(what), js(&pan.join("; ")));
    let _ = std::fs::write(out, s);
    unsafe { libc::_exit(0) }
}
