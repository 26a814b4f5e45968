//! C02: ingest fidelity.
use std::io::{self, Read};

use body_image::{BodyError, BodyImage, Tuner};

use crate::ctx::*;
use crate::gen;
use crate::rng::Rng;

/// A source that follows a plan: chunk sizes, interruptions, an end or an
/// error, then stays at its end.
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
    pub style: u64,
    pub interrupts: u64,
    pub fail_at: Option<(usize, io::ErrorKind)>,
    pub failed: bool,
    /// Behind a failure: fails again, is at its end, or goes on.
    pub then: u64,
    pub calls: u64,
    pub after_end: u64,
    pub biggest: usize,
}

impl Source {
    pub fn new(data: Vec<u8>, rng: Rng, style: u64) -> Source {
        Source { data, pos: 0, rng, style, interrupts: 0, fail_at: None, failed: false, then: 0, calls: 0, after_end: 0, biggest: 0 }
    }
}

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.biggest = self.biggest.max(b.len());
        if self.calls > 4 * self.data.len() as u64 + 100_000 {
            std::panic::resume_unwind(Box::new(StepBudget(format!("source read {} times for {} bytes", self.calls, self.data.len()))));
        }
        if self.rng.chance(1, 5) {
            self.interrupts += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() { return Ok(0); }
        if let Some((at, kind)) = self.fail_at {
            if self.failed && self.then == 1 { return Ok(0); }
            if self.pos >= at && (!self.failed || self.then == 0) { self.failed = true; return Err(io::Error::new(kind, "source failure 7f31")); }
        }
        let left = self.data.len() - self.pos;
        if left == 0 { self.after_end += 1; return Ok(0); }
        let n = match self.style {
            0 => 1,
            1 => 1 + self.rng.usize(13),
            2 => 1 + self.rng.usize(3000),
            3 => b.len(),
            4 => 1024,
            _ => *self.rng.pick(&[1usize, 1023, 1024, 7168, 7169, 8191, 8192, 100_000]),
        };
        let mut n = n.min(left).min(b.len());
        if let Some((at, _)) = self.fail_at { if at > self.pos { n = n.min(at - self.pos); } }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn estimate(r: &mut Rng, len: u64, ram: u64) -> u64 {
    match r.below(7) {
        0 | 1 => 0,
        2 => len,
        3 => ram,
        4 => ram.saturating_add(1),
        5 => r.below(len * 2 + 2),
        // An absurd estimate is still only an estimate.
        _ => *r.pick(&[1u64 << 20, 1 << 40, u64::MAX / 2, u64::MAX]),
    }
}

fn case(c: &mut Case<'_>, fail: bool) -> CaseResult {
    let style = c.rng.below(6);
    let max = if style == 0 { 3000 } else { 300_000 };
    let l = gen::len(&mut c.rng, max) as usize;
    let data = c.rng.bytes(l);
    let dir = c.dir.clone();
    let tune = gen::tune(&mut c.rng, l as u64, &dir);
    let est = estimate(&mut c.rng, l as u64, tune.max_body_ram());
    let seed = c.rng.next();
    let mut src = Source::new(data.clone(), Rng::new(seed), style);
    let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock,
        io::ErrorKind::TimedOut, io::ErrorKind::InvalidData];
    if fail {
        let at = match c.rng.below(4) { 0 => 0, 1 => l, _ => c.rng.usize(l + 1) };
        let k = *c.rng.pick(&kinds);
        src.fail_at = Some((at, k));
        src.then = c.rng.below(3);
    }
    c.step(format!("len {} est {} style {} ram {} bufs {}/{} fail {:?} then {}", l, est, style, tune.max_body_ram(),
        tune.buffer_size_ram(), tune.buffer_size_fs(), src.fail_at, src.then));
    let r = if c.rng.chance(1, 3) {
        BodyImage::read_from(&mut src as &mut dyn Read, est, &tune)
    } else {
        BodyImage::read_from(&mut src, est, &tune)
    };
    c.count("source reads", src.calls);
    c.count("interruptions", src.interrupts);
    match r {
        Ok(b) => {
            if fail { return violation(format!("source error at {:?} became a body of {} bytes", src.fail_at, b.len())); }
            ensure!(b.len() == l as u64, "body length {} for a source of {}", b.len(), l);
            let got = gen::read_all(&b).map_err(|e| Stop::Violation(format!("reading back: {}", e)))?;
            ensure!(got == data, "ingested content: {}", diff(&got, &data));
            c.count("bodies compared", 1);
            c.count(if b.is_ram() { "ended in RAM" } else { "ended in a file" }, 1);
        }
        Err(e) => {
            let (_, kind) = match src.fail_at {
                Some(f) if src.failed => f,
                _ => return violation(format!("ingest failed without a source error: {}", e)),
            };
            match e {
                BodyError::Io(e) => {
                    ensure!(e.kind() == kind && e.to_string().contains("7f31"), "source error replaced by {:?} {}", e.kind(), e);
                    c.count("source errors passed through", 1);
                }
                e => return violation(format!("source error reported as {}", e)),
            }
        }
    }
    c.distinct_str(&format!("{}/{}/{}/{}/{}/{}/{:?}", l, est, style, tune.max_body_ram(), tune.buffer_size_ram(), tune.buffer_size_fs(), src.fail_at));
    Ok(())
}

/// Defaults, as most callers use them, with long bodies.
fn defaults(c: &mut Case<'_>) -> CaseResult {
    let l = 100_000 + c.rng.usize(3_000_000);
    let data = c.rng.bytes(l);
    let dir = c.dir.clone();
    let tune = Tuner::new().set_temp_dir(&dir).finish();
    let seed = c.rng.next();
    let style = 2 + c.rng.below(4);
    let mut src = Source::new(data.clone(), Rng::new(seed), style);
    let est = *c.rng.pick(&[0u64, 4096, l as u64]);
    let b = BodyImage::read_from(&mut src, est, &tune).map_err(|e| Stop::Violation(format!("ingest failed: {}", e)))?;
    let got = gen::read_all(&b).map_err(|e| Stop::Violation(format!("reading back: {}", e)))?;
    ensure!(got == data, "ingested content: {}", diff(&got, &data));
    c.count("bodies compared", 1);
    c.step(format!("len {} est {} style {}", l, est, style));
    c.distinct_str(&format!("{}/{}/{}", l, est, style));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(2500, 20000);
    x.run("chunked-sources", n, |c| case(c, false));
    x.run("failing-sources", n, |c| case(c, true));
    let n = x.tier(40, 400);
    x.run("default-tunables", n, defaults);
    x.require("bodies compared", 1000);
    x.require("source errors passed through", 1000);
    x.require("interruptions", 1000);
    x.require("ended in RAM", 100);
    x.require("ended in a file", 100);
}
