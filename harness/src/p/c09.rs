//! C09: appends only, offsets for good.
use std::path::Path;

use barc::*;

use crate::archive::*;
use crate::ctx::*;
use crate::interpose::quiet;
use crate::rng::hash_bytes;

fn rerr(what: &str, e: BarcError) -> Stop { Stop::Violation(format!("{}: {}", what, e)) }

fn bytes(p: &Path) -> Vec<u8> { quiet(|| std::fs::read(p)).unwrap_or_default() }

struct Open { rd: BarcReader, next: usize }

fn history(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let path = dir.join("a.barc");
    let mut known: Vec<(u64, Model)> = Vec::new();
    // Sometimes starts with what another implementation wrote.
    if c.rng.chance(1, 3) {
        let mut f = Vec::new();
        for _ in 0..c.rng.usize(4) {
            let (_, m) = record(&mut c.rng, &dir, 5000);
            known.push((f.len() as u64, m.clone()));
            let a = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
            let e = encode(&mut c.rng, &m, a);
            f.extend(e);
        }
        std::fs::write(&path, &f)?;
        c.step(format!("{} records from elsewhere", known.len()));
    }
    let mut files = vec![BarcFile::new(&path)];
    let mut readers: Vec<Open> = Vec::new();
    let mut shadow = bytes(&path);
    let mut d = shadow.len() as u64;
    for _ in 0..6 + c.rng.usize(14) {
        match c.rng.below(8) {
            0 | 1 | 2 => {
                let (rec, m) = record(&mut c.rng, &dir, 12_000);
                let s = Strat::any(&mut c.rng);
                let k = c.rng.usize(files.len());
                let several = c.rng.chance(1, 4);
                let mut w = files[k].writer().map_err(|e| rerr("writer", e))?;
                for _ in 0..if several { 2 } else { 1 } {
                    let at = w.write(&rec, &*s.boxed()).map_err(|e| rerr("write", e))?;
                    let now = bytes(&path);
                    ensure!(now.len() > shadow.len(), "a write did not lengthen the file");
                    ensure!(now[..shadow.len()] == shadow[..], "earlier bytes altered by a write: {}", diff(&now[..shadow.len()], &shadow));
                    ensure!(known.iter().all(|x| x.0 != at), "offset {} returned twice", at);
                    shadow = now;
                    known.push((at, m.clone()));
                    c.count("writes", 1);
                    c.count("prefixes compared", 1);
                    d = d.wrapping_mul(31).wrapping_add(at);
                }
                drop(w);
                c.step(format!("write {} through handle {}", s.short(), k));
            }
            3 => { files.push(BarcFile::new(&path)); c.step("another handle"); }
            4 if files.len() > 1 => { let k = c.rng.usize(files.len()); files.swap_remove(k); c.step("close a handle"); }
            5 if path.exists() => {
                let k = c.rng.usize(files.len());
                readers.push(Open { rd: files[k].reader().map_err(|e| rerr("reader", e))?, next: 0 });
                c.step("another reader");
            }
            6 if !readers.is_empty() && !known.is_empty() => {
                // Random access.
                let t = reader_tune(&mut c.rng, &dir);
                let i = c.rng.usize(readers.len());
                let k = c.rng.usize(known.len());
                let r = &mut readers[i];
                r.rd.seek(known[k].0).map_err(|e| rerr("seek", e))?;
                ensure!(r.rd.offset() == known[k].0, "offset {} after a seek to {}", r.rd.offset(), known[k].0);
                match r.rd.read(&t).map_err(|e| rerr("read at a known offset", e))? {
                    None => return violation(format!("nothing at offset {} of record {}", known[k].0, k)),
                    Some(rec) => if let Some(x) = differs(&rec, &known[k].1) { return violation(format!("at offset {} of record {}: {}", known[k].0, k, x)); }
                }
                r.next = k + 1;
                c.count("random reads", 1);
                c.step(format!("read record {} at {}", k, known[k].0));
            }
            _ if !readers.is_empty() => {
                // Sequentially onwards, to the present end.
                let t = reader_tune(&mut c.rng, &dir);
                let i = c.rng.usize(readers.len());
                let stop = if c.rng.chance(1, 3) { c.rng.usize(3) } else { usize::MAX };
                let r = &mut readers[i];
                let mut n = 0;
                while n < stop {
                    let at = r.rd.offset();
                    if r.next == known.len() {
                        ensure!(at == shadow.len() as u64, "offset {} at the end of a file of {}", at, shadow.len());
                        for _ in 0..2 {
                            ensure!(r.rd.read(&t).map_err(|e| rerr("read at the end", e))?.is_none(), "a record beyond the last one");
                            ensure!(r.rd.offset() == at, "offset moved at the end");
                        }
                        c.count("ends seen", 1);
                        break;
                    }
                    ensure!(at == known[r.next].0, "sequential read is at {} where record {} was written at {}", at, r.next, known[r.next].0);
                    match r.rd.read(&t).map_err(|e| rerr("sequential read", e))? {
                        None => return violation(format!("end of records at {} of {} (offset {})", r.next, known.len(), at)),
                        Some(rec) => if let Some(x) = differs(&rec, &known[r.next].1) { return violation(format!("record {}: {}", r.next, x)); }
                    }
                    r.next += 1;
                    n += 1;
                    c.count("sequential reads", 1);
                }
                c.step(format!("{} read in sequence", n));
            }
            _ => {}
        }
        ensure!(bytes(&path) == shadow, "file changed by something other than a write: after {}", c.trace.last().cloned().unwrap_or_default());
    }
    // A last look, all offsets in random order with a new reader.
    if !known.is_empty() {
        let t = reader_tune(&mut c.rng, &dir);
        let mut rd = BarcFile::new(&path).reader().map_err(|e| rerr("reader", e))?;
        let mut order: Vec<usize> = (0..known.len()).collect();
        c.rng.shuffle(&mut order);
        for k in order {
            rd.seek(known[k].0).map_err(|e| rerr("seek", e))?;
            match rd.read(&t).map_err(|e| rerr("read at a known offset", e))? {
                None => return violation(format!("nothing at offset {}", known[k].0)),
                Some(rec) => if let Some(x) = differs(&rec, &known[k].1) { return violation(format!("at offset {}: {}", known[k].0, x)); }
            }
            let next = known.get(k + 1).map(|x| x.0).unwrap_or(shadow.len() as u64);
            ensure!(rd.offset() == next, "offset {} after record {}, the next one is at {}", rd.offset(), k, next);
            c.count("random reads", 1);
        }
    }
    c.in_set("file images", hash_bytes(&shadow));
    c.distinct(d);
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(500, 5000);
    x.run("histories", n, history);
    if cfg!(feature = "interpose") {
        let n = x.tier(4, 30);
        x.run("vast-bodies", n, super::c13::vast);
        x.require("far bytes compared", 100);
    }
    x.require("writes", 1000);
    x.require("random reads", 500);
    x.require("sequential reads", 500);
    x.require("ends seen", 100);
}
