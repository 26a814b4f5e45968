//! C25: what the cat command prints.
use std::path::Path;

use crate::archive::*;
use crate::cli::*;
use crate::ctx::*;
use crate::rng::hash_bytes;

struct Input { name: String, img: Vec<u8>, at: Vec<u64>, models: Vec<Model>, end: u64 }

fn input(c: &mut Case<'_>, name: &str, max: usize) -> Input {
    let n = if c.rng.chance(1, 12) { 0 } else { 1 + c.rng.usize(max) };
    let mut f = Input { name: name.to_string(), img: Vec::new(), at: Vec::new(), models: Vec::new(), end: 0 };
    for _ in 0..n {
        let m = some_model(&mut c.rng);
        let a = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
        f.at.push(f.img.len() as u64);
        let e = encode(&mut c.rng, &m, a);
        f.img.extend(e);
        f.models.push(m);
        c.count(&format!("records {:?}", a), 1);
    }
    f.end = f.img.len() as u64;
    f
}

#[derive(Clone, Copy)]
struct Parts { on: [bool; 5] }

const PARTS: [&str; 5] = ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"];

/// Checks printed records one by one.
struct Printed<'a> { out: &'a [u8], pos: usize }

impl<'a> Printed<'a> {
    fn line(&mut self) -> Option<&'a [u8]> {
        let rest = &self.out[self.pos..];
        let n = rest.iter().position(|b| *b == b'\n')?;
        self.pos += n + 1;
        Some(&rest[..n])
    }
    fn done(&self) -> bool { self.pos == self.out.len() }

    fn separator(&mut self, name: &str, at: u64) -> Result<(), String> {
        let l = self.line().ok_or_else(|| format!("no separator for the record at {:#x}", at))?;
        let s = String::from_utf8_lossy(l).into_owned();
        if !s.starts_with("====") { return Err(format!("not a separator: {:?}", s.chars().take(80).collect::<String>())); }
        if !s.contains(name) { return Err(format!("separator without the file name {}: {:?}", name, s)); }
        let rest = s.replacen(name, "", 1);
        let offs: Vec<u64> = rest.split_whitespace().filter_map(|t| t.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok())).collect();
        if offs != [at] { return Err(format!("separator offsets {:?} for the record at {:#x}", offs, at)); }
        Ok(())
    }

    fn headers(&mut self, want: &Canon) -> Result<(), String> {
        if want.is_empty() { return Ok(()); }
        let mut got: Canon = Vec::new();
        loop {
            let l = self.line().ok_or("headers end early")?;
            let l = l.strip_suffix(b"\r").ok_or("header line without carriage return")?;
            if l.is_empty() { break; }
            let k = l.windows(2).position(|w| w == b": ").ok_or_else(|| format!("not a header line: {:?}", String::from_utf8_lossy(l)))?;
            let n = String::from_utf8_lossy(&l[..k]).into_owned();
            let v = l[k + 2..].to_vec();
            match got.iter_mut().find(|(x, _)| *x == n) { Some(e) => e.1.push(v), None => got.push((n, vec![v])) }
        }
        got.sort();
        if &got != want { return Err(format!("headers {:?} instead of {:?}", got, want).chars().take(500).collect()); }
        Ok(())
    }

    fn body(&mut self, want: &[u8]) -> Result<(), String> {
        if want.is_empty() { return Ok(()); }
        let e = (self.pos + want.len()).min(self.out.len());
        if &self.out[self.pos..e] != want { return Err(format!("body: {}", diff(&self.out[self.pos..e], want))); }
        self.pos = e;
        if !self.out[self.pos..].starts_with(b"\r\n") { return Err("body not followed by a line end".into()); }
        self.pos += 2;
        Ok(())
    }

    fn record(&mut self, name: &str, at: u64, m: &Model, p: Parts) -> Result<(), String> {
        self.separator(name, at)?;
        if p.on[0] { self.headers(&m.meta).map_err(|e| format!("meta: {}", e))?; }
        if p.on[1] { self.headers(&m.req_h).map_err(|e| format!("request {}", e))?; }
        if p.on[2] { self.body(&m.req_b).map_err(|e| format!("request {}", e))?; }
        if p.on[3] { self.headers(&m.res_h).map_err(|e| format!("response {}", e))?; }
        if p.on[4] { self.body(&m.res_b).map_err(|e| format!("response {}", e))?; }
        Ok(())
    }
}

fn part_args(c: &mut Case<'_>) -> (Parts, Vec<Vec<String>>) {
    if c.rng.chance(1, 3) { return (Parts { on: [true; 5] }, Vec::new()); }
    let mut on = [false; 5];
    let mut v = Vec::new();
    for (i, o) in on.iter_mut().enumerate() {
        if c.rng.chance(2, 5) {
            *o = true;
            let n = if i == 0 && c.rng.chance(1, 4) { "--meta-head" } else { PARTS[i] };
            v.push(vec![n.to_string()]);
        }
    }
    (if v.is_empty() { Parts { on: [true; 5] } } else { Parts { on } }, v)
}

fn stamp(dir: &Path) -> std::io::Result<Vec<(String, u64, std::time::SystemTime)>> {
    let mut v = Vec::new();
    for e in std::fs::read_dir(dir)? {
        let e = e?;
        if e.file_name() == "tmp" { continue; }
        let m = e.metadata()?;
        let h = if m.is_file() { hash_bytes(&std::fs::read(e.path())?) } else { 0 };
        v.push((e.file_name().to_string_lossy().into_owned(), h, m.modified()?));
    }
    v.sort();
    Ok(v)
}

fn args(c: &mut Case<'_>, mut groups: Vec<Vec<String>>, files: Vec<String>) -> Vec<String> {
    c.rng.shuffle(&mut groups);
    let mut a = vec!["cat".to_string()];
    let cut = c.rng.usize(groups.len() + 1);
    let (x, y) = groups.split_at(cut);
    a.extend(x.concat());
    a.extend(files);
    a.extend(y.concat());
    a
}

fn spell(c: &mut Case<'_>, dir: &Path, name: &str) -> String {
    match c.rng.below(4) { 0 => dir.join(name).to_string_lossy().into_owned(), 1 => format!("./{}", name), _ => name.to_string() }
}

/// Whole archives, any selection.
fn select(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let nf = if c.rng.chance(1, 4) { 2 + c.rng.usize(2) } else { 1 };
    let mut files = Vec::new();
    for i in 0..nf {
        let mut f = input(c, &["a.barc", "other file.barc", "c"][i], if nf > 1 { 3 } else { 6 });
        if c.rng.chance(1, 6) {
            f.img.extend(head_bytes(&Head { len: 0, kind: b'R', alg: b'P', meta: 0, req_h: 0, req_b: 0, res_h: 0 }));
            c.count("reserved tails", 1);
        }
        std::fs::write(dir.join(&f.name), &f.img)?;
        files.push(f);
    }
    let before = stamp(&dir)?;
    for _ in 0..3 {
        let pick = if nf > 1 { Pick::ALL } else { Pick::any(&mut c.rng, &files[0].at, files[0].end) };
        let (parts, mut groups) = part_args(c);
        groups.extend(pick.args(&mut c.rng));
        let names: Vec<String> = files.iter().map(|f| f.name.clone()).collect::<Vec<_>>().iter().map(|n| spell(c, &dir, n)).collect();
        let a = args(c, groups, names.clone());
        c.step(format!("barc {}", a.join(" ")));
        let o = call(&dir, &a, LIMITS)?;
        ensure!(o.ok(), "barc {}: {}", a.join(" "), o.show());
        let mut p = Printed { out: &o.out, pos: 0 };
        let mut n = 0;
        for (f, name) in files.iter().zip(&names) {
            let (x, y) = pick.range(&f.at);
            for i in x..y {
                if let Err(e) = p.record(name, f.at[i], &f.models[i], parts) {
                    return violation(format!("record {} of {}: {}; barc {}", i, f.at.len(), e, a.join(" ")));
                }
                n += 1;
            }
        }
        ensure!(p.done(), "{} more bytes printed after the {} selected records; barc {}", o.out.len() - p.pos, n, a.join(" "));
        ensure!(left_over(&dir)? == 0, "temporary files left behind; barc {}", a.join(" "));
        ensure!(stamp(&dir)? == before, "input directory changed; barc {}", a.join(" "));
        c.count("calls", 1);
        c.count("records printed", n);
        if pick.index.map_or(false, |i| i > 0) && pick.count.map_or(false, |k| k > 0) && n > 0 { c.count("index with count", 1); }
        if pick.offset.is_some() && n > 0 { c.count("by offset", 1); }
        if pick.count == Some(0) { c.count("count of zero", 1); }
        c.in_set_str("part selections", &format!("{:?}", parts.on));
        c.distinct(hash_bytes(format!("{:?}{:?}{:?}", files[0].at, pick, parts.on).as_bytes()));
    }
    Ok(())
}

/// Header blocks so long that they only just fit, in part only when compressed.
fn wide(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut m = model(&mut c.rng, 1500);
    let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Gzip, Alg::Brotli]);
    let size = 0xfffff - if alg == Alg::Plain { 2 } else { 0 } - c.rng.usize(4);
    let h = crate::gen::canon(&super::c13::header_block(&mut c.rng, size));
    match c.rng.below(3) { 0 => m.meta = h, 1 => m.req_h = h, _ => m.res_h = h }
    let img = encode(&mut c.rng, &m, alg);
    std::fs::write(dir.join("w.barc"), &img)?;
    let (parts, groups) = part_args(c);
    let a = args(c, groups, vec!["w.barc".to_string()]);
    c.step(format!("{:?} with a header block of {}: barc {}", alg, size, a.join(" ")));
    let o = call(&dir, &a, LIMITS)?;
    ensure!(o.ok(), "{}: {}", c.trace[0], o.show());
    let mut p = Printed { out: &o.out, pos: 0 };
    if let Err(e) = p.record("w.barc", 0, &m, parts) { return violation(format!("{}: {}", c.trace[0], e)); }
    ensure!(p.done(), "more bytes printed: {}", c.trace[0]);
    c.count("wide records printed", 1);
    c.distinct_str(&c.trace[0].clone());
    Ok(())
}

/// Records far into a file, found by their offsets.
fn far(c: &mut Case<'_>) -> CaseResult {
    use std::io::{Seek, Write};
    let dir = c.dir.clone();
    let f = input(c, "far.barc", 3);
    let base = *c.rng.pick(&[1u64 << 31, 1 << 32, 1 << 33, 1 << 36]) + c.rng.below(1000);
    {
        let mut w = std::fs::File::create(dir.join(&f.name))?;
        w.seek(std::io::SeekFrom::Start(base))?;
        w.write_all(&f.img)?;
    }
    let size = || std::fs::metadata(dir.join(&f.name)).and_then(|m| Ok((m.len(), m.modified()?)));
    let before = size()?;
    for (i, at) in f.at.iter().enumerate() {
        let o = base + at;
        let s = match c.rng.below(3) { 0 => format!("{}", o), 1 => format!("0x{:x}", o), _ => format!("0x{:012x}", o) };
        let mut a = vec!["cat".to_string(), "-o".to_string(), s];
        let n = if c.rng.chance(1, 2) { a.extend(["-c".to_string(), "1".to_string()]); 1 } else { f.at.len() - i };
        a.push(f.name.clone());
        c.step(format!("barc {}", a.join(" ")));
        let r = call(&dir, &a, LIMITS)?;
        ensure!(r.ok(), "barc {}: {}", a.join(" "), r.show());
        let mut p = Printed { out: &r.out, pos: 0 };
        for k in i..i + n {
            if let Err(e) = p.record(&f.name, base + f.at[k], &f.models[k], Parts { on: [true; 5] }) { return violation(format!("record {} at {}: {}; barc {}", k, base + f.at[k], e, a.join(" "))); }
            c.count("far records printed", 1);
        }
        ensure!(p.done(), "{} more bytes printed; barc {}", r.out.len() - p.pos, a.join(" "));
        c.distinct_str(&a.join(" "));
    }
    ensure!(size()? == before, "the input changed");
    Ok(())
}

/// Offsets where no record starts.
fn astray(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut f = input(c, "a.barc", 3);
    while f.at.is_empty() { f = input(c, "a.barc", 3); }
    std::fs::write(dir.join("a.barc"), &f.img)?;
    let len = f.img.len() as u64;
    let inside = c.rng.chance(1, 2);
    let o = if inside {
        let k = c.rng.usize(f.at.len());
        let next = *f.at.get(k + 1).unwrap_or(&f.end);
        f.at[k] + 1 + c.rng.below(next - f.at[k] - 1)
    } else {
        match c.rng.below(5) { 0 => len, 1 => len + 1 + c.rng.below(5000), 2 => u64::MAX - c.rng.below(1000), 3 => i64::MAX as u64 + c.rng.below(2), _ => (1 << 32) + *c.rng.pick(&f.at) }
    };
    if inside && f.img[o as usize..].starts_with(b"B") { return Ok(()); }
    let (_, mut groups) = part_args(c);
    groups.push(vec!["-o".into(), if c.rng.chance(1, 2) { format!("{:#x}", o) } else { o.to_string() }]);
    if c.rng.chance(1, 3) { groups.push(vec!["-c".into(), "2".into()]); }
    let a = args(c, groups, vec!["a.barc".to_string()]);
    c.step(format!("records at {:?}, file of {}: barc {}", f.at, len, a.join(" ")));
    let r = call(&dir, &a, LIMITS)?;
    ensure!(r.out.is_empty(), "{} bytes printed although no record starts there: {}", r.out.len(), c.trace[0]);
    ensure!(!inside || !r.ok(), "exit 0 although the selection is not readable: {}", c.trace[0]);
    c.count(if inside { "offsets inside records" } else { "offsets past the end" }, 1);
    c.distinct_str(&c.trace[0].clone());
    Ok(())
}

/// Input that cannot be read to the end of the selection.
fn unreadable(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut f = input(c, "a.barc", 5);
    while f.at.is_empty() { f = input(c, "a.barc", 5); }
    let n = f.at.len();
    let k = c.rng.usize(n);
    let end_k = *f.at.get(k + 1).unwrap_or(&f.end);
    let how = c.rng.below(5);
    let mut pick = Pick::any(&mut c.rng, &f.at, f.end);
    let what = match how {
        0 => { let at = f.at[k] + 20 + c.rng.below(34); f.img.truncate(at as usize); format!("cut in the head of record {} at {}", k, at) }
        1 => { let at = f.at[k] + 54 + c.rng.below((end_k - f.at[k] - 54).max(1)); f.img.truncate(at as usize); format!("cut in record {} at {}", k, at) }
        2 => { let i = f.at[k] as usize + *c.rng.pick(&[0, 1, 2, 3, 4, 6, 9, 12, 15, 17]); f.img[i] = b'?'; format!("head of record {} garbled at {}", k, i) }
        3 => { pick = Pick::ALL; format!("missing file") }
        _ => { pick = Pick::ALL; format!("a directory") }
    };
    if how == 1 && end_k - f.at[k] == 54 { return Ok(()); }
    match how { 3 => (), 4 => std::fs::create_dir(dir.join(&f.name))?, _ => std::fs::write(dir.join(&f.name), &f.img)? }
    let before = stamp(&dir)?;
    let (parts, mut groups) = part_args(c);
    groups.extend(pick.args(&mut c.rng));
    let a = args(c, groups, vec![f.name.clone()]);
    c.step(format!("{} of {} records: barc {}", what, n, a.join(" ")));
    let o = call(&dir, &a, LIMITS)?;
    let (x, y) = if how < 3 { pick.range(&f.at) } else { (0, 0) };
    // Records before the start are passed over by reading them, unless found by offset.
    let reaches = how >= 3 || (y > k && (x <= k || pick.offset.is_none())) ||
        (pick.index.map_or(false, |i| i > k) && pick.count != Some(0));
    let past = how < 3 && pick.offset.map_or(false, |o| o > f.at[k]);
    let mut p = Printed { out: &o.out, pos: 0 };
    for i in x..y.min(k) {
        if let Err(e) = p.record(&f.name, f.at[i], &f.models[i], parts) { return violation(format!("record {} before the damage: {}; {}; {}", i, e, what, o.show())); }
    }
    if past {
        // Starts behind the damage: whole if only a head was garbled.
        c.count("starting behind the damage", 1);
    } else {
        if reaches {
            ensure!(!o.ok(), "exit 0 for unreadable input: {}", c.trace.last().unwrap());
            ensure!(o.signal.is_none(), "{}: {}", c.trace.last().unwrap(), o.show());
            c.count("failures reported", 1);
            // Nothing of the damaged record beyond its separator may look like a record.
            let rest = &o.out[p.pos..];
            ensure!(!rest.starts_with(b"====") || how == 1, "the damaged record was printed: {}", c.trace.last().unwrap());
        } else {
            ensure!(o.ok(), "{}: {}", c.trace.last().unwrap(), o.show());
            ensure!(p.done(), "{} bytes printed beyond the selection: {}", o.out.len() - p.pos, c.trace.last().unwrap());
            c.count("selections before the damage", 1);
        }
    }
    ensure!(stamp(&dir)? == before, "input directory changed: {}", c.trace.last().unwrap());
    c.in_set_str("kinds of damage", &how.to_string());
    c.distinct(hash_bytes(c.trace.last().unwrap().as_bytes()));
    Ok(())
}

/// Calls that must be refused, and output that cannot be written.
fn refused(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let f = input(c, "a.barc", 4);
    std::fs::write(dir.join("a.barc"), &f.img)?;
    std::fs::write(dir.join("b.barc"), &f.img)?;
    let before = stamp(&dir)?;
    let k = c.rng.below(6);
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let a = match k {
        0 => v(&["cat", "a.barc", "b.barc", c.rng.pick(&["-i1", "-o0", "-c1"])]),
        1 => v(&["cat", "a.barc", "-i1", "-o0"]),
        2 => v(&["cat", "a.barc", c.rng.pick(&["-ix", "-o0xyz", "-c-1", "-c1.5", "-i-1"])]),
        3 => v(&["cat"]),
        4 => v(&["cat", "b.barc", "missing.barc"]),
        _ => v(&["cat", "a.barc"]),
    };
    let mut lim = LIMITS;
    if k == 5 {
        // The output file cannot hold everything.
        if f.at.is_empty() { return Ok(()); }
        let whole = call(&dir, &a, LIMITS)?;
        ensure!(whole.ok(), "{}", whole.show());
        lim.file = c.rng.below(whole.out.len() as u64);
        lim.ignore_fsize = true;
    }
    c.step(format!("barc {} file limit {}", a.join(" "), lim.file));
    let o = call(&dir, &a, lim)?;
    ensure!(!o.ok(), "exit 0: {}", c.trace.last().unwrap());
    ensure!(stamp(&dir)? == before, "input directory changed: {}", c.trace.last().unwrap());
    c.count(if k == 5 { "output errors reported" } else { "refusals" }, 1);
    c.distinct_str(&c.trace.last().unwrap().clone());
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(250, 2500);
    x.run("select", n, select);
    let n = x.tier(250, 2500);
    x.run("unreadable", n, unreadable);
    let n = x.tier(10, 100);
    x.run("far", n, far);
    let n = x.tier(60, 400);
    x.run("astray", n, astray);
    x.require("offsets inside records", 15);
    x.require("offsets past the end", 15);
    let n = x.tier(10, 60);
    x.run("wide", n, wide);
    x.require("wide records printed", 10);
    x.require("far records printed", 10);
    let n = x.tier(60, 400);
    x.run("refused", n, refused);
    for a in ["Plain", "Gzip", "Brotli"] { x.require(&format!("records {}", a), 100); }
    x.require("records printed", 500);
    x.require("index with count", 15);
    x.require("by offset", 60);
    x.require("count of zero", 10);
    x.require("distinct part selections", 20);
    x.require("failures reported", 50);
    x.require("selections before the damage", 5);
    x.require("output errors reported", 2);
    x.require("refusals", 20);
}
