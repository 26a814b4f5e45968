//! C26: copying records with the cp command.
use std::collections::BTreeMap;
use std::path::Path;

use super::c15::{type_counts, Policy};
use crate::archive::*;
use crate::cli::*;
use crate::ctx::*;
use crate::rng::hash_bytes;

/// What cp should make of one record.
fn stored_as(m: &Model, alg: Alg) -> Option<Alg> {
    let min = match alg { Alg::Plain => return Some(Alg::Plain), Alg::Gzip => 4096, Alg::Brotli => 1024 };
    let dec = m.meta.iter().find(|(n, _)| n == "response-decoded");
    let identity = match dec {
        None => false,
        Some((_, v)) if v.len() == 1 => match &v[0][..] { b"identity" => true, b"chunked, br, identity" => true, b"chunked" => false, b"gzip" => false, _ => return None },
        _ => return None,
    };
    let hb = (size_of(&m.meta) + size_of(&m.req_h) + size_of(&m.res_h)) as u64;
    let p = Policy { min, check: true, coef: 0.5 };
    let yes = p.compress((m.req_b.len() as u64, type_counts(&m.req_h)?), (m.res_b.len() as u64, type_counts(&m.res_h)?), identity, hb);
    Some(if yes { alg } else { Alg::Plain })
}

#[derive(Clone, Default)]
struct Arc { img: Vec<u8>, at: Vec<u64>, models: Vec<Model> }

fn archive(c: &mut Case<'_>, max: usize) -> Arc {
    let mut f = Arc::default();
    for _ in 0..c.rng.usize(max + 1) {
        let mut m = some_model(&mut c.rng);
        if c.rng.chance(1, 3) {
            m.meta.retain(|(n, _)| n != "response-decoded");
            m.meta.push(("response-decoded".into(), vec![c.rng.pick(&["identity", "chunked, br, identity", "chunked", "gzip"]).as_bytes().to_vec()]));
            m.meta.sort();
        }
        let a = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
        f.at.push(f.img.len() as u64);
        let e = encode(&mut c.rng, &m, a);
        f.img.extend(e);
        f.models.push(m);
    }
    f
}

fn spell(c: &mut Case<'_>, dir: &Path, name: &str) -> String {
    match c.rng.below(5) {
        0 => dir.join(name).to_string_lossy().into_owned(),
        1 => format!("./{}", name),
        2 => format!("tmp/../{}", name),
        _ => name.to_string(),
    }
}

/// The content of a file, where none is an empty one.
fn contents(p: &Path) -> std::io::Result<Vec<u8>> {
    match std::fs::read(p) { Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(Vec::new()), r => r }
}

/// Copies among a few archives, each step judged by the plain values.
fn history(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    std::fs::create_dir_all(dir.join("tmp"))?;
    let names = ["a.barc", "b.barc", "c.barc"];
    let mut files: BTreeMap<&str, Arc> = BTreeMap::new();
    for n in names.iter().take(2) {
        let f = archive(c, 5);
        std::fs::write(dir.join(n), &f.img)?;
        files.insert(n, f);
    }
    let mut shape = String::new();
    for _ in 0..1 + c.rng.usize(4) {
        let out = *c.rng.pick(&names);
        let from: Vec<&str> = files.keys().cloned().filter(|n| *n != out).collect();
        let ins: Vec<&str> = if c.rng.chance(3, 4) { vec![*c.rng.pick(&from)] } else { (0..1 + c.rng.usize(3)).map(|_| *c.rng.pick(&from)).collect() };
        let pick = if ins.len() > 1 { Pick::ALL } else { let f = &files[ins[0]]; Pick::any(&mut c.rng, &f.at, f.img.len() as u64) };
        let alg = *c.rng.pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]);
        let mut groups = pick.args(&mut c.rng);
        match alg { Alg::Plain => (), Alg::Gzip => groups.push(vec![c.rng.pick(&["-z", "--gzip"]).to_string()]), Alg::Brotli => groups.push(vec![c.rng.pick(&["-b", "--brotli"]).to_string()]) }
        c.rng.shuffle(&mut groups);
        let mut a = vec!["cp".to_string()];
        let cut = c.rng.usize(groups.len() + 1);
        let (x, y) = groups.split_at(cut);
        a.extend(x.concat());
        for i in &ins { let s = spell(c, &dir, i); a.push(s); }
        let s = spell(c, &dir, out);
        a.push(s);
        a.extend(y.concat());
        let line = a.join(" ");
        c.step(format!("barc {}", line));
        let o = call(&dir, &a, LIMITS)?;
        ensure!(o.ok(), "barc {}: {}", line, o.show());
        ensure!(o.out.is_empty(), "barc {} printed {} bytes", line, o.out.len());
        ensure!(left_over(&dir)? == 0, "temporary files left behind; barc {}", line);
        let img = contents(&dir.join(out))?;
        let old = files.get(out).cloned().unwrap_or_default();
        ensure!(img.len() >= old.img.len() && img[..old.img.len()] == old.img[..], "existing content of the output changed; barc {}", line);
        let got = decode_all(&img).map_err(|e| Stop::Violation(format!("output is not an archive: {}; barc {}", e, line)))?;
        let mut want: Vec<Model> = Vec::new();
        for i in &ins { let f = &files[i]; let (x, y) = pick.range(&f.at); want.extend_from_slice(&f.models[x..y]); }
        let new = &got[old.at.len()..];
        ensure!(new.len() == want.len(), "{} records copied instead of {}; barc {}", new.len(), want.len(), line);
        for (k, (g, w)) in new.iter().zip(&want).enumerate() {
            if &g.model != w {
                let d = if g.model.req_b != w.req_b { format!("request body {}", diff(&g.model.req_b, &w.req_b)) } else if g.model.res_b != w.res_b { format!("response body {}", diff(&g.model.res_b, &w.res_b)) } else { "headers".into() };
                return violation(format!("copied record {} differs in {}; barc {}", k, d, line));
            }
            if let Some(want) = stored_as(w, alg) {
                ensure!(g.alg == want, "copied record {} (bodies {} and {}) is stored as {:?} rather than {:?}; barc {}", k, w.req_b.len(), w.res_b.len(), g.alg, want, line);
                c.count(&format!("stored as {:?}", g.alg), 1);
            }
        }
        c.count("calls", 1);
        c.count("records copied", want.len() as u64);
        if !old.at.is_empty() && !want.is_empty() { c.count("appended to existing records", 1); }
        if ins.len() > 1 { c.count("several inputs", 1); }
        if ins.len() > 1 && files[ins[0]].at.is_empty() && !want.is_empty() { c.count("an empty input before others", 1); }
        if pick.index.map_or(false, |i| i > 0) && pick.count.map_or(false, |k| k > 0) && !want.is_empty() { c.count("index with count", 1); }
        if !dir.join(out).exists() { continue; }
        files.insert(out, Arc { at: got.iter().map(|g| g.at).collect(), models: got.iter().map(|g| g.model.clone()).collect(), img });
        for (n, f) in &files { ensure!(contents(&dir.join(n))? == f.img, "{} changed; barc {}", n, line); }
        shape.push_str(&format!("{:?}{:?}{:?}", pick, alg, ins));
    }
    c.distinct(hash_bytes(shape.as_bytes()));
    Ok(())
}

/// The output is one of the inputs.
fn onto_itself(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    std::fs::create_dir_all(dir.join("tmp"))?;
    std::fs::create_dir_all(dir.join("sub"))?;
    let mut f = archive(c, 3);
    while f.at.is_empty() { f = archive(c, 3); }
    let g = archive(c, 2);
    std::fs::write(dir.join("a.barc"), &f.img)?;
    std::fs::write(dir.join("b.barc"), &g.img)?;
    std::os::unix::fs::symlink("a.barc", dir.join("s.barc"))?;
    std::os::unix::fs::symlink(&dir, dir.join("sub/up"))?;
    std::fs::hard_link(dir.join("a.barc"), dir.join("h.barc"))?;
    let all: Vec<String> = vec!["a.barc".into(), "./a.barc".into(), ".//a.barc".into(), "sub/../a.barc".into(), "sub/up/a.barc".into(), "s.barc".into(), "h.barc".into(), dir.join("a.barc").to_string_lossy().into_owned(),
        dir.join("sub/../a.barc").to_string_lossy().into_owned()];
    let (i, o) = (c.rng.pick(&all).clone(), c.rng.pick(&all).clone());
    let mut a = vec!["cp".to_string()];
    match c.rng.below(3) { 0 => a.push("-z".into()), 1 => a.push("-b".into()), _ => () }
    match c.rng.below(5) { 0 => (), 1 => a.push("b.barc".into()), 2 => { let n = c.rng.below(3); a.push(format!("-c{}", n)) } _ => () }
    let several = a.contains(&"b.barc".to_string());
    a.push(i.clone());
    a.push(o.clone());
    let line = a.join(" ");
    c.step(format!("barc {}", line));
    let r = call(&dir, &a, Limits { cpu: 20, file: 32 << 20, ignore_fsize: false })?;
    ensure!(!r.ok(), "copying a file onto itself succeeded; barc {}", line);
    ensure!(r.signal.is_none(), "copying a file onto itself was not refused: {}; barc {}", r.show(), line);
    ensure!(contents(&dir.join("a.barc"))? == f.img, "the file was changed; barc {}", line);
    ensure!(contents(&dir.join("b.barc"))? == g.img, "another file was changed; barc {}", line);
    c.count("refused", 1);
    if several { c.count("refused among several inputs", 1); }
    c.in_set_str("spellings", &format!("{} {}", all.iter().position(|x| *x == i).unwrap(), all.iter().position(|x| *x == o).unwrap()));
    c.distinct_str(&line.replace(&*dir.to_string_lossy(), ""));
    Ok(())
}

/// Failing copies say so.
fn failing(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut f = archive(c, 4);
    while f.at.is_empty() { f = archive(c, 4); }
    let g = archive(c, 2);
    std::fs::write(dir.join("out.barc"), &g.img)?;
    let mut k = c.rng.usize(f.at.len());
    let how = c.rng.below(6);
    let mut img = f.img.clone();
    let mut a: Vec<String> = vec!["cp".into()];
    if how == 5 {
        // A block that only fits compressed.
        let size = 0xfffff - c.rng.usize(2);
        let m = Model { meta: crate::gen::canon(&super::c13::header_block(&mut c.rng, size)), req_h: vec![], req_b: vec![], res_h: vec![], res_b: vec![] };
        k = f.at.len();
        img.extend(encode(&mut c.rng, &m, Alg::Gzip));
    } else { match c.rng.below(3) { 0 => a.push("-z".into()), 1 => a.push("-b".into()), _ => () } }
    let mut lim = LIMITS;
    match how {
        0 => { let at = f.at[k] as usize + 20 + c.rng.usize(34); img.truncate(at); }
        1 => { let at = f.at[k] as usize + *c.rng.pick(&[0, 1, 2, 3, 4, 6, 9, 12, 15, 17]); img[at] = b'?'; }
        2 => { lim.file = g.img.len() as u64 + c.rng.below(40); lim.ignore_fsize = true; }
        3 => a.push("missing.barc".into()),
        _ => (),
    }
    std::fs::write(dir.join("in.barc"), &img)?;
    a.push("in.barc".into());
    a.push(if how == 4 { "no/such/dir.barc".into() } else { "out.barc".into() });
    let line = a.join(" ");
    c.step(format!("how {} record {} of {}: barc {}", how, k, f.at.len(), line));
    let r = call(&dir, &a, lim)?;
    ensure!(!r.ok(), "exit 0 although the copy is not whole: {}", c.trace.last().unwrap());
    ensure!(contents(&dir.join("in.barc"))? == img, "input changed: {}", c.trace.last().unwrap());
    let out = contents(&dir.join("out.barc"))?;
    ensure!(out.starts_with(&g.img), "existing output records changed: {}", c.trace.last().unwrap());
    if how < 2 || how == 5 {
        // Whatever was appended before the failure are whole records from the input.
        let got = decode_all(&out).map_err(|e| Stop::Violation(format!("output left unreadable: {}: {}", e, c.trace.last().unwrap())))?;
        let new = &got[g.at.len()..];
        ensure!(new.len() <= k, "{} records appended, {} could be read: {}", new.len(), k, c.trace.last().unwrap());
        for (x, w) in new.iter().zip(&f.models) { ensure!(&x.model == w, "a copied record differs: {}", c.trace.last().unwrap()); }
    }
    c.count("failures reported", 1);
    c.in_set_str("kinds of failure", &how.to_string());
    c.distinct_str(&format!("{}{}{:?}{}", how, k, f.at, line));
    Ok(())
}

/// Offsets where no record starts.
fn astray(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let mut f = archive(c, 3);
    while f.at.is_empty() { f = archive(c, 3); }
    let g = archive(c, 2);
    std::fs::write(dir.join("in.barc"), &f.img)?;
    std::fs::write(dir.join("out.barc"), &g.img)?;
    let len = f.img.len() as u64;
    let inside = c.rng.chance(1, 2);
    let o = if inside {
        let k = c.rng.usize(f.at.len());
        let next = *f.at.get(k + 1).unwrap_or(&len);
        f.at[k] + 1 + c.rng.below(next - f.at[k] - 1)
    } else {
        match c.rng.below(5) { 0 => len, 1 => len + 1 + c.rng.below(5000), 2 => u64::MAX - c.rng.below(1000), 3 => i64::MAX as u64 + c.rng.below(2), _ => (1 << 32) + *c.rng.pick(&f.at) }
    };
    if inside && f.img[o as usize..].starts_with(b"B") { return Ok(()); }
    let mut a: Vec<String> = vec!["cp".into(), "in.barc".into(), "out.barc".into(), "-o".into(), if c.rng.chance(1, 2) { format!("{:#x}", o) } else { o.to_string() }];
    if c.rng.chance(1, 3) { a.push("-c2".into()); }
    c.step(format!("records at {:?}, file of {}: barc {}", f.at, len, a.join(" ")));
    let r = call(&dir, &a, LIMITS)?;
    ensure!(contents(&dir.join("in.barc"))? == f.img, "input changed: {}", c.trace[0]);
    ensure!(contents(&dir.join("out.barc"))? == g.img, "output changed although no record starts there: {}", c.trace[0]);
    ensure!(!inside || !r.ok(), "exit 0 although the selection is not readable: {}", c.trace[0]);
    c.count("offsets without a record", 1);
    c.distinct_str(&c.trace[0].clone());
    Ok(())
}

/// Calls with flags that do not go together.
fn refused(c: &mut Case<'_>) -> CaseResult {
    let dir = c.dir.clone();
    let f = archive(c, 3);
    for n in ["a.barc", "b.barc"] { std::fs::write(dir.join(n), &f.img)?; }
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let a = match c.rng.below(5) {
        0 => v(&["cp", "a.barc", "b.barc", "out.barc", c.rng.pick(&["-i1", "-o0", "-c1"])]),
        1 => v(&["cp", "a.barc", "out.barc", "-i1", "-o0"]),
        2 => v(&["cp", "a.barc", "out.barc", "-z", "-b"]),
        3 => v(&["cp", "a.barc", "out.barc", c.rng.pick(&["-ix", "-o0xyz", "-c-1", "-c1.5", "-i-1"])]),
        _ => v(&["cp", "a.barc"]),
    };
    c.step(format!("barc {}", a.join(" ")));
    let r = call(&dir, &a, LIMITS)?;
    ensure!(!r.ok(), "exit 0: barc {}", a.join(" "));
    for n in ["a.barc", "b.barc"] { ensure!(contents(&dir.join(n))? == f.img, "{} changed: barc {}", n, a.join(" ")); }
    c.count("refusals", 1);
    c.distinct_str(&a.join(" "));
    Ok(())
}

pub fn run(x: &mut Ctx) {
    let n = x.tier(250, 2500);
    x.run("history", n, history);
    let n = x.tier(250, 1500);
    x.run("onto-itself", n, onto_itself);
    let n = x.tier(80, 800);
    x.run("failing", n, failing);
    let n = x.tier(50, 400);
    x.run("astray", n, astray);
    x.require("offsets without a record", 30);
    let n = x.tier(30, 200);
    x.run("refused", n, refused);
    x.require("records copied", 500);
    x.require("appended to existing records", 50);
    x.require("several inputs", 30);
    x.require("index with count", 8);
    for a in ["Plain", "Gzip", "Brotli"] { x.require(&format!("stored as {}", a), 30); }
    x.require("refused", 100);
    x.require("refused among several inputs", 10);
    x.require("distinct spellings", 50);
    x.require("failures reported", 40);
}
