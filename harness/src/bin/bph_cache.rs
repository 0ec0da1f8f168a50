//! C24: the object cache against a model of what was used when, and cached repositories against the backend.
use backpak::backend::{self, cache::Cache, CacheBehavior};
use bpharness::{decode, enc, util::*};
use byte_unit::Byte;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::str::FromStr;

fn utf(p: &Path) -> &camino::Utf8Path {
    camino::Utf8Path::from_path(p).unwrap()
}
fn stored(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir).unwrap().flatten().filter(|e| !e.file_name().to_string_lossy().starts_with("cache_metadata")).map(|e| (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap())).collect()
}
fn rows(dir: &Path) -> BTreeMap<String, i64> {
    let c = rusqlite::Connection::open(dir.join("cache_metadata.sqlite")).unwrap();
    let mut s = c.prepare("SELECT name, size FROM cache").unwrap();
    let v = s.query_map((), |r| Ok((r.get::<_, String>(0)?, r.get::<_, i64>(1)?))).unwrap().map(|x| x.unwrap()).collect();
    v
}
struct Broken(usize);
impl Read for Broken {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::Error::other("broken")) }
        let n = self.0.min(b.len());
        b[..n].fill(9);
        self.0 -= n;
        Ok(n)
    }
}
/// a random life of one cache
fn cache(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let mut limit = *r.pick(&[1u64, 50, 100, 100, 250, 1000]);
    let mut k = Cache::new(utf(dir), Byte::from_u64(limit)).unwrap();
    let mut used: Vec<(String, Vec<u8>)> = vec![]; // least recently used first
    let mut hist = vec![format!("new, limit {limit}")];
    let mut pruned = 0;
    for _ in 0..r.range(4, 22) {
        let name = format!("n{}", r.below(7));
        let at = used.iter().position(|u| u.0 == name);
        let bad: Option<String> = match r.below(12) {
            0..=3 => {
                let n = *r.pick(&[0u64, 1, 10, 30, 49, 50, 51, 100, 101, 120, 400]) as usize;
                let b = r.bytes(n);
                let file = r.chance(1, 3);
                hist.push(format!("insert{} {name}, {n} bytes", if file { "_file" } else { "" }));
                let res = if file {
                    std::fs::write(&name, &b).unwrap();
                    let f = File::open(&name).unwrap();
                    let x = k.insert_file(&name, f);
                    if Path::new(&name).exists() { c.violate(&["C24"], "insert_file leaves the file it was given".into(), json!({"history": hist})); }
                    x
                } else { k.insert(&name, Cursor::new(b.clone())) };
                if let Some(p) = at { used.remove(p); }
                used.push((name.clone(), b.clone()));
                match res {
                    Ok(mut f) => { let mut g = vec![]; f.seek(SeekFrom::Start(0)).unwrap(); f.read_to_end(&mut g).unwrap(); if g != b { Some("the file returned by insert has other contents".into()) } else { None } }
                    Err(e) => Some(format!("insert fails: {e:#}")),
                }
            }
            4 => {
                hist.push(format!("insert {name} from a reader that fails"));
                let n = r.below(3000) as usize;
                match k.insert(&name, Broken(n)) { Ok(_) => Some("a failed insert is reported as done".into()), Err(_) => None }
            }
            5 | 6 => {
                hist.push(format!("read {name}"));
                match (k.try_read(&name), at) {
                    (Ok(Some(mut f)), Some(p)) => {
                        let mut g = vec![];
                        f.read_to_end(&mut g).unwrap();
                        let u = used.remove(p);
                        let bad = g != u.1;
                        used.push(u);
                        if bad { Some(format!("{name} is read as other bytes")) } else { None }
                    }
                    (Ok(None), None) => None,
                    (Ok(Some(_)), None) => Some(format!("{name} is read, it is not in the cache")),
                    (Ok(None), Some(_)) => Some(format!("{name} is in the cache but not read")),
                    (Err(e), _) => Some(format!("reading fails: {e:#}")),
                }
            }
            7 => {
                hist.push(format!("evict {name}"));
                if let Some(p) = at { used.remove(p); }
                k.evict(&name).err().map(|e| format!("evict fails: {e:#}"))
            }
            8 => {
                limit = *r.pick(&[1u64, 50, 100, 150, 300, 1000]);
                hist.push(format!("reopen, limit {limit}"));
                drop(k);
                k = Cache::new(utf(dir), Byte::from_u64(limit)).unwrap();
                None
            }
            9 if at.is_some() && r.chance(1, 2) => {
                hist.push(format!("{name} vanishes, then is read"));
                std::fs::remove_file(dir.join(&name)).unwrap();
                used.remove(at.unwrap());
                match k.try_read(&name) { Ok(None) => None, _ => Some("a vanished file is read".into()) }
            }
            _ => {
                hist.push("prune".into());
                pruned += 1;
                let (mut keep, mut acc) = (0, 0u64);
                for u in used.iter().rev() {
                    if keep > 0 && acc + u.1.len() as u64 > limit { break }
                    acc += u.1.len() as u64;
                    keep += 1;
                }
                let cut = used.len() - keep;
                let gone: Vec<_> = used.drain(..cut).map(|u| u.0).collect();
                hist.push(format!("  (least recently used that do not fit: {gone:?})"));
                k.prune().err().map(|e| format!("prune fails: {e:#}"))
            }
        };
        let have = stored(dir);
        let want: BTreeMap<_, _> = used.iter().cloned().collect();
        let rs = rows(dir);
        let bad = bad.or_else(|| {
            let l = |m: &BTreeMap<String, Vec<u8>>| m.iter().map(|(k, v)| format!("{k}:{}", v.len())).collect::<Vec<_>>();
            if have.keys().ne(want.keys()) { Some(format!("the cache holds {:?}, it should hold {:?} (limit {limit})", l(&have), l(&want))) }
            else if have != want { Some("a cached object changed".into()) }
            else if rs != want.iter().map(|(k, v)| (k.clone(), v.len() as i64)).collect() { Some(format!("the bookkeeping lists {rs:?}, the cache holds {:?}", l(&want))) }
            else { None }
        });
        if let Some(b) = bad { c.violate(&["C24"], b, json!({"history": hist, "seed": c.seed})); return }
    }
    if c.evals < 2 { c.sample(json!({"history": hist})); }
    c.case(&hist, pruned > 1);
}
/// a repository read through the cache always gives what is stored in it
fn through(c: &mut Ctx, r: &mut Rng, dir: &Path, home: &Path) {
    enc::repo(dir, None, true);
    let cd = home.join(".cache/backpak");
    let _ = std::fs::remove_dir_all(&cd);
    let limit = *r.pick(&[1u64, 2000, 4000, 20000]);
    let always = r.chance(1, 4);
    let open = || backend::open(utf(dir), Byte::from_u64(limit), if always { CacheBehavior::AlwaysRead } else { CacheBehavior::Normal }).unwrap().1;
    let mut be = open();
    let mut hist = vec![format!("limit {limit}, always read {always}")];
    let mut ids: Vec<(String, &'static str)> = vec![];
    for _ in 0..r.range(4, 20) {
        let fault = r.chance(1, 8);
        let set = |on: bool| { for d in ["packs", "indexes", "snapshots"] { let (a, b) = (dir.join(d), dir.join(format!("{d}.away"))); let _ = if on { std::fs::rename(a, b) } else { std::fs::rename(b, a) }; } };
        let bad = match r.below(8) {
            0..=2 => {
                let n = r.below(3000) as usize;
                let b = r.bytes(n);
                let id = decode::hash(&b);
                let kind = *r.pick(&["pack", "index", "snapshot"]);
                let name = format!("{id}.{kind}");
                hist.push(format!("write {}.{kind}, {n} bytes{}", &id[..6], if fault { ", the backend fails" } else { "" }));
                std::fs::write(&name, &b).unwrap();
                if fault { set(true); }
                let x = be.write(&name, File::open(&name).unwrap());
                if fault { set(false); }
                if !fault || x.is_ok() { if Path::new(&name).exists() { c.violate(&["C24"], "a written object's file stays in the working directory".into(), json!({"history": hist})); } }
                let _ = std::fs::remove_file(&name);
                ids.push((id, kind));
                if x.is_ok() == fault { Some(if fault { "a failed write is reported as done".to_string() } else { format!("writing fails: {:#}", x.unwrap_err()) }) } else { None }
            }
            3..=5 if !ids.is_empty() => {
                let (id, kind) = r.pick(&ids).clone();
                let real = std::fs::read(dir.join(match kind { "pack" => "packs", "index" => "indexes", _ => "snapshots" }).join(format!("{id}.{kind}"))).ok();
                hist.push(format!("read {}.{kind}{}", &id[..6], if fault { ", the backend fails" } else { "" }));
                let o = backpak::hashing::ObjectId::from_str(&id).unwrap();
                if fault { set(true); }
                let x = match kind { "pack" => be.read_pack(&o), "index" => be.read_index(&o), _ => be.read_snapshot(&o) };
                if fault { set(false); }
                let got = x.ok().map(|mut f| { let mut g = vec![]; f.read_to_end(&mut g).map(|_| g) });
                match (got, real) {
                    (None, None) => None,
                    (None, Some(_)) if fault => None,
                    (None, Some(_)) => Some("a stored object cannot be read".into()),
                    (Some(_), None) => Some("an object that is not in the backend is read from the cache".into()),
                    (Some(Ok(g)), Some(w)) if g == w => if fault && always { Some("the cache was read although the backend was to be".into()) } else { None },
                    _ => Some("reading gives other bytes than the backend holds".into()),
                }
            }
            6 if !ids.is_empty() => {
                let (id, kind) = r.pick(&ids).clone();
                hist.push(format!("remove {}.{kind}", &id[..6]));
                let o = backpak::hashing::ObjectId::from_str(&id).unwrap();
                let _ = match kind { "pack" => be.remove_pack(&o), "index" => be.remove_index(&o), _ => be.remove_snapshot(&o) };
                if cd.join(format!("{id}.{kind}")).exists() { Some("a removed object is still in the cache".into()) } else { None }
            }
            _ => { hist.push("reopen".into()); drop(be); be = open(); None }
        };
        let tot: Vec<usize> = stored(&cd).values().map(|v| v.len()).collect();
        let bad = bad.or_else(|| if tot.len() > 1 && tot.iter().sum::<usize>() as u64 > limit { Some(format!("{} objects of {} bytes are cached, the limit is {limit}", tot.len(), tot.iter().sum::<usize>())) } else { None });
        if let Some(b) = bad { c.violate(&["C24"], b, json!({"history": hist, "seed": c.seed})); return }
    }
    c.case(&hist, ids.len() > 1);
}
fn run(c: &mut Ctx) {
    c.rule = "random inserts, reads, evictions, failed inserts, reopenings with other limits and prunes of a cache; random writes, reads and removals through a cached repository, some with a failing backend; nontrivial if pruned twice or several objects are stored".into();
    let mut r = Rng::new(c.seed);
    let w = PathBuf::from(&c.work);
    let home = PathBuf::from(std::env::var("HOME").unwrap());
    while c.time_left() && (c.evals < 3000 || c.thorough) {
        let bad = catch_unwind(AssertUnwindSafe(|| if r.chance(2, 3) { cache(c, &mut r, &w.join("cache")) } else { through(c, &mut r, &w.join("r"), &home) })).is_err();
        if bad { let s = c.seed; let e = c.evals; c.violate(&["C24"], "using the cache crashes".into(), json!({"seed": s, "case": e})); c.evals += 1; }
    }
}
fn main() {
    bpharness::main_of(run);
}
