//! C04: `check` and `check -r` over damaged repositories, against an independent reading of them.
use bpharness::{cli::*, decode, decode::*, enc, fsgen, util::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};

fn parts(b: &[u8]) -> Option<(Vec<Entry>, String)> {
    // the manifest a packfile carries
    let n = b.len();
    if n < 13 || !b.starts_with(b"MKBAKPAK1") { return None; }
    let ml = u32::from_be_bytes(b[n - 4..].try_into().unwrap()) as usize;
    if ml + 4 > n { return None; }
    let m = lenient(&b[n - 4 - ml..n - 4]);
    let id = decode::hash(&m);
    let c: ciborium::value::Value = ciborium::from_reader(&m[..]).ok()?;
    let es = c.as_array()?.iter().map(|e| {
        let f = |k: &str| e.as_map()?.iter().find(|(a, _)| a.as_text() == Some(k)).map(|x| x.1.clone());
        Some(Entry { kind: f("type")?.as_text()?.to_string(), len: i128::from(f("length")?.as_integer()?) as u64, id: b32(f("id")?.as_bytes()?) })
    }).collect::<Option<Vec<_>>>()?;
    Some((es, id))
}
/// what can be got out of a frame before decompression reports an error, reading in small steps
fn lenient(z: &[u8]) -> Vec<u8> {
    if let Ok(v) = zstd::stream::decode_all(z) { return v; }
    let mut got = vec![];
    let mut one = [0u8; 1];
    if let Ok(mut d) = zstd::stream::read::Decoder::new(z) {
        while let Ok(1) = d.read(&mut one) { got.push(one[0]); }
    }
    got
}
/// the bytes of the listed blobs, as far as they are really there
fn blobs_of(b: &[u8], es: &[Entry]) -> Vec<Option<Vec<u8>>> {
    let mut out = vec![None; es.len()];
    if b.len() < 9 || !b.starts_with(b"MKBAKPAK1") { return out; }
    let all = lenient(&b[9..]);
    let mut at = 0usize;
    for (i, e) in es.iter().enumerate() {
        let end = match at.checked_add(e.len as usize) { Some(x) if x <= all.len() => x, _ => return out };
        let v = &all[at..end];
        if decode::hash(v) == e.id { out[i] = Some(v.to_vec()); }
        at = end;
    }
    out
}
fn same_content(z: &[u8], id: &str) -> bool {
    let got = lenient(z);
    let mut rest = &got[..];
    if ciborium::from_reader::<ciborium::value::Value, _>(&mut rest).is_err() { return false; }
    decode::hash(&got[..got.len() - rest.len()]) == id
}
#[derive(Debug)]
struct Verdict { fail: Option<String>, fail_r: Option<String>, pass: bool, pass_r: bool }
fn oracle(root: &Path, untouched: &BTreeSet<String>) -> Verdict {
    let r = Repo::load(root.to_str().unwrap());
    // an index whose frame is damaged without changing what it says is read or refused
    for e in &r.errors {
        if let Some(n) = e.strip_prefix("indexes/").and_then(|x| x.split(':').next()) {
            let b = fs::read(root.join("indexes").join(n)).unwrap_or_default();
            if b.starts_with(b"MKBAKIDX1") && same_content(&b[9..], n.trim_end_matches(".index")) { return Verdict { fail: None, fail_r: None, pass: false, pass_r: false }; }
        }
    }
    let mut fail = r.errors.iter().find(|e| !e.starts_with("packs")).cloned();
    let mut fail_r = None;
    let (mut sure, mut sure_r) = (true, true);
    let mut bytes: BTreeMap<Id, Option<Vec<u8>>> = BTreeMap::new();
    let mut listed: BTreeMap<Id, (Id, usize)> = BTreeMap::new();
    for i in r.live_idx() {
        for (p, es) in &r.idx[i].packs {
            let f = root.join("packs").join(format!("{p}.pack"));
            let here = f.exists();
            let b = if here { fs::read(&f).ok() } else { None };
            if !here { fail = fail.or(Some(format!("pack {p} is missing"))); }
            else if let Some(b) = &b {
                let strict = r.packs.get(p).map(|k| k.entries == *es).unwrap_or(false);
                if !strict { sure_r = false; }
                let whole = blobs_of(b, es).iter().all(|x| x.is_some()) && parts(b).map(|x| x.0 == *es).unwrap_or(false);
                if !whole { fail_r = Some(format!("pack {p} is not what the index says")); }
                let _ = untouched;
            }
            for (k, e) in es.iter().enumerate() {
                if let Some((q, _)) = listed.insert(e.id.clone(), (p.clone(), k)) {
                    if q != *p || es.iter().filter(|x| x.id == e.id).count() > 1 { sure = false; } // listed twice: refusing is allowed
                }
            }
            bytes.insert(p.clone(), b);
        }
    }
    let live = r.live();
    let mut seen = BTreeSet::new();
    let mut todo: Vec<Id> = r.snaps.values().map(|s| s.tree.clone()).collect();
    while let Some(t) = todo.pop() {
        if !seen.insert(t.clone()) { continue; }
        let tr = match listed.get(&t) {
            None if t == Repo::empty_tree() => continue,
            None => { fail = fail.or(Some(format!("tree {t} is not listed"))); continue; }
            Some((p, k)) => {
                let es = &live[p];
                if r.packs.get(p).map(|x| x.entries == *es).unwrap_or(false) == false { sure = false; }
                match bytes[p].as_ref().and_then(|b| blobs_of(b, es)[*k].clone()) {
                    Some(v) => match decode::tree(&v) { Ok(t) => t, Err(_) => { sure = false; continue } },
                    None => { sure = false; continue }
                }
            }
        };
        for (n, node) in tr {
            match node.kind {
                Kind::D(d) => todo.push(d),
                Kind::F(cs) => for c in cs { if !listed.contains_key(&c) { fail = fail.or(Some(format!("chunk {c} of {n} is not listed"))); } },
                Kind::L(_) => {}
            }
        }
    }
    if !r.errors.is_empty() { sure_r = false; if r.errors.iter().any(|e| !e.starts_with("packs")) { sure = false; } }
    let fail_r = fail.clone().or(fail_r);
    Verdict { pass: fail.is_none() && sure, pass_r: fail_r.is_none() && sure && sure_r, fail, fail_r }
}
fn objs(root: &Path, d: &str) -> Vec<PathBuf> {
    let mut v: Vec<_> = fs::read_dir(root.join(d)).map(|x| x.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn stem(p: &Path) -> String { p.file_stem().unwrap().to_string_lossy().to_string() }
/// rewrite an index file under its new name
fn reindex(root: &Path, p: &Path, f: impl FnOnce(&mut Idx)) {
    let (mut i, _) = match decode::index(&fs::read(p).unwrap()) { Ok(x) => x, Err(_) => return };
    f(&mut i);
    let (id, b) = enc::index(&i);
    fs::remove_file(p).unwrap();
    enc::put(root, "index", &id, &b);
}
/// (bytes after the end of an object leave what it says as it is)
fn spoil(b: &[u8], r: &mut Rng) -> (Vec<u8>, String) {
    loop {
        let (n, how) = enc::flip(b, r);
        if !n.starts_with(b) { return (n, how); }
    }
}
fn damage(root: &Path, r: &mut Rng) -> String {
    let (packs, idxs, snaps) = (objs(root, "packs"), objs(root, "indexes"), objs(root, "snapshots"));
    if packs.is_empty() || idxs.is_empty() || snaps.is_empty() { return "nothing left to damage".into(); }
    let pk = r.pick(&packs).clone();
    let ix = r.pick(&idxs).clone();
    match r.below(20) {
        0 => { fs::remove_file(&pk).unwrap(); format!("removed pack {}", stem(&pk)) }
        1 | 2 => { let (b, how) = enc::flip(&fs::read(&pk).unwrap(), r); fs::write(&pk, b).unwrap(); format!("pack {}: {how}", stem(&pk)) }
        3 => {
            let q = r.pick(&packs).clone();
            let (a, b) = (fs::read(&pk).unwrap(), fs::read(&q).unwrap());
            fs::write(&pk, b).unwrap(); fs::write(&q, a).unwrap();
            format!("swapped packs {} and {}", stem(&pk), stem(&q))
        }
        4 => { fs::remove_file(&ix).unwrap(); format!("removed index {}", stem(&ix)) }
        5 => { let (b, how) = spoil(&fs::read(&ix).unwrap(), r); fs::write(&ix, b).unwrap(); format!("index {}: {how}", stem(&ix)) }
        6 => { let s = r.pick(&snaps).clone(); let (b, how) = spoil(&fs::read(&s).unwrap(), r); fs::write(&s, b).unwrap(); format!("snapshot {}: {how}", stem(&s)) }
        7 | 8 => { let k = r.below(64); reindex(root, &ix, |i| { let n = i.packs.len() as u64; if n > 0 { let p = i.packs.keys().nth((k % n) as usize).unwrap().clone(); i.packs.remove(&p); } }); "index without one of its packs".into() }
        9 | 10 => {
            let (k, j) = (r.below(64), r.below(1 << 20));
            reindex(root, &ix, |i| { let n = i.packs.len() as u64; if n > 0 { let es = i.packs.values_mut().nth((k % n) as usize).unwrap(); if !es.is_empty() { let j = if j % 2 == 0 { es.len() - 1 } else { (j as usize / 2) % es.len() }; es.remove(j); } } });
            "index without one entry of a manifest".into()
        }
        11 => {
            let (k, j, d) = (r.below(64), r.below(1 << 20), r.below(3));
            reindex(root, &ix, |i| { let n = i.packs.len() as u64; if n > 0 { let es = i.packs.values_mut().nth((k % n) as usize).unwrap(); if !es.is_empty() { let j = j as usize % es.len(); es[j].len = if d == 0 { es[j].len + 1 } else { es[j].len.saturating_sub(1) }; } } });
            "index with another length".into()
        }
        12 => {
            let (k, j, l) = (r.below(64), r.below(1 << 20), r.below(1 << 20));
            reindex(root, &ix, |i| { let n = i.packs.len() as u64; if n > 0 { let es = i.packs.values_mut().nth((k % n) as usize).unwrap(); if !es.is_empty() { let (a, b) = (j as usize % es.len(), l as usize % es.len()); es.swap(a, b); } } });
            "index with two entries exchanged".into()
        }
        13 => {
            // one blob of a pack replaced, the manifest left as it is
            let b = fs::read(&pk).unwrap();
            if let Ok(p) = decode::pack(&b, &stem(&pk)) {
                let mut stream = vec![]; let k = r.below(p.blobs.len().max(1) as u64) as usize;
                for (i, x) in p.blobs.iter().enumerate() { let mut x = x.clone(); if i == k && !x.is_empty() { let j = r.below(x.len() as u64) as usize; x[j] ^= 1; } stream.extend(x); }
                let (_, nb) = enc::pack_raw(&p.entries, &stream);
                fs::write(&pk, nb).unwrap();
            }
            format!("one bit of one blob changed inside pack {}", stem(&pk))
        }
        14 => {
            // packed anew with the same contents: no damage
            let b = fs::read(&pk).unwrap();
            if let Ok(p) = decode::pack(&b, &stem(&pk)) { let (_, nb) = enc::pack_raw(&p.entries, &p.blobs.concat()); fs::write(&pk, nb).unwrap(); }
            format!("pack {} compressed anew", stem(&pk))
        }
        15 => {
            // an index nobody uses any more lists packs that are gone: no damage
            let mut old = Idx::default();
            old.packs.insert(decode::hash(&r.bytes(9)), vec![enc::entry("chunk", &r.bytes(5))]);
            let (oid, ob) = enc::index(&old);
            let mut new = Idx::default(); new.sup.insert(oid.clone());
            let (nid, nb) = enc::index(&new);
            enc::put(root, "index", &oid, &ob); enc::put(root, "index", &nid, &nb);
            "a superseded index that lists a missing pack".into()
        }
        17 | 18 => {
            let (k, j) = (r.below(64), r.below(1 << 20));
            reindex(root, &ix, |i| { let n = i.packs.len() as u64; if n > 0 { let es = i.packs.values_mut().nth((k % n) as usize).unwrap(); if !es.is_empty() { let j = j as usize % es.len(); es[j].kind = if es[j].kind == "tree" { "chunk".into() } else { "tree".into() }; } } });
            "index with another kind for one blob".into()
        }
        16 => { let (id, b, _) = enc::pack(&[("chunk", r.bytes(20))]); enc::put(root, "pack", &id, &b); "a pack no index lists".into() }
        _ => {
            // shortened by one blob, manifest included
            let b = fs::read(&pk).unwrap();
            if let Ok(p) = decode::pack(&b, &stem(&pk)) {
                if p.entries.len() > 1 { let n = p.entries.len() - 1; let (_, nb) = enc::pack_raw(&p.entries[..n], &p.blobs[..n].concat()); fs::write(&pk, nb).unwrap(); }
            }
            format!("pack {} without its last blob, consistent in itself", stem(&pk))
        }
    }
}
fn run(c: &mut Ctx) {
    c.rule = "a repository of several backups with 0-3 pieces of damage (objects removed, altered, exchanged, replaced; indexes rewritten), `check` and `check -r` run on it; nontrivial if something is really damaged".into();
    let mut r = Rng::new(c.seed);
    let work = PathBuf::from(&c.work);
    let mut gen = 0;
    while c.time_left() {
        gen += 1;
        let base = work.join(format!("base{gen}"));
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(base.join("cwd")).unwrap();
        let cli = Cli::new(&c.bin, &base.join("cwd"));
        let repo = base.join("R");
        init_repo(&cli, &repo, *r.pick(&["3 kB", "20 kB", "1 MB"]), None);
        let cached = r.chance(1, 3);
        if cached {
            let p = repo.join("config.toml");
            let s = fs::read_to_string(&p).unwrap().replace("force_cache = false", "force_cache = true");
            fs::write(&p, if s.contains("force_cache") { s } else { format!("{s}force_cache = true\n") }).unwrap();
        }
        let src = base.join("src");
        let mut clock = 1_000_000_000i64;
        fs::create_dir_all(&src).unwrap();
        for _ in 0..r.range(1, 4) {
            let big = r.chance(1, 4);
            fsgen::gen_dir(&src, &mut r, 3, &mut clock, big);
            let o = cli.run(&repo, &["backup", src.to_str().unwrap()]);
            if !o.ok() { break; }
        }
        let mut k = 0;
        while c.time_left() && k < 14 {
            k += 1;
            let d = base.join("D");
            let _ = fs::remove_dir_all(&d);
            fsgen::copy_dir(&repo, &d);
            let mut how = vec![];
            for _ in 0..*r.pick(&[0u64, 1, 1, 1, 1, 1, 2, 3]) { how.push(damage(&d, &mut r)); }
            // (the damaged copy has its own place in the cache; use the original's place where caching matters)
            let (at, back) = if cached { let b = base.join("R0"); fs::rename(&repo, &b).unwrap(); fs::rename(&d, &repo).unwrap(); (repo.clone(), Some(b)) } else { (d.clone(), None) };
            let v = oracle(&at, &BTreeSet::new());
            c.case(&(gen, k), v.fail_r.is_some());
            for (args, fail, pass) in [(vec!["check"], &v.fail, v.pass), (vec!["check", "-r"], &v.fail_r, v.pass_r)] {
                let o = cli.run(&at, &args);
                let rp = json!({"damage": how, "command": args, "cached": cached, "stderr": o.err.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>(), "seed": c.seed});
                if let Some(f) = fail {
                    c.count("damage to report", 1);
                    if o.ok() { c.violate(&["C04"], format!("{} succeeds although {f} ({})", args.join(" "), how.join("; ")), rp.clone()); }
                    else if o.code < 0 { c.violate(&["C04"], format!("{} does not end with an error: {} ({})", args.join(" "), o.code, how.join("; ")), rp.clone()); }
                } else if pass {
                    c.count("intact", 1);
                    if !o.ok() { c.violate(&["C04"], format!("{} fails on an intact repository ({})", args.join(" "), how.join("; ")), rp.clone()); }
                } else { c.count("either", 1); }
            }
            if c.samples.len() < 3 && v.fail_r.is_some() { c.sample(json!({"damage": how, "expected": v.fail_r})); }
            if let Some(b) = back { let _ = fs::remove_dir_all(&repo); fs::rename(&b, &repo).unwrap(); }
        }
        let _ = fs::remove_dir_all(&base);
    }
}
fn main() {
    bpharness::main_of(run)
}
