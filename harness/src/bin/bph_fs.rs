//! C17 (reuse of unchanged files, choice of the parent) and C31 (names of backed-up paths).
use backpak::{fs_tree, hashing::ObjectId, tree};
use bpharness::{cli::Cli, decode, enc, fsgen, util::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::MetadataExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;

fn ts(s: i64, n: i32) -> jiff::Timestamp {
    jiff::Timestamp::new(s, n).unwrap()
}
fn meta(mode: u32, size: Option<u64>, m: jiff::Timestamp) -> tree::NodeMetadata {
    tree::NodeMetadata::Posix(tree::PosixMetadata { mode, size, user_id: 7, group_id: 8, access_time: ts(1, 0), modify_time: m })
}
fn node(r: &mut Rng, size: Option<u64>, m: jiff::Timestamp) -> tree::Node {
    match r.below(5) {
        0 => tree::Node { contents: tree::NodeContents::Directory { subtree: ObjectId::hash(b"d") }, metadata: meta(0o040755, None, m) },
        1 => tree::Node { contents: tree::NodeContents::Symlink { target: "t".into() }, metadata: meta(0o120777, None, m) },
        _ => tree::Node { contents: tree::NodeContents::File { chunks: vec![ObjectId::hash(b"c")] }, metadata: meta(*r.pick(&[0o100644, 0o100755]), size, m) },
    }
}
/// the decision itself, on every combination of near-equal metadata
fn decide(c: &mut Ctx, r: &mut Rng) {
    let times = [ts(1_600_000_000, 0), ts(1_600_000_000, 1), ts(1_600_000_001, 0), ts(0, 0), ts(-1, 5), ts(1_600_000_000, 999_999_999), ts(1_600_000_000, 1000)];
    let sizes = [0u64, 1, 100, 101, 1 << 32, (1 << 32) + 100, u64::MAX];
    let (m1, m2) = (*r.pick(&times), *r.pick(&times));
    let (s1, s2) = (*r.pick(&sizes), *r.pick(&sizes));
    let (m2, s2) = (if r.chance(1, 2) { m1 } else { m2 }, if r.chance(1, 2) { s1 } else { s2 });
    let now = meta(*r.pick(&[0o100644, 0o100600]), Some(s1), m1);
    let prev = if r.chance(1, 10) { None } else { Some(node(r, Some(s2), m2)) };
    let same = matches!(&prev, Some(p) if matches!(p.contents, tree::NodeContents::File { .. })) && m1 == m2 && s1 == s2;
    let got = catch_unwind(AssertUnwindSafe(|| fs_tree::file_changed("x".into(), &now, prev.as_ref())));
    if got.as_ref().ok() != Some(&!same) {
        c.violate(&["C17"], format!("a file is taken as {} although its kind, size and mtime {}", match got { Ok(true) => "changed", Ok(false) => "unchanged", _ => "(crash)" }, if same { "all match" } else { "do not all match" }), json!({"now": format!("{now:?}"), "previous": format!("{prev:?}")}));
    }
    c.case(&(s1, s2, m1.as_nanosecond() as i64, m2.as_nanosecond() as i64, prev.is_some(), same), prev.is_some());
}

/// path below the walked roots -> node, from a forest
fn flat(f: &tree::Forest, t: &ObjectId, at: &str, out: &mut BTreeMap<String, tree::Node>) -> Result<(), String> {
    for (n, x) in f.get(t).ok_or(format!("tree of {at:?} is missing"))?.iter() {
        let p = if at.is_empty() { n.to_string() } else { format!("{at}/{n}") };
        if let tree::NodeContents::Directory { subtree } = &x.contents { flat(f, subtree, &p, out)?; }
        out.insert(p, x.clone());
    }
    Ok(())
}
/// the same tree with every file's chunks replaced by a marker naming its path
fn mark(f: &tree::Forest, t: &ObjectId, at: &str, out: &mut tree::Forest) -> ObjectId {
    let mut n2 = tree::Tree::new();
    for (n, x) in f[t].iter() {
        let p = if at.is_empty() { n.to_string() } else { format!("{at}/{n}") };
        let contents = match &x.contents {
            tree::NodeContents::Directory { subtree } => tree::NodeContents::Directory { subtree: mark(f, subtree, &p, out) },
            tree::NodeContents::File { .. } => tree::NodeContents::File { chunks: vec![ObjectId::hash(format!("marker {p}").as_bytes())] },
            o => o.clone(),
        };
        n2.insert(n.clone(), tree::Node { contents, metadata: x.metadata.clone() });
    }
    let id = tree::serialize_and_hash(&n2).unwrap().1;
    out.insert(id, Arc::new(n2));
    id
}
fn on_disk(p: &Path, rel: &str, deref: bool, out: &mut BTreeMap<String, std::fs::Metadata>) {
    let m = if deref { std::fs::metadata(p) } else { std::fs::symlink_metadata(p) }.unwrap();
    if m.is_dir() {
        for e in std::fs::read_dir(p).unwrap().flatten() { on_disk(&e.path(), &format!("{rel}/{}", e.file_name().to_string_lossy()), deref, out); }
    }
    if m.is_dir() || m.is_file() || m.file_type().is_symlink() { out.insert(rel.into(), m); }
}
fn walk(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let d = w.join("walk");
    let _ = std::fs::remove_dir_all(&d);
    let mut clock = 1_500_000_000;
    let roots: Vec<PathBuf> = (0..r.range(1, 2)).map(|k| d.join(["one", "two"][k as usize])).collect();
    for p in &roots { fsgen::gen_dir(p, r, 2, &mut clock, false); }
    // symlinks that resolve, for dereferencing walks
    let deref = r.chance(1, 3);
    let fix = |p: &Path| for q in fsgen::all_paths(p) { if std::fs::symlink_metadata(&q).unwrap().file_type().is_symlink() && std::fs::metadata(&q).is_err() { let _ = std::fs::remove_file(&q); } };
    let noloop = |p: &Path| for q in fsgen::all_paths(p) { if std::fs::symlink_metadata(&q).map(|m| m.file_type().is_symlink()).unwrap_or(false) && std::fs::metadata(&q).map(|m| m.is_dir()).unwrap_or(false) { let _ = std::fs::remove_file(&q); } };
    if deref { for p in &roots { fix(p); noloop(p); } }
    let sb = if deref { tree::Symlink::Dereference } else { tree::Symlink::Read };
    let paths: BTreeSet<camino::Utf8PathBuf> = roots.iter().map(|p| camino::Utf8PathBuf::from_path_buf(p.clone()).unwrap()).collect();
    let run = |prev: Option<&ObjectId>, f: &tree::Forest| catch_unwind(AssertUnwindSafe(|| fs_tree::forest_from_fs(sb, &paths, prev, f).map_err(|e| format!("{e:#}")))).unwrap_or(Err("crash".into()));
    let (t1, f1) = match run(None, &tree::Forest::default()) { Ok(x) => x, Err(e) => { c.violate(&["C17"], format!("walking fails: {e}"), json!({"seed": c.seed, "case": c.evals})); return } };
    let mut f2 = tree::Forest::default();
    let t2 = mark(&f1, &t1, "", &mut f2);
    let mut before = BTreeMap::new();
    flat(&f1, &t1, "", &mut before).unwrap();
    // change some things, in ways that keep size or mtime or neither
    let mut log = vec![];
    for p in &roots {
        for q in fsgen::all_paths(p) {
            let Ok(m) = std::fs::symlink_metadata(&q) else { continue };
            if !m.is_file() || r.chance(1, 3) { continue }
            let n = std::fs::read(&q).unwrap().len();
            let how = r.below(8);
            match how {
                0 => { let b = r.bytes(n); std::fs::write(&q, b).unwrap(); fsgen::set_mtime(&q, m.mtime(), m.mtime_nsec()); }
                1 => { let b = r.bytes(n + 1); std::fs::write(&q, b).unwrap(); fsgen::set_mtime(&q, m.mtime(), m.mtime_nsec()); }
                2 => { let b = r.bytes(n); std::fs::write(&q, b).unwrap(); fsgen::set_mtime(&q, m.mtime(), (m.mtime_nsec() + 1) % 1_000_000_000); }
                3 => { let b = r.bytes(n); std::fs::write(&q, b).unwrap(); fsgen::set_mtime(&q, m.mtime() - 1, m.mtime_nsec()); }
                4 => { fsgen::rm(&q); fsgen::gen_entry(&q, r, 1, &mut clock, false); }
                5 => { let x = q.with_file_name("moved"); if std::fs::symlink_metadata(&x).is_err() { std::fs::rename(&q, x).unwrap(); } }
                6 => { use std::os::unix::fs::PermissionsExt; std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o640)).unwrap(); }
                _ => { let b = r.bytes(n.saturating_sub(1)); std::fs::write(&q, b).unwrap(); }
            }
            log.push(format!("{}: change {how}", q.strip_prefix(&d).unwrap().display()));
        }
        if r.chance(1, 3) { fsgen::mutate(p, r, &mut clock, false); log.push("and more".into()); }
        if deref { fix(p); noloop(p); }
    }
    let rp = json!({"changes": log, "dereference": deref, "seed": c.seed, "case": c.evals});
    let (t3, f3) = match run(Some(&t2), &f2) { Ok(x) => x, Err(e) => { c.violate(&["C17"], format!("walking again fails: {e}"), rp); return } };
    let mut after = BTreeMap::new();
    if let Err(e) = flat(&f3, &t3, "", &mut after) { c.violate(&["C17"], e, rp); return }
    let mut disk = BTreeMap::new();
    for p in &roots { on_disk(p, &p.file_name().unwrap().to_string_lossy(), deref, &mut disk); }
    if after.keys().ne(disk.keys()) { c.violate(&["C17"], format!("the walk sees {:?}, on disk are {:?}", after.keys().collect::<Vec<_>>(), disk.keys().collect::<Vec<_>>()), rp); return }
    let mut reused = 0;
    for (p, m) in &disk {
        let n = &after[p];
        let tree::NodeMetadata::Posix(pm) = &n.metadata else { continue };
        if pm.mode != m.mode() || pm.modify_time != ts(m.mtime(), m.mtime_nsec() as i32) || pm.user_id != m.uid() || pm.group_id != m.gid() || pm.size != m.is_file().then(|| m.len()) {
            c.violate(&["C17"], format!("{p}: the recorded metadata is not the file's"), rp.clone());
            return;
        }
        match &n.contents {
            tree::NodeContents::File { chunks } if m.is_file() => {
                let same = before.get(p).is_some_and(|b| matches!(b.contents, tree::NodeContents::File { .. }) && b.metadata.modification_time() == n.metadata.modification_time() && b.metadata.size() == Some(m.len()));
                let bytes = std::fs::read(d.join(p)).unwrap();
                let fresh: Vec<_> = if bytes.is_empty() { vec![] } else { vec![ObjectId::hash(&bytes)] };
                let marker = vec![ObjectId::hash(format!("marker {p}").as_bytes())];
                let want = if same { marker.clone() } else { fresh };
                reused += same as u64;
                if *chunks != want {
                    let what = if *chunks == marker { "its previous chunks are reused although size, mtime or kind differ" } else if same { "it is read again although kind, size and mtime all match" } else { "its chunks are not those of its bytes" };
                    c.violate(&["C17"], format!("{p}: {what}"), rp.clone());
                    return;
                }
            }
            tree::NodeContents::Directory { .. } if m.is_dir() => {}
            tree::NodeContents::Symlink { target } if m.file_type().is_symlink() => {
                if std::fs::read_link(d.join(p)).unwrap().to_string_lossy() != target.as_str() { c.violate(&["C17"], format!("{p}: wrong link target"), rp.clone()); return }
            }
            _ => { c.violate(&["C17"], format!("{p} is recorded as another kind"), rp.clone()); return }
        }
    }
    c.count("files reused", reused);
    if c.evals % 97 == 5 { c.sample(rp); }
    c.case(&log, reused > 0);
}
/// which snapshot a real backup takes as its parent, made visible by a change that keeps size and mtime
fn parent(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let d = w.join("par");
    let _ = std::fs::remove_dir_all(&d);
    let repo = d.join("r");
    let cli = Cli::new(&c.bin, &d.join("cwd"));
    std::fs::create_dir_all(d.join("a")).unwrap();
    std::fs::create_dir_all(d.join("b")).unwrap();
    enc::repo(&repo, None, false);
    let (pa, pb) = (d.join("a").to_string_lossy().to_string(), d.join("b").to_string_lossy().to_string());
    let sets: Vec<Vec<&str>> = vec![vec![&pa], vec![&pa, &pb], vec![&pb]];
    let f = d.join("a/f");
    let t0 = 1_700_000_000_000_000_000i128;
    // snapshots of versions of a/f, each with its own mtime, recorded at shuffled times
    let n = r.range(1, 5) as usize;
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut vs = vec![];
    for k in 0..n {
        let b = r.bytes(1000);
        std::fs::write(&f, &b).unwrap();
        let mt = if k > 0 && r.chance(1, 3) { 1_500_000_000 + r.below(k as u64) as i64 } else { 1_500_000_000 + k as i64 };
        fsgen::set_mtime(&f, mt, 3);
        let set = r.below(3) as usize;
        let mut a = vec!["backup", "--allow-empty"];
        a.extend(&sets[set]);
        let had: BTreeSet<String> = decode::Repo::load(&repo.to_string_lossy()).snaps.keys().cloned().collect();
        // every version is read afresh: nothing to reuse
        let hide = d.join("hide");
        std::fs::create_dir_all(&hide).unwrap();
        for h in &had { std::fs::rename(repo.join(format!("snapshots/{h}.snapshot")), hide.join(h)).unwrap(); }
        let o = cli.run(&repo, &a);
        for h in &had { std::fs::rename(hide.join(h), repo.join(format!("snapshots/{h}.snapshot"))).unwrap(); }
        if !o.ok() { c.violate(&["C17"], format!("backup fails: {}", o.err), json!({"arguments": a})); return }
        // record it again under the chosen time
        let rp = decode::Repo::load(&repo.to_string_lossy());
        let Some((id, s)) = rp.snaps.iter().find(|s| !had.contains(s.0)) else { c.violate(&["C17"], "a backup recorded no snapshot".into(), json!({"arguments": a})); return };
        std::fs::remove_file(repo.join(format!("snapshots/{id}.snapshot"))).unwrap();
        let ps: Vec<String> = sets[set].iter().map(|x| x.to_string()).collect();
        let pr: Vec<&str> = ps.iter().map(|x| &x[..]).collect();
        let when = t0 + order[k] as i128 * *[1i128, 1_000_000, 3_600_000_000_000].get(r.below(3) as usize).unwrap();
        let when = if vs.iter().any(|v: &(i128, usize, i64, Vec<u8>)| v.0 == when) { when + 7 * (k as i128 + 1) } else { when };
        let (nid, nb) = enc::snapshot(when, *r.pick(&["UTC", "+09:00", "-11:00"]), "x", &[], &pr, &s.tree);
        enc::put(&repo, "snapshot", &nid, &nb);
        vs.push((when, set, mt, b));
    }
    // now a change that only shows if the file is read
    let now = r.bytes(1000);
    std::fs::write(&f, &now).unwrap();
    let v = r.pick(&vs).clone();
    fsgen::set_mtime(&f, v.2, 3);
    let set = if r.chance(3, 4) { v.1 } else { r.below(3) as usize };
    let want_parent = vs.iter().filter(|x| x.1 == set).max_by_key(|x| x.0);
    let want = match want_parent { Some(p) if set != 2 && p.2 == v.2 => p.3.clone(), _ => now.clone() };
    let had: BTreeSet<String> = decode::Repo::load(&repo.to_string_lossy()).snaps.keys().cloned().collect();
    let mut a = vec!["backup", "--allow-empty", "--allow-repeat"];
    let mut s = sets[set].clone();
    if r.chance(1, 2) { s.reverse(); }
    a.extend(&s);
    let o = cli.run(&repo, &a);
    let rp = json!({"snapshots (time, path set, mtime)": vs.iter().map(|v| format!("{} {} {}", v.0, v.1, v.2)).collect::<Vec<_>>(), "backup of path set": set, "mtime now": v.2, "seed": c.seed, "case": c.evals});
    if !o.ok() { c.violate(&["C17"], format!("backup fails: {}", o.err), rp); return }
    let re = decode::Repo::load(&repo.to_string_lossy());
    let nw: Vec<_> = re.snaps.iter().filter(|s| !had.contains(s.0)).collect();
    if set != 2 {
        if let [(_, s)] = nw[..] {
            match re.expand(&s.tree) {
                Ok(e) => {
                    let got = e.get("a/f").map(|x| x.1.clone()).unwrap_or_default();
                    if got != want {
                        let which = vs.iter().position(|v| v.3 == got).map(|k| format!("those of snapshot {k}")).unwrap_or(if got == now { "read afresh".into() } else { "something else".into() });
                        c.violate(&["C17"], format!("the backed-up contents are {which}; the parent is the newest snapshot of exactly the same paths"), rp.clone());
                    }
                }
                Err(e) => c.violate(&["C17"], format!("the new snapshot cannot be read: {e}"), rp.clone()),
            }
        }
    }
    c.case(&(vs.len(), set, v.2, order), want != now);
}
/// C31
fn names(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let d = w.join("nm");
    let _ = std::fs::remove_dir_all(&d);
    let repo = d.join("r");
    std::fs::create_dir_all(&d).unwrap();
    enc::repo(&repo, None, false);
    let cli = Cli::new(&c.bin, &d.join("cwd"));
    let mut all = vec![];
    for _ in 0..r.range(2, 6) {
        let p = d.join(r.pick(&["x", "y", "z/x", "z/q"])).join(r.pick(&["n", "m", "N", "n.d", "é", "nn"]));
        if p.exists() { continue }
        if r.chance(1, 3) && !p.exists() { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, p.to_string_lossy().as_bytes()).unwrap(); }
        else { std::fs::create_dir_all(&p).unwrap(); std::fs::write(p.join("id"), p.to_string_lossy().as_bytes()).unwrap(); }
        all.push(p);
    }
    r.shuffle(&mut all);
    let k = r.range(1, all.len() as u64) as usize;
    let mut args: Vec<String> = all[..k].iter().map(|p| {
        let s = p.to_string_lossy().to_string();
        match r.below(4) { 0 => format!("{s}/."), 1 => s.replace("/nm/", "/nm/./"), _ => s }
    }).filter(|s| Path::new(s).exists()).collect();
    if args.is_empty() { return }
    if r.chance(1, 5) { let x = args[0].clone(); args.push(x); } // the same path twice is one path
    let real: BTreeSet<PathBuf> = args.iter().map(|a| std::fs::canonicalize(a).unwrap()).collect();
    let lasts: Vec<_> = real.iter().map(|p| p.file_name().unwrap().to_string_lossy().to_string()).collect();
    let clash = lasts.iter().collect::<BTreeSet<_>>().len() != lasts.len();
    let mut a = vec!["backup"];
    a.extend(args.iter().map(|s| &s[..]));
    let o = cli.run(&repo, &a);
    let rp = json!({"paths": args, "seed": c.seed, "case": c.evals});
    let re = decode::Repo::load(&repo.to_string_lossy());
    if o.ok() == clash { c.violate(&["C31"], format!("a backup of paths with {} last components {}", if clash { "equal" } else { "different" }, if clash { "is accepted" } else { "is refused" }), rp); return }
    if clash && !re.files.is_empty() { c.violate(&["C31"], "a refused backup stored something".into(), rp); return }
    if !clash {
        if let Some(s) = re.snaps.values().next() {
            let tops: BTreeSet<String> = re.expand(&s.tree).map(|e| e.keys().filter(|k| !k.contains('/')).cloned().collect()).unwrap_or_default();
            let sp: BTreeSet<PathBuf> = s.paths.iter().map(PathBuf::from).collect();
            if tops != lasts.iter().cloned().collect() || sp != real { c.violate(&["C31"], format!("the snapshot's entries {tops:?} are not the last components of its paths {sp:?}"), rp); return }
            for p in &real {
                let e = re.expand(&s.tree).unwrap();
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                let got = e.get(&n).map(|x| x.1.clone()).filter(|b| !b.is_empty()).or(e.get(&format!("{n}/id")).map(|x| x.1.clone())).unwrap_or_default();
                let want = std::fs::read(p).or_else(|_| std::fs::read(p.join("id"))).unwrap();
                if got != want { c.violate(&["C31"], format!("the entry {n} does not hold what was at {}", p.display()), rp.clone()); return }
            }
        } else { c.violate(&["C31"], "a backup recorded no snapshot".into(), rp); return }
    }
    c.case(&args, clash || real.len() > 1);
}
fn run(c: &mut Ctx) {
    c.rule = "C17: near-equal metadata, walks over changed scratch trees with a marked previous tree, backups with several possible parents; C31: backups of 1-6 paths with equal and different last components; nontrivial if something is reused or could be, or several paths are given".into();
    let mut r = Rng::new(c.seed);
    let w = PathBuf::from(&c.work);
    while c.time_left() && (c.evals < 30000 || c.thorough) {
        if c.prop == "C31" { names(c, &mut r, &w); continue }
        match r.below(120) {
            0..=2 => parent(c, &mut r, &w),
            3..=20 => walk(c, &mut r, &w),
            _ => decide(c, &mut r),
        }
    }
}
fn main() {
    bpharness::main_of(run);
}
