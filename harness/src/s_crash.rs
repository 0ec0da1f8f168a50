//! Commands killed or failing at a chosen system call, then run again.
use crate::cli::*;
use crate::decode::Repo;
use crate::fsgen;
use crate::s_history::*;
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

const SETS: &[(&str, &str)] = &[
    ("rename,renameat,renameat2", "EIO"),
    ("rename,renameat,renameat2", "EXDEV"),
    ("unlink,unlinkat", "EIO"),
    ("write", "ENOSPC"),
    ("copy_file_range", "EIO"),
    ("fsync,fdatasync", "EIO"),
    ("openat", "EMFILE"),
];

struct Set {
    dir: PathBuf,
    cwd: PathBuf,
    a: PathBuf,
    b: PathBuf,
    src: PathBuf,
    src2: PathBuf,
}
impl Set {
    fn at(dir: &Path) -> Set {
        Set { dir: dir.into(), cwd: dir.join("cwd"), a: dir.join("A"), b: dir.join("B"), src: dir.join("src/one"), src2: dir.join("src/two") }
    }
}
fn snapset(r: &Repo) -> Result<BTreeMap<String, Exp>, String> {
    r.snaps.iter().map(|(k, s)| Ok((k.clone(), canon(&r.expand(&s.tree)?)))).collect()
}

/// paths, kinds and contents only: reading a source changes its access times
fn bare(e: &Exp) -> Exp {
    e.iter().map(|(k, v)| (k.clone(), v.split(" | ").next().unwrap().to_string())).collect()
}
/// copy the repositories and the working directory (not the sources, which no command changes)
fn keep(from: &Path, to: &Path) {
    for d in ["A", "B", "cwd"] {
        let _ = fs::remove_dir_all(to.join(d));
        fsgen::copy_dir(&from.join(d), &to.join(d));
    }
}

fn ignore_stale_packs(r: &Repo) -> Vec<(Vec<&'static str>, String)> {
    r.problems()
}

pub fn run(c: &mut Ctx) {
    c.rule = "one command (backup, copy, prune, rebuild-index, filter-snapshot or forget) killed or given an error at one system call, the repository read back, optionally another command run, then the command run again; nontrivial if the fault hit (the command did not finish normally)".into();
    let mut n = 0u64;
    while c.time_left() {
        n += 1;
        one(c, n);
    }
}

/// what the run did to the objects of a repository, in order: (created, path below the root)
fn events(lines: &[(String, String)], root: &Path) -> Vec<(bool, String)> {
    let pre = format!("{}/", root.display());
    let obj = |p: &str| -> Option<String> {
        let r = p.strip_prefix(&pre)?;
        let (d, n) = r.split_once('/')?;
        let ok = match d { "packs" => n.ends_with(".pack"), "indexes" => n.ends_with(".index"), "snapshots" => n.ends_with(".snapshot"), _ => false };
        if ok && !n.contains('/') { Some(r.to_string()) } else { None }
    };
    // a creation counts from where its call starts, a removal from where it ends
    let mut pending: BTreeMap<String, Vec<(bool, String)>> = BTreeMap::new();
    let mut out = vec![];
    for (pid, l) in lines {
        let resumed = l.starts_with("<...");
        if resumed {
            if l.contains("= 0") {
                for e in pending.remove(pid).unwrap_or_default() { out.push(e); }
            } else {
                for e in pending.remove(pid).unwrap_or_default() { if e.0 { out.retain(|x| x != &e); } }
            }
            continue;
        }
        let name = l.split('(').next().unwrap_or("").trim();
        let strs: Vec<&str> = l.split('"').skip(1).step_by(2).collect();
        let unfinished = l.contains("<unfinished");
        if !unfinished && !l.trim_end().ends_with("= 0") { continue; }
        let ev: Vec<(bool, String)> = match name {
            "rename" | "renameat" | "renameat2" if strs.len() == 2 => strs[0..1].iter().filter_map(|p| obj(p)).map(|p| (false, p)).chain(obj(strs[1]).map(|p| (true, p))).collect(),
            "unlink" | "unlinkat" if strs.len() == 1 => obj(strs[0]).map(|p| (false, p)).into_iter().collect(),
            _ => vec![],
        };
        for e in ev {
            if unfinished {
                if e.0 { out.push(e.clone()); pending.entry(pid.clone()).or_default().push((true, e.1.clone())); } else { pending.entry(pid.clone()).or_default().push(e); }
            } else { out.push(e); }
        }
        if unfinished { pending.entry(pid.clone()).or_default(); }
    }
    // a creation that was put down when it started is there once
    let mut seen: Vec<(bool, String)> = vec![];
    for e in out { if e.0 && seen.last() == Some(&e) { continue; } seen.push(e); }
    seen
}
/// every state the run went through, not only those a random fault happens to hit
fn replay(kind: &str, evs: &[(bool, String)], start: &Repo, fin: &Repo) -> Result<u64, (Vec<&'static str>, String)> {
    let mut now = start.clone();
    let stem = |p: &str| p.split_once('/').unwrap().1.split('.').next().unwrap().to_string();
    let mut done = 0;
    for (made, p) in evs {
        let id = stem(p);
        let dir = p.split('/').next().unwrap();
        if *made {
            let known = match dir {
                "packs" => fin.packs.get(&id).map(|x| { now.packs.insert(id.clone(), x.clone()); }),
                "indexes" => fin.idx.get(&id).map(|x| { now.idx.insert(id.clone(), x.clone()); }),
                _ => fin.snaps.get(&id).map(|x| { now.snaps.insert(id.clone(), x.clone()); }),
            };
            if known.is_none() { return Ok(done); } // gone again at the end: nothing is known about it
        } else {
            match dir {
                "packs" => {
                    if let Some((i, _)) = now.idx.iter().find(|(_, x)| x.packs.contains_key(&id)) {
                        return Err((vec!["C11"], format!("{kind} deletes pack {id} while index {i}, which lists it, is still there")));
                    }
                    now.packs.remove(&id);
                }
                "indexes" => {
                    if (kind == "prune" || kind == "rebuild-index") && !now.superseded().contains(&id) {
                        return Err((vec!["C11"], format!("{kind} deletes index {id} before an index that supersedes it is there")));
                    }
                    now.idx.remove(&id);
                }
                _ => { now.snaps.remove(&id); }
            }
        }
        done += 1;
        if let Some((ps, t)) = now.problems().into_iter().next() {
            return Err((ps, format!("{kind}, once it has {} {p}: {t}", if *made { "stored" } else { "deleted" })));
        }
    }
    Ok(done)
}

fn one(c: &mut Ctx, n: u64) {
    let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(n));
    let base = PathBuf::from(&c.work).join(format!("c{n}"));
    let s = Set::at(&base);
    ensure_dir(&s.cwd);
    let cli = Cli::new(&c.bin, &s.cwd);
    let mut clock = 1_600_000_000;
    for d in [&s.src, &s.src2] {
        fsgen::gen_dir(d, &mut r, 2, &mut clock, false);
        let k = r.below(4);
        fs::write(d.join("base"), fsgen::content(11 + k, 7000)).unwrap();
    }
    let ps = *r.pick(&["1kB", "6kB", "6kB", "30kB"]);
    init_repo(&cli, &s.a, ps, None);
    init_repo(&cli, &s.b, ps, None);
    let mut log: Vec<String> = vec![format!("init pack_size={ps}")];
    let st = |p: &Path| p.to_string_lossy().to_string();
    let rel = |a: &[String]| a.join(" ").replace(&*base.to_string_lossy(), "");
    let mut olds: BTreeMap<String, (PathBuf, PathBuf)> = BTreeMap::new();
    let clean = |olds: &BTreeMap<String, (PathBuf, PathBuf)>| { for (_, p) in olds.values() { let _ = fs::remove_dir_all(p); } };
    for _ in 0..r.range(1, 3) {
        for d in [&s.src, &s.src2] {
            if r.chance(3, 4) {
                fsgen::mutate(d, &mut r, &mut clock, false);
                let u = d.join(format!("u{}", r.below(3)));
                fsgen::rm(&u);
                fs::write(u, r.bytes(3000)).unwrap();
                let o = cli.run(&s.a, &["backup", &st(d)]);
                // what it looked like then
                if let Some(k) = Repo::load(&st(&s.a)).snaps.keys().find(|k| !olds.contains_key(*k)) {
                    let to = base.with_extension(format!("old{}", olds.len()));
                    fsgen::copy_dir(d, &to);
                    olds.insert(k.clone(), (d.clone(), to));
                }
                log.push(format!("backup {} -> {}", d.file_name().unwrap().to_string_lossy(), o.code));
            }
        }
    }
    let before0 = Repo::load(&st(&s.a));
    let mut ids: Vec<String> = before0.snaps.keys().cloned().collect();
    if ids.is_empty() {
        clean(&olds);
    let _ = fs::remove_dir_all(&base);
        return;
    }
    let mut gone: Option<(PathBuf, PathBuf)> = None;
    r.shuffle(&mut ids);
    if ids.len() > 1 && r.chance(3, 4) {
        cli.run(&s.a, &["forget", &ids[0]]);
        gone = olds.get(&ids[0]).cloned();
        log.push(format!("forget {}", ids[0]));
        ids.remove(0);
    }
    fsgen::mutate(&s.src, &mut r, &mut clock, false);
    fsgen::rm(&s.src.join("fresh"));
    fs::write(s.src.join("fresh"), r.bytes(9000)).unwrap();
    // the command to interrupt
    let kind = *r.pick(&["backup", "backup", "prune", "prune", "prune", "copy", "rebuild-index", "filter-snapshot", "forget"]);
    let args: Vec<String> = match kind {
        "backup" => vec!["backup".into(), st(&s.src)],
        "prune" => vec!["prune".into()],
        "copy" => vec!["copy".into(), "-t".into(), st(&s.b), "--all".into()],
        "rebuild-index" => vec!["rebuild-index".into()],
        "filter-snapshot" => vec!["filter-snapshot".into(), "-k".into(), "-s".into(), "base".into(), ids[0].clone()],
        _ => vec!["forget".into(), ids[0].clone()],
    };
    let argv: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    // remember the starting point
    let save = base.with_extension("save");
    keep(&s.dir, &save);
    let start = (Repo::load(&st(&s.a)), Repo::load(&st(&s.b)));
    let (sa, sb) = (snapset(&start.0).unwrap_or_default(), snapset(&start.1).unwrap_or_default());
    // what it does uninterrupted
    let mut calls = BTreeMap::new();
    for (i, (set, _)) in SETS.iter().enumerate() {
        if i > 0 && SETS[i - 1].0 == *set {
            continue;
        }
        calls.insert(*set, 0usize);
    }
    let all = calls.keys().cloned().collect::<Vec<_>>().join(",");
    let (o, lines) = cli.trace(&s.a, &argv, &all, &base.join("trace"));
    if !o.ok() {
        c.violate(&["C12"], format!("{kind} fails without any fault: {}", last_line(&o.err)), json!({"history": log}));
        clean(&olds);
    let _ = fs::remove_dir_all(&base);
        let _ = fs::remove_dir_all(&save);
        return;
    }
    for (_, l) in &lines {
        let name = l.split('(').next().unwrap_or("").trim();
        for (set, k) in calls.iter_mut() {
            if set.split(',').any(|x| x == name) {
                *k += 1;
            }
        }
    }
    let fin = (Repo::load(&st(&s.a)), Repo::load(&st(&s.b)));
    for (w, root) in [(0, &s.a), (1, &s.b)] {
        let evs = events(&lines, root);
        let (from, to) = if w == 0 { (&start.0, &fin.0) } else { (&start.1, &fin.1) };
        match replay(kind, &evs, from, to) {
            Ok(k) => c.count("states an uninterrupted run went through", k),
            Err((mut ps, t)) => {
                ps.extend(match kind { "prune" => ["C11", "C09"], "rebuild-index" => ["C11", "C30"], "forget" => ["C19", "C26"], _ => ["C06", "C26"] });
                c.violate(&ps, format!("a crash would leave repository {} damaged: {t}", ["A", "B"][w]), json!({"history": log, "command": rel(&args), "seed": c.seed, "number": n,
                    "events": evs.iter().map(|(m, p)| format!("{} {p}", if *m { "store" } else { "delete" })).collect::<Vec<_>>()}));
                clean(&olds);
    let _ = fs::remove_dir_all(&base);
                let _ = fs::remove_dir_all(&save);
                return;
            }
        }
    }
    let content = |r: &Repo| -> BTreeSet<Exp> { snapset(r).unwrap_or_default().into_values().map(|v| bare(&v)).collect() };
    let want = (content(&fin.0), content(&fin.1));
    let tries = if c.thorough { 10 } else { 5 };
    for _ in 0..tries {
        if !c.time_left() {
            break;
        }
        keep(&save, &s.dir);
        let (set, err) = *r.pick(SETS);
        let mut total = calls[set];
        if total == 0 {
            continue;
        }
        let when = 1 + r.below(total as u64);
        let kill = r.chance(2, 3);
        let object = if r.chance(1, if kind == "prune" { 2 } else { 4 }) {
            // one object that cannot be opened (or read) for a while
            let v: Vec<String> = start.0.files.keys().filter(|f| f.ends_with(".pack") || f.ends_with(".index") || f.ends_with(".snapshot")).cloned().collect();
            let p: Vec<String> = v.iter().filter(|f| f.ends_with(".pack")).cloned().collect();
            Some(if r.chance(3, 4) { r.pick(&p).clone() } else { r.pick(&v).clone() })
        } else {
            None
        };
        let spec = if let Some(f) = &object {
            total = 1;
            let f = s.a.join(f);
            if r.chance(2, 3) { format!("openat:error=EIO:when=1+@{}", f.display()) } else { format!("read,pread64:error=EIO:when={}+@{}", r.range(1, 5), f.display()) }
        } else if kill { format!("{set}:signal=SIGKILL:when={when}") } else if r.chance(1, 2) { format!("{set}:error={err}:when={when}") } else { format!("{set}:error={err}:when={when}+") };
        let mut l = log.clone();
        let o = cli.run_injected(&s.a, &argv, &spec);
        l.push(format!("{} with {spec} (of {total}) -> {}", rel(&args), o.code));
        let hit = !o.ok();
        c.case(&(n, &spec), hit);
        c.count(if hit { "faults that stopped the command" } else { "faults survived" }, 1);
        if o.code == -2 {
            c.violate(&["C33", "C12"], format!("{kind} hangs after {spec}"), json!({"history": l}));
            break;
        }
        let cseed = c.seed;
        let rep = |l: &Vec<String>| json!({"history": l, "seed": cseed, "number": n, "fault": spec});
        let own: &[&str] = match kind {
            "prune" => &["C11", "C09"],
            "rebuild-index" => &["C11", "C30"],
            "forget" => &["C19", "C26"],
            "copy" => &["C06", "C13", "C26"],
            _ => &["C06", "C26"],
        };
        let mut bad = false;
        for (w, root, was) in [(0, &s.a, &sa), (1, &s.b, &sb)] {
            let now = Repo::load(&st(root));
            if let Some((p, t)) = ignore_stale_packs(&now).into_iter().next() {
                let mut ps = own.to_vec();
                ps.extend(p);
                let rp = rep(&l);
                c.violate(&ps, format!("after {kind} was stopped by {spec}, repository {}: {t}", ["A", "B"][w]), rp);
                bad = true;
                break;
            }
            match snapset(&now) {
                Err(e) => {
                    let rp = rep(&l);
                    c.violate(own, format!("after {kind} was stopped by {spec}: {e}"), rp);
                    bad = true;
                    break;
                }
                Ok(m) => {
                    for (k, v) in was {
                        let gone = kind == "forget" && *k == ids[0];
                        if m.get(k) != Some(v) && !(gone && !m.contains_key(k)) {
                            let rp = rep(&l);
                            c.violate(own, format!("after {kind} was stopped by {spec}: snapshot {k} lost or changed"), rp);
                            bad = true;
                        }
                    }
                    if kind != "filter-snapshot" {
                        for (k, v) in &m {
                            if !was.contains_key(k) && !(if w == 0 { &want.0 } else { &want.1 }).contains(&bare(v)) {
                                let rp = rep(&l);
                                c.violate(own, format!("after {kind} was stopped by {spec}: snapshot {k} has other contents than an uninterrupted run gives"), rp);
                                bad = true;
                            }
                        }
                    }
                }
            }
            for f in now.files.keys() {
                if !(f.ends_with(".pack") || f.ends_with(".index") || f.ends_with(".snapshot") || f.ends_with(".part")) {
                    let rp = rep(&l);
                    c.violate(&["C26"], format!("after {kind} was stopped by {spec}: stray {f}"), rp);
                    bad = true;
                }
            }
        }
        if bad {
            break;
        }
        if o.ok() {
            // a fault the command survived must not have cost anything
            let (na, nb) = (Repo::load(&st(&s.a)), Repo::load(&st(&s.b)));
            if (content(&na), content(&nb)) != want {
                let rp = rep(&l);
                c.violate(&["C12", "C06", "C26"], format!("{kind} claims success with {spec} but the snapshots are not those of a run without it"), rp);
                break;
            }
        }
        // something else in between?
        let mid = r.below(6);
        let mut changed = false;
        let mut forgot: Option<String> = None;
        let mut midargs: Vec<String> = vec![];
        let mut extra = BTreeMap::new();
        match mid {
            0 => {
                let now = Repo::load(&st(&s.a));
                let mut k: Vec<_> = now.snaps.keys().cloned().collect();
                if k.len() > 1 && kind != "forget" && kind != "filter-snapshot" {
                    r.shuffle(&mut k);
                    midargs = vec!["forget".into(), k[0].clone()];
                    forgot = Some(k[0].clone());
                }
            }
            1 => midargs = vec!["backup".into(), "--allow-repeat".into(), st(&s.src2)],
            2 if kind != "prune" => midargs = vec!["prune".into()],
            3 if kind != "rebuild-index" => {
                // the leftovers of an interrupted run may hold blobs twice; only rebuild when they do not
                midargs = vec![];
            }
            _ => {}
        }
        // what was forgotten is backed up again, elsewhere: packs this run was about to drop are needed after all
        if kind == "prune" && midargs.is_empty() && r.chance(2, 3) {
            if let Some((d, old)) = &gone {
                let keep = base.with_extension("keep");
                fsgen::rm(&keep);
                fs::rename(d, &keep).unwrap();
                fsgen::copy_dir(old, d);
                let cwd2 = s.dir.join("cwd2");
                fsgen::rm(&cwd2);
                ensure_dir(&cwd2);
                let o = Cli::new(&c.bin, &cwd2).run(&s.a, &["backup", "--allow-repeat", "--allow-empty", &st(d)]);
                fsgen::rm(d);
                fs::rename(&keep, d).unwrap();
                fsgen::rm(&cwd2);
                l.push(format!("(in another directory) backup of {} as it was before -> {} {}", d.file_name().unwrap().to_string_lossy(), o.code, if o.ok() { String::new() } else { last_line(&o.err) }));
                changed = true;
                midargs = vec!["backup".into()];
                let now = Repo::load(&st(&s.a));
                if let Some((p, t)) = ignore_stale_packs(&now).into_iter().next() {
                    let mut ps = vec!["C12", "C06", "C09"];
                    ps.extend(p);
                    let rp = rep(&l);
                    c.violate(&ps, format!("after an interrupted {kind} and a backup elsewhere: {t}"), rp);
                    break;
                }
                let m = snapset(&now).unwrap_or_default();
                extra = m;
            }
        } else
        if !midargs.is_empty() {
            changed = true;
            let a: Vec<&str> = midargs.iter().map(|x| x.as_str()).collect();
            let o = cli.run(&s.a, &a);
            l.push(format!("{} -> {} {}", rel(&midargs), o.code, if o.ok() { String::new() } else { last_line(&o.err) }));
            let refused = o.err.contains("references packfiles not backed up");
            if !o.ok() && !refused {
                let rp = rep(&l);
                c.violate(&["C12"], format!("{} after an interrupted {kind} fails: {}", midargs[0], last_line(&o.err)), rp);
                break;
            }
            let now = Repo::load(&st(&s.a));
            if let Some((p, t)) = ignore_stale_packs(&now).into_iter().next() {
                let mut ps = vec!["C12", "C06", "C09"];
                ps.extend(p);
                let rp = rep(&l);
                c.violate(&ps, format!("after an interrupted {kind} and then {}: {t}", midargs[0]), rp);
                break;
            }
            if let Some(d) = now.duplicates().first() {
                let rp = rep(&l);
                c.violate(&["C12", "C05"], format!("after an interrupted {kind} and then {}: {d}", midargs[0]), rp);
                break;
            }
        }
        // and again
        let before_again = Repo::load(&st(&s.a));
        let o = cli.run(&s.a, &argv);
        l.push(format!("{} -> {} {}", rel(&args), o.code, if o.ok() { String::new() } else { last_line(&o.err) }));
        let rp = rep(&l);
        let done_before = (kind == "forget" && !before_again.snaps.contains_key(&ids[0])) || (kind == "filter-snapshot" && forgot.as_ref() == Some(&ids[0]));
        let refused = o.err.contains("references packfiles not backed up");
        if !o.ok() && !done_before && !(refused && mid_deletes(&midargs)) {
            c.violate(&["C12"], format!("running {kind} again after {spec} fails: {}", last_line(&o.err)), rp);
            break;
        }
        let (na, nb) = (Repo::load(&st(&s.a)), Repo::load(&st(&s.b)));
        for (w, x) in [(0, &na), (1, &nb)] {
            if let Some((p, t)) = ignore_stale_packs(x).into_iter().next() {
                let mut ps = vec!["C12", own[0]];
                ps.extend(p);
                c.violate(&ps, format!("after {kind} was run again, repository {w}: {t}"), rp.clone());
                bad = true;
                break;
            }
            if let Some(d) = x.duplicates().first() {
                c.violate(&["C12", "C05"], format!("after {kind} was run again: {d}"), rp.clone());
                bad = true;
                break;
            }
        }
        if bad {
            break;
        }
        if !changed && (content(&na), content(&nb)) != want {
            c.violate(&["C12"], format!("{kind}, interrupted by {spec} and run again, does not give the snapshots an uninterrupted run gives"), rp);
            break;
        }
        if changed {
            // at least everything from before that was not forgotten
            let m = snapset(&na).unwrap_or_default();
            for (k, v) in sa.iter().chain(extra.iter()) {
                if m.get(k) != Some(v) && forgot.as_ref() != Some(k) && !(kind == "forget" && *k == ids[0]) {
                    c.violate(&["C12", "C09"], format!("snapshot {k} lost after an interrupted {kind}, {} and {kind} again", midargs[0]), rp.clone());
                    bad = true;
                }
            }
            if bad {
                break;
            }
        }
        if kind == "prune" && o.ok() {
            if let Ok(reach) = na.reachable() {
                if let Some(e) = na.live().values().flatten().find(|e| !reach.contains(&e.id)) {
                    c.violate(&["C10", "C12"], format!("prune resumed after {spec} keeps unreferenced {} {}", e.kind, e.id), rp.clone());
                    break;
                }
            }
        }
        for f in fs::read_dir(&s.cwd).unwrap().flatten() {
            let nm = f.file_name().to_string_lossy().to_string();
            // (a prune that finds everything in use again stops before it looks for one)
            if nm.ends_with("wip.index") && o.ok() && kind != "forget" && !(kind == "prune" && na.files == before_again.files) {
                c.violate(&["C12"], format!("{nm} is left in the working directory after {kind} completed"), rp.clone());
            }
        }
        c.sample(json!({"history": l}));
    }
    clean(&olds);
    let _ = fs::remove_dir_all(&base);
    let _ = fs::remove_dir_all(&save);
    let _ = &s.dir;
}
fn mid_deletes(m: &[String]) -> bool {
    m.first().map(|x| x == "prune").unwrap_or(false)
}
