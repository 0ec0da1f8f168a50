//! C15 and C16: restoring into destinations in every state, and what it leaves alone.
use bpharness::{cli::{init_repo, Cli}, fsgen, s_history::last_line, util::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::{symlink, FileTypeExt, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
enum K { F(Vec<u8>), D, L(String), S }
#[derive(Clone, Debug, PartialEq, Eq)]
struct N { k: K, mode: u32, mtime: (i64, i64), kids: BTreeMap<String, N> }
fn look(p: &Path) -> Option<N> {
    let m = fs::symlink_metadata(p).ok()?;
    let t = m.file_type();
    let mut kids = BTreeMap::new();
    let k = if t.is_symlink() { K::L(fs::read_link(p).unwrap().to_string_lossy().to_string()) }
        else if t.is_dir() { for e in fs::read_dir(p).unwrap().flatten() { if let Some(n) = look(&e.path()) { kids.insert(e.file_name().to_string_lossy().to_string(), n); } } K::D }
        else if t.is_file() { K::F(fs::read(p).unwrap()) } else { assert!(t.is_fifo() || t.is_socket()); K::S };
    Some(N { k, mode: m.mode() & 0o7777, mtime: (m.mtime(), m.mtime_nsec()), kids })
}
/// what a snapshot of it says (special files are in none)
fn told(n: &N) -> Option<N> {
    if n.k == K::S { return None }
    Some(N { kids: n.kids.iter().filter_map(|(k, v)| Some((k.clone(), told(v)?))).collect(), ..n.clone() })
}
#[derive(Clone, Copy, Debug)]
struct O { delete: bool, times: bool, perms: bool, dry: bool }
/// whether something special is where something is to be restored
fn in_the_way(a: Option<&N>, b: Option<&N>) -> bool {
    match (a, b) { (Some(a), Some(b)) => a.k == K::S || a.kids.iter().any(|(k, v)| in_the_way(Some(v), b.kids.get(k))), _ => false }
}
fn short(n: Option<&N>) -> String {
    match n { None => "nothing".into(), Some(n) => match &n.k { K::F(b) => format!("a file of {} bytes", b.len()), K::D => format!("a directory of {}", n.kids.len()), K::L(t) => format!("a symlink to {t}"), K::S => "a special file".into() } }
}
/// what was there (a), what the snapshot says (b), what is there now
fn judge(at: &str, a: Option<&N>, b: Option<&N>, now: Option<&N>, o: O) -> Result<(), String> {
    let same = |why: &str| if a == now { Ok(()) } else { Err(format!("{at} is {}, not the {} it was ({why})", short(now), short(a))) };
    match (a, b) {
        (None, None) => same("nothing was to be there"),
        (Some(x), None) if !o.delete || x.k == K::S => same("the snapshot says nothing about it"),
        (Some(_), None) => if now.is_none() { Ok(()) } else { Err(format!("{at} is still there with --delete")) },
        (Some(x), Some(y)) if !o.delete && x.k == K::D && y.k != K::D => same("a directory is in the way of something else"),
        (_, Some(y)) => {
            let Some(n) = now else { return Err(format!("{at} is missing")) };
            let ok = n.k == y.k || matches!((a.map(|x| (&x.k, x.mtime)), &y.k, &n.k), (Some((K::F(p), t)), K::F(q), K::F(g)) if p.len() == q.len() && t == y.mtime && p == g);
            if !ok { return Err(format!("{at} is {}, the snapshot has {}", short(now), short(b))) }
            if !matches!(y.k, K::L(_)) {
                if o.perms && n.mode != y.mode { return Err(format!("{at} has mode {:o}, the snapshot {:o}", n.mode, y.mode)) }
                if o.times && n.mtime != y.mtime { return Err(format!("{at} has mtime {:?}, the snapshot {:?}", n.mtime, y.mtime)) }
            }
            if y.k == K::D {
                let no = BTreeMap::new();
                let xk = match a { Some(x) if x.k == K::D => &x.kids, _ => &no };
                let names: BTreeSet<_> = xk.keys().chain(y.kids.keys()).chain(n.kids.keys()).collect();
                for k in names { judge(&format!("{at}/{k}"), xk.get(k), y.kids.get(k), n.kids.get(k), o)?; }
            }
            Ok(())
        }
    }
}
fn fifo(p: &Path) { let _ = rustix::fs::mknodat(rustix::fs::CWD, p, rustix::fs::FileType::Fifo, rustix::fs::Mode::from_raw_mode(0o644), 0); }
fn odd_times(p: &Path, r: &mut Rng) {
    for q in fsgen::all_paths(p).into_iter().rev() {
        if r.chance(1, 6) { fsgen::set_mtime(&q, *r.pick(&[-1i64, -86_400_000, 0, 5, 4_000_000_000]), *r.pick(&[0i64, 1, 500_000_000, 999_999_999])); }
    }
}
fn odd_modes(p: &Path, r: &mut Rng) {
    for q in fsgen::all_paths(p) {
        let m = fs::symlink_metadata(&q).unwrap();
        if m.is_file() && r.chance(1, 4) { let _ = fs::set_permissions(&q, fs::Permissions::from_mode(*r.pick(&[0o640, 0o711, 0o4755, 0o2644, 0o1600]))); }
        if m.is_dir() && r.chance(1, 4) { let _ = fs::set_permissions(&q, fs::Permissions::from_mode(*r.pick(&[0o700, 0o750, 0o1777]))); }
    }
}
fn like(from: &Path, to: &Path) {
    let m = fs::symlink_metadata(from).unwrap();
    let t = m.file_type();
    if t.is_symlink() { symlink(fs::read_link(from).unwrap(), to).unwrap(); }
    else if t.is_dir() { fs::create_dir(to).unwrap(); for e in fs::read_dir(from).unwrap().flatten() { like(&e.path(), &to.join(e.file_name())); } }
    else if t.is_file() { fs::write(to, fs::read(from).unwrap()).unwrap(); }
    else { fifo(to); }
    if !t.is_symlink() { let _ = fs::set_permissions(to, fs::Permissions::from_mode(m.mode() & 0o7777)); }
    fsgen::set_mtime(to, m.mtime(), m.mtime_nsec());
}
/// something else at q
fn other(q: &Path, r: &mut Rng, out: &Path, clock: &mut i64) {
    match r.below(7) {
        0 => symlink(out, q).unwrap(),
        1 => symlink(out.join("sub"), q).unwrap(),
        2 => symlink(out.join("keep"), q).unwrap(),
        3 => symlink(out.join("nothing"), q).unwrap(),
        4 => fsgen::gen_dir(q, r, 1, clock, false),
        5 if r.chance(1, 4) => fifo(q),
        _ => fs::write(q, fsgen::rand_content(r, false)).unwrap(),
    }
}
fn disturb(p: &Path, r: &mut Rng, out: &Path, clock: &mut i64, log: &mut Vec<String>) {
    let isdir = fs::symlink_metadata(p).map(|m| m.is_dir()).unwrap_or(false);
    for _ in 0..r.below(5) {
        let ps: Vec<PathBuf> = if isdir { fsgen::all_paths(p) } else { vec![] };
        if ps.is_empty() { if isdir { let q = p.join(*r.pick(&["a", "new", "sub"])); if fs::symlink_metadata(&q).is_err() { other(&q, r, out, clock); log.push(format!("new {}", q.display())); } } continue }
        let q = r.pick(&ps).clone();
        let m = fs::symlink_metadata(&q).unwrap();
        let how = r.below(9);
        match how {
            0 => fsgen::rm(&q),
            1 | 2 => { fsgen::rm(&q); other(&q, r, out, clock); }
            3 if m.is_file() => { // the same size and time, or nearly
                let n = m.len() as usize;
                let b = r.bytes(n);
                fs::write(&q, b).unwrap();
                let d = *r.pick(&[0i64, 0, 1]);
                fsgen::set_mtime(&q, m.mtime(), (m.mtime_nsec() + d) % 1_000_000_000);
            }
            4 if m.is_file() => { let mut b = fs::read(&q).unwrap(); if r.chance(1, 2) { b.push(7) } else { b.truncate(b.len() / 2) } fs::write(&q, b).unwrap(); if r.chance(1, 2) { fsgen::set_mtime(&q, m.mtime(), m.mtime_nsec()); } }
            5 if !m.file_type().is_symlink() => { let _ = fs::set_permissions(&q, fs::Permissions::from_mode(if m.is_dir() { 0o755 } else { *r.pick(&[0o600, 0o666, 0o777]) })); }
            6 => { *clock += 1; fsgen::set_mtime(&q, *clock, 3); }
            7 if m.file_type().is_symlink() => { let _ = fs::remove_file(&q); symlink("elsewhere", &q).unwrap(); }
            _ => { let d = if m.is_dir() { q.clone() } else { q.parent().unwrap().to_path_buf() }; let n = d.join(*r.pick(&["extra", "zz", "b", "c"])); if fs::symlink_metadata(&n).is_err() { other(&n, r, out, clock); } }
        }
        log.push(format!("{}: {how}", q.display()));
    }
}
fn one(c: &mut Ctx, r: &mut Rng, w: &Path) {
    fsgen::rm(w);
    fs::create_dir_all(w).unwrap();
    let mut clock = 1_500_000_000;
    // outside: nothing may happen to it
    let out = w.join("outside");
    fs::create_dir_all(out.join("sub")).unwrap();
    for f in ["keep", "a", "b", "sub/a", "sub/x.txt"] { fs::write(out.join(f), format!("outside {f}")).unwrap(); fsgen::set_mtime(&out.join(f), 77, 7); }
    fsgen::set_mtime(&out, 66, 6);
    let cli = Cli::new(&c.bin, &w.join("cwd"));
    let repo = w.join("repo");
    if !init_repo(&cli, &repo, "200 kB", None).ok() { return }
    // what is backed up
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let src = w.join("src");
    let roots: Vec<PathBuf> = (0..n).map(|i| src.join(["p", "q/r", "s t"][i])).collect();
    for p in &roots {
        if r.chance(1, 9) { fs::create_dir_all(p.parent().unwrap()).unwrap(); fs::write(p, fsgen::rand_content(r, false)).unwrap(); continue }
        fsgen::gen_dir(p, r, 3, &mut clock, false);
        if r.chance(1, 3) { let q = p.join("link out"); symlink(out.join("sub"), &q).unwrap(); }
        if r.chance(1, 6) { fifo(&p.join("fifo")); }
        odd_modes(p, r);
        odd_times(p, r);
        if r.chance(1, 3) { fsgen::set_mtime(p, 1_234_567_890, 123); }
    }
    let mut a: Vec<String> = vec!["backup".into(), "--allow-empty".into()];
    a.extend(roots.iter().map(|p| p.to_string_lossy().to_string()));
    let o = cli.run(&repo, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    if !o.ok() { c.count("backup failed", 1); return }
    let want: Vec<Option<N>> = roots.iter().map(|p| look(p).and_then(|x| told(&x))).collect();
    let before_repo = fsgen::bytes_of(&repo);
    for round in 0..3 {
        let mut log = vec![];
        let mut args: Vec<String> = vec!["restore".into()];
        let inplace = r.chance(1, 3);
        let dst = w.join(format!("dst{round}"));
        // where each of them goes
        let goes: Vec<PathBuf> = if inplace { roots.clone() } else if n == 1 { vec![dst.clone()] } else { roots.iter().map(|p| dst.join(p.file_name().unwrap())).collect() };
        let mut real = goes.clone();
        if !inplace {
            let isdir = matches!(want[0].as_ref().map(|x| &x.k), Some(K::D));
            if n > 1 {
                fs::create_dir_all(&dst).unwrap();
                fs::write(dst.join("beside"), "not of the snapshot").unwrap();
                for (p, g) in roots.iter().zip(&goes) { match r.below(6) { 0 => {} 1 => other(g, r, &out, &mut clock), _ => if fs::symlink_metadata(p).is_ok() { like(p, g) } } }
            } else if r.chance(1, 5) { fs::create_dir_all(&dst).unwrap(); log.push("empty".into()); }
            else if r.chance(1, 8) { fs::write(&dst, "a file").unwrap(); log.push("a file".into()); }
            else if fs::symlink_metadata(&roots[0]).is_ok() { like(&roots[0], &dst) }
            else { fs::create_dir_all(&dst).unwrap(); }
            let mut arg = dst.clone();
            if n == 1 && r.chance(1, 5) { let l = w.join(format!("link{round}")); symlink(&dst, &l).unwrap(); fsgen::set_mtime(&l, 55, 5); arg = l; log.push("-o is a symlink".into()); }
            let arg = arg.to_string_lossy().to_string();
            let arg = match r.below(4) { 0 if isdir && n == 1 && fs::metadata(&dst).unwrap().is_dir() => format!("{arg}/"), 1 => format!("../{}", arg.rsplit('/').next().unwrap()), _ => arg };
            args.push("-o".into());
            args.push(arg);
        } else if r.chance(1, 8) { fsgen::rm(&roots[0]); log.push("the first is gone".into()); }
        for g in real.iter_mut() { disturb(g, r, &out, &mut clock, &mut log); }
        let o = O { delete: r.chance(1, 2), times: r.chance(1, 2), perms: r.chance(1, 2), dry: r.chance(1, 6) };
        for (f, on) in [("--delete", o.delete), ("-t", o.times), ("-p", o.perms), ("-n", o.dry)] { if on { args.push(f.into()) } }
        args.push("LAST".into());
        let was: Vec<Option<N>> = goes.iter().map(|p| look(p)).collect();
        let all = look(w).unwrap();
        let res = cli.run(&repo, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        let rp = json!({"args": args, "roots": n, "state": log, "stderr": last_line(&res.err), "stdout": res.out.chars().take(400).collect::<String>(), "seed": c.seed, "case": c.evals});
        // nothing else changed (but for the times of the directory a destination is in, and the working directory, where nothing is left)
        let mut now = look(w).unwrap();
        let mut then = all.clone();
        for (i, g) in goes.iter().enumerate() {
            let rel: Vec<String> = g.strip_prefix(w).unwrap().iter().map(|x| x.to_string_lossy().to_string()).collect();
            for t in [&mut now, &mut then] {
                let mut d = &mut *t;
                for s in &rel[..rel.len() - 1] { if !d.kids.contains_key(s) { break } d = d.kids.get_mut(s).unwrap(); }
                if !o.dry { d.mtime = (0, 0); d.kids.remove(rel.last().unwrap()); }
            }
            let _ = i;
        }
        if let Err(e) = diff("", &then, &now) { c.violate(&["C15", "C16"], format!("{}: outside of what is restored, {e}", args.join(" ")), rp.clone()); return }
        if fsgen::bytes_of(&repo) != before_repo { c.violate(&["C15", "C16"], "restore changed the repository".into(), rp.clone()); return }
        if o.dry {
            for ((p, a), b) in goes.iter().zip(&was).zip(&want) { let _ = b; if look(p) != *a { c.violate(&["C16", "C15"], format!("{} changed {}", args.join(" "), p.display()), rp.clone()); return } }
            c.count("dry runs", 1);
            if !res.ok() && !(inplace && was.iter().any(|a| a.is_none())) { c.violate(&["C16", "C15"], format!("{} fails: {}", args.join(" "), last_line(&res.err)), rp.clone()); return }
        } else if !res.ok() {
            // (a path that is no more isn't restored in place: "Couldn't stat" it)
            let stuck = inplace && was.iter().any(|a| a.is_none()) || was.iter().zip(&want).any(|(a, b)| in_the_way(a.as_ref(), b.as_ref()));
            if stuck { c.count("refused", 1); }
            else { c.violate(&["C15"], format!("{} fails: {}", args.join(" "), last_line(&res.err)), rp.clone()); return }
        } else {
            for ((p, a), b) in goes.iter().zip(&was).zip(&want) {
                let n = look(p);
                if let Err(e) = judge(&p.file_name().unwrap().to_string_lossy(), a.as_ref(), b.as_ref(), n.as_ref(), o) { c.violate(&["C15"], format!("after {}: {e}", args.join(" ")), rp.clone()); return }
            }
            c.count("restores", 1);
        }
        if c.samples.len() < 3 && log.len() > 2 { c.sample(rp); }
        c.case(&(round, n, format!("{log:?}")), !log.is_empty());
    }
}
fn diff(at: &str, a: &N, b: &N) -> Result<(), String> {
    if a.k != b.k || a.mode != b.mode || a.mtime != b.mtime { return Err(format!("{at} is {} {:o} {:?} instead of {} {:o} {:?}", short(Some(b)), b.mode, b.mtime, short(Some(a)), a.mode, a.mtime)) }
    for k in a.kids.keys().chain(b.kids.keys()) {
        match (a.kids.get(k), b.kids.get(k)) { (Some(x), Some(y)) => diff(&format!("{at}/{k}"), x, y)?, (x, y) => return Err(format!("{at}/{k} is {}, was {}", short(y), short(x))) }
    }
    Ok(())
}
fn run(c: &mut Ctx) {
    c.rule = "1-3 backed up paths (files, directories with symlinks, FIFOs, odd modes and times) restored in place or to -o (a directory, a file, a symlink), with destinations that are empty, equal, or disturbed (removed, replaced by symlinks to elsewhere, directories, FIFOs, changed with the same size or time), with every combination of --delete -t -p -n; nontrivial if the destination was disturbed".into();
    let mut r = Rng::new(c.seed);
    let w = PathBuf::from(&c.work).join("rs");
    while c.time_left() && (c.evals < 3000 || c.thorough) { one(c, &mut r, &w); }
    fsgen::rm(&w);
}
fn main() {
    bpharness::main_of(run);
}
