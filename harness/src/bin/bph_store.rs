//! C26 (objects appear atomically) and C28 (filter commands) on real directories.
use backpak::{backend::{self, fs::FilesystemBackend, Backend, CacheBehavior}, file_util};
use bpharness::{cli::Cli, decode, enc, util::*};
use byte_unit::Byte;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::fs::MetadataExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

fn utf(p: &Path) -> &camino::Utf8Path {
    camino::Utf8Path::from_path(p).unwrap()
}
fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for d in ["packs", "indexes", "snapshots"] {
        for e in std::fs::read_dir(dir.join(d)).unwrap().flatten() {
            m.insert(format!("{d}/{}", e.file_name().to_string_lossy()), std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}
/// a reader that looks at the repository between every two reads
struct Watch<'a> { data: &'a [u8], at: usize, fail: Option<usize>, r: Rng, look: Box<dyn FnMut() -> Option<String> + Send + 'a>, seen: Option<String> }
impl Read for Watch<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if let Some(s) = (self.look)() { self.seen.get_or_insert(s); }
        if self.fail.is_some_and(|f| self.at >= f) { return Err(std::io::Error::other("the source breaks")) }
        if self.r.chance(1, 10) { return Err(std::io::ErrorKind::Interrupted.into()) }
        let n = (self.data.len() - self.at).min(b.len()).min(1 + self.r.below(5000) as usize);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn c26(c: &mut Ctx, r: &mut Rng, dir: &Path, shm: Option<&Path>) {
    enc::repo(dir, None, false);
    let fb = FilesystemBackend::open(utf(dir)).unwrap();
    let n = *r.pick(&[0u64, 1, 100, 9000, 40000, 70000]);
    let n = if r.chance(1, 2) { n } else { r.below(n + 1) } as usize;
    let data = r.bytes(n);
    let (sub, kind) = *r.pick(&[("packs", "pack"), ("indexes", "index"), ("snapshots", "snapshot")]);
    let id = decode::hash(&data);
    let key = format!("{sub}/{id}.{kind}");
    let old = if r.chance(1, 4) { Some(r.bytes(50)) } else { None };
    if let Some(o) = &old { std::fs::write(dir.join(&key), o).unwrap(); }
    let before: BTreeMap<String, u64> = fb.list(&format!("{sub}/")).unwrap().into_iter().collect();
    let fail = if r.chance(1, 2) { Some(r.below(n as u64 + 1) as usize) } else { None };
    let dest = dir.join(&key);
    let look = {
        let (dest, old, before) = (dest.clone(), old.clone(), before.clone());
        let fb = FilesystemBackend::open(utf(dir)).unwrap();
        let sub = sub.to_string();
        move || {
            if std::fs::read(&dest).ok() != old { return Some("an incomplete object is visible under its final name".to_string()) }
            let l: BTreeMap<String, u64> = fb.list(&format!("{sub}/")).unwrap().into_iter().collect();
            if l != before { return Some(format!("an incomplete object is listed: {l:?}")) }
            None
        }
    };
    let direct = r.chance(1, 2);
    let (res, seen) = {
        let mut w = Watch { data: &data, at: 0, fail, r: Rng::new(r.next()), look: Box::new(look), seen: None };
        let res = catch_unwind(AssertUnwindSafe(|| if direct {
            file_util::safe_copy_to_file(&mut w, utf(&dest)).map(|mut f| { let mut g = vec![]; f.seek(SeekFrom::Start(0)).unwrap(); let _ = f.read_to_end(&mut g); Some(g) }).map_err(|e| format!("{e:#}"))
        } else { fb.write(n as u64, &mut w, &key).map(|_| None).map_err(|e| format!("{e:#}")) }));
        (res, w.seen)
    };
    let rp = json!({"object": key, "bytes": n, "source fails after": fail, "object was there before": old.is_some(), "seed": c.seed, "case": c.evals});
    let now = std::fs::read(&dest).ok();
    let bad = match &res {
        Err(_) => Some("storing crashes".to_string()),
        _ if seen.is_some() => seen,
        Ok(Ok(_)) if fail.is_some() => Some("a write whose source failed is reported as done".into()),
        Ok(Ok(Some(g))) if *g != data => Some("the returned file has other contents".into()),
        Ok(Ok(_)) => if now.as_ref() != Some(&data) { Some("a stored object does not have the bytes it was given".into()) } else { None },
        Ok(Err(e)) if fail.is_none() => Some(format!("storing fails: {e}")),
        Ok(Err(_)) => if now != old { Some("a failed write leaves an object under the final name".into()) } else { None },
    };
    if let Some(b) = bad { c.violate(&["C26"], b, rp.clone()); }
    // moving a finished file into place, on the same and from another file system
    let name = format!("m{}", r.below(1000));
    for to in [Some(dir), shm].into_iter().flatten() {
        std::fs::write(&name, &data).unwrap();
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&name).unwrap();
        let mut f = f;
        if r.chance(1, 2) { f.seek(SeekFrom::End(0)).unwrap(); }
        let d2 = to.join(if to == dir { format!("packs/{name}.pack") } else { format!("{name}.pack") });
        let x = catch_unwind(AssertUnwindSafe(|| file_util::move_opened(&name, f, utf(&d2)).map(|_| ()).map_err(|e| format!("{e:#}"))));
        let got = std::fs::read(&d2).ok();
        let bad = match x {
            Err(_) => Some("moving crashes".to_string()),
            Ok(Err(e)) => Some(format!("moving fails: {e}")),
            Ok(Ok(())) if got.as_ref() != Some(&data) => Some("a moved file lost its contents".into()),
            Ok(Ok(())) if Path::new(&name).exists() => Some("a moved file is still where it was".into()),
            _ => None,
        };
        if let Some(b) = bad { c.violate(&["C26"], b, json!({"bytes": n, "another file system": to != dir, "seed": c.seed, "case": c.evals})); }
        let _ = std::fs::remove_file(&name);
        let _ = std::fs::remove_file(&d2);
        c.count(if to == dir { "moved" } else { "moved across file systems" }, 1);
    }
    // a move that cannot happen leaves nothing under the final name and keeps the source
    std::fs::write(&name, &data).unwrap();
    let d2 = dir.join("nowhere").join("x.pack");
    if file_util::move_opened(&name, File::open(&name).unwrap(), utf(&d2)).is_ok() || !Path::new(&name).exists() { c.violate(&["C26"], "a failed move is reported as done, or loses the file".into(), rp); }
    let _ = std::fs::remove_file(&name);
    // left-over partial files are not listed
    std::fs::write(dir.join(format!("{sub}/{id}.{kind}.aB3x.part")), b"half").unwrap();
    if fb.list(&format!("{sub}/")).unwrap().iter().any(|x| x.0.ends_with(".part")) { c.violate(&["C26"], "a listing names a partial file".into(), json!({"file": format!("{id}.{kind}.aB3x.part")})); }
    c.case(&(key, fail, n), fail.is_some() || n > 9000);
}
/// real commands with a failing system call: whatever is visible afterwards must be complete
fn c26_faults(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let repo = w.join("fr");
    let cwd = w.join("fc");
    let _ = std::fs::remove_dir_all(&cwd);
    let filtered = r.chance(2, 3);
    enc::repo(&repo, if filtered { Some(("cat", "cat")) } else { None }, true);
    let src = w.join("fs");
    let _ = std::fs::remove_dir_all(&src);
    std::fs::create_dir_all(&src).unwrap();
    for k in 0..r.range(1, 4) { let n = r.below(30000) as usize; std::fs::write(src.join(format!("f{k}")), r.bytes(n)).unwrap(); }
    let cli = Cli::new(&c.bin, &cwd);
    let (call, err) = *r.pick(&[("fsync", "EIO"), ("fsync", "ENOSPC"), ("write", "ENOSPC"), ("copy_file_range", "EIO"), ("rename", "EIO"), ("splice", "ENOSPC"), ("sendfile", "EIO"), ("renameat", "EIO"), ("linkat", "EIO")]);
    let k = r.range(1, 12);
    let spec = format!("{call}:error={err}:when={k}");
    let o = cli.run_injected(&repo, &["backup", &src.to_string_lossy()], &spec);
    for (n, b) in files(&repo) {
        let id = n.split('/').nth(1).unwrap().split('.').next().unwrap().to_string();
        if n.ends_with(".part") { continue }
        let bad = match n.split('/').next().unwrap() {
            "packs" => decode::pack(&b, &id).err(),
            "indexes" => match decode::index(&b) { Ok((_, h)) if h == id => None, _ => Some("is not an index of that id".into()) },
            _ => None,
        };
        if let Some(e) = bad { c.violate(&["C26"], format!("after {call} failed with {err}, {n} is visible but incomplete: {e}"), json!({"injected": spec})); }
    }
    if o.code == -2 { c.violate(&["C33", "C28"], format!("backup never ends after {call} fails with {err}"), json!({"injected": spec, "filtered": filtered})); }
    c.count(if o.ok() { "faults not met" } else { "faults met" }, 1);
    c.case(&(spec, filtered), !o.ok());
}
/// sync failures: the object must not be visible if storing it failed
fn c26_sync(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let me = std::env::current_exe().unwrap();
    let dir = w.join("sy");
    enc::repo(&dir, None, false);
    let n = r.range(1, 60000).to_string();
    let call = *r.pick(&["fsync,fdatasync", "rename,renameat,renameat2", "fsync,fdatasync"]);
    let mut k = Command::new("strace");
    k.args(["-f", "-qq", "-o", "/dev/null", "-e", &format!("trace={call}"), "-e", &format!("inject={call}:error=EIO")]).arg(&me).args(["--store-one", &n]).arg(dir.join("packs/x.pack")).current_dir(w);
    let o = bpharness::cli::run_cmd(k, std::time::Duration::from_secs(20));
    let there = dir.join("packs/x.pack").exists();
    if o.code == 7 && there { c.violate(&["C26"], format!("storing an object fails ({call} gives EIO), and it is visible under its final name"), json!({"bytes": n, "injected": format!("{call}:error=EIO")})); }
    if o.code == 0 && !there { c.violate(&["C26"], "storing is reported as done, but nothing is there".into(), json!({"bytes": n})); }
    c.count(if o.code == 7 { "stores made to fail" } else { "stores not failing" }, 1);
    c.case(&(call, n), o.code == 7);
}
/// a poller never sees anything incomplete while a thread stores objects
fn c26_poll(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    enc::repo(dir, None, false);
    let fb = FilesystemBackend::open(utf(dir)).unwrap();
    let objs: Vec<Vec<u8>> = (0..12).map(|_| { let n = r.range(1, 200000) as usize; r.bytes(n) }).collect();
    let done = AtomicBool::new(false);
    let mut polls = 0;
    let mut bad = None;
    std::thread::scope(|s| {
        s.spawn(|| {
            for o in &objs { fb.write(o.len() as u64, &mut &o[..], &format!("packs/{}.pack", decode::hash(o))).unwrap(); }
            done.store(true, SeqCst);
        });
        loop {
            let end = done.load(SeqCst);
            for (n, len) in fb.list("packs/").unwrap_or_default() {
                let b = std::fs::read(dir.join(&n)).unwrap_or_default();
                let id = n.split('/').nth(1).unwrap().split('.').next().unwrap();
                if decode::hash(&b) != id || len != b.len() as u64 { bad.get_or_insert(format!("{n} is listed with {len} bytes and read as {} while it is being stored", b.len())); }
            }
            polls += 1;
            if end { break }
        }
    });
    if let Some(b) = bad { let s = c.seed; c.violate(&["C26"], b, json!({"objects": objs.iter().map(|o| o.len()).collect::<Vec<_>>(), "seed": s})); }
    c.count("polls", polls);
    c.case(&objs.len(), true);
}

fn sh(cmd: &str, input: &[u8]) -> (bool, Vec<u8>) {
    let mut p = Command::new("sh").arg("-c").arg(cmd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut i = p.stdin.take().unwrap();
    let b = input.to_vec();
    let t = std::thread::spawn(move || { let _ = i.write_all(&b); });
    let mut o = vec![];
    p.stdout.take().unwrap().read_to_end(&mut o).unwrap();
    let ok = p.wait().unwrap().success();
    let _ = t.join();
    (ok, o)
}
const PAIRS: &[(&str, &str)] = &[("cat", "cat"), ("gzip -1", "gzip -d"), ("tr '\\000-\\377' '\\001-\\377\\000'", "tr '\\001-\\377\\000' '\\000-\\377'"), ("base64", "base64 -d"), ("printf hdr; cat", "tail -c +4"), ("cat; sleep 0.02", "cat; sleep 0.02")];
const BAD: &[&str] = &["cat; exit 3", "false", "cat > /dev/null; exit 1", "head -c 10; exit 1", "cat; kill -9 $$", "kill -9 $$", "no-such-command-at-all", "cat | (cat; exit 4)", "head -c 100; kill -TERM $$", "exit 255"];
fn c28(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let (mut f, mut u) = { let p = r.pick(PAIRS); (p.0.to_string(), p.1.to_string()) };
    let how = r.below(5);
    if how == 0 { f = r.pick(BAD).to_string(); }
    if how == 1 { u = r.pick(BAD).to_string(); }
    if how == 2 && r.chance(1, 3) { u = r.pick(&["head -c 5", "true", "head -c 70000"]).to_string(); }
    enc::repo(dir, Some((&f, &u)), r.chance(1, 2));
    let _ = std::fs::remove_dir_all(PathBuf::from(std::env::var("HOME").unwrap()).join(".cache/backpak"));
    let open = || backend::open(utf(dir), Byte::GIBIBYTE, CacheBehavior::AlwaysRead).map(|x| x.1).map_err(|e| format!("{e:#}"));
    let be = match open() { Ok(b) => b, Err(e) => { c.violate(&["C28"], format!("a repository with both commands does not open: {e}"), json!({"filter": f, "unfilter": u})); return } };
    let n = *r.pick(&[0u64, 1, 500, 65536, 65537, 200_000]);
    let n = if r.chance(1, 2) { n } else { r.below(n + 1) } as usize;
    let data = r.bytes(n);
    let id = decode::hash(&data);
    let (sub, kind) = *r.pick(&[("packs", "pack"), ("indexes", "index"), ("snapshots", "snapshot")]);
    let name = format!("{id}.{kind}");
    let (fok, fout) = sh(&f, &data);
    let rp = json!({"filter": f, "unfilter": u, "bytes": n, "seed": c.seed, "case": c.evals});
    std::fs::write(&name, &data).unwrap();
    let x = catch_unwind(AssertUnwindSafe(|| be.write(&name, File::open(&name).unwrap()).map_err(|e| format!("{e:#}"))));
    let _ = std::fs::remove_file(&name);
    let have = files(dir);
    let key = format!("{sub}/{name}");
    let bad = match &x {
        Err(_) => Some("writing through the filter crashes".to_string()),
        Ok(Ok(())) if !fok => Some("the filter failed, the write is reported as done".into()),
        Ok(Ok(())) if have.get(&key) != Some(&fout) => Some(format!("{:?} bytes are stored, the filter's output has {}", have.get(&key).map(|v| v.len()), fout.len())),
        Ok(Err(e)) if fok => Some(format!("writing through the filter fails: {e}")),
        Ok(Err(_)) if have.contains_key(&key) => Some("the filter failed, and the object is stored under its final name".into()),
        _ => None,
    };
    if let Some(b) = bad { c.violate(&["C28"], b, rp.clone()); return }
    // reading what is stored (or something put there by hand)
    if !fok { std::fs::write(dir.join(&key), sh("cat", &data).1).unwrap(); }
    let raw = std::fs::read(dir.join(&key)).unwrap();
    let (uok, uout) = sh(&u, &raw);
    let o = backpak::hashing::ObjectId::from_str(&id).unwrap();
    let x = catch_unwind(AssertUnwindSafe(|| {
        let f = match kind { "pack" => be.read_pack(&o), "index" => be.read_index(&o), _ => be.read_snapshot(&o) };
        let mut g = vec![];
        f.and_then(|mut f| Ok(f.read_to_end(&mut g)?)).map(|_| g).map_err(|e| format!("{e:#}"))
    }));
    let early = u.starts_with("head") || u == "true"; // may leave input unread: an error is fine too
    let bad = match &x {
        Err(_) => Some("reading through the unfilter crashes".to_string()),
        Ok(Ok(_)) if !uok => Some("the unfilter failed, the read succeeds".into()),
        Ok(Ok(g)) if *g != uout => Some(format!("{} bytes are read, the unfilter's output has {}", g.len(), uout.len())),
        Ok(Ok(g)) if fok && !early && *g != data => Some("reading does not give what was written".into()),
        Ok(Err(e)) if uok && !early => Some(format!("reading through the unfilter fails: {e}")),
        _ => None,
    };
    if let Some(b) = bad { c.violate(&["C28"], b, rp.clone()); }
    // after a failed read nothing may be left in the cache for the next one
    if !uok {
        let b2 = backend::open(utf(dir), Byte::GIBIBYTE, CacheBehavior::Normal).unwrap().1;
        let f = match kind { "pack" => b2.read_pack(&o), "index" => b2.read_index(&o), _ => b2.read_snapshot(&o) };
        let wrote = fok; // a successful write puts the object itself in the cache
        if f.is_ok() && !wrote { c.violate(&["C28"], "after a failed read the object is found in the cache".into(), rp.clone()); }
    }
    if c.evals < 3 { c.sample(rp); }
    c.case(&(f.clone(), u.clone(), n), !fok || !uok || n > 1000);
    // one command only
    let (k, v) = if r.chance(1, 2) { ("filter", f) } else { ("unfilter", u) };
    std::fs::write(dir.join("config.toml"), format!("pack_size = \"9 kB\"\n{k} = {v:?}\n[backend]\ntype = \"Filesystem\"\nforce_cache = {}\n", r.chance(1, 2))).unwrap();
    if catch_unwind(AssertUnwindSafe(|| open().is_ok())).unwrap_or(true) { c.violate(&["C28"], format!("a configuration with only `{k}` is accepted"), json!({"set": k})); }
}
fn c28_cfg(c: &mut Ctx, r: &mut Rng, w: &Path) {
    let p = w.join("ir");
    let _ = std::fs::remove_dir_all(&p);
    let fl = if r.chance(1, 4) { None } else { Some((format!("f {}", r.below(99)), format!("u '{}\\\"", r.below(99)))) };
    let size = 1 + r.below(1 << 40);
    backend::fs::initialize(utf(&p), Byte::from_u64(size), fl.clone(), r.chance(1, 2)).unwrap();
    match backend::read_config(utf(&p.join("config.toml"))) {
        Ok(k) => if k.filter != fl { c.violate(&["C28"], format!("a repository initialized with {fl:?} is configured with {:?}", k.filter), json!({})); },
        Err(e) => c.violate(&["C28"], format!("the configuration written for {fl:?} cannot be read: {e:#}"), json!({})),
    }
    c.case(&fl, fl.is_some());
}
fn run(c: &mut Ctx) {
    c.rule = "C26: objects of 0-70000 bytes stored from sources that fail, move within and across file systems, polling while storing, failing system calls; C28: working, failing, dying and early-exiting filter commands on objects of 0-200000 bytes; nontrivial if something fails or is large".into();
    let mut r = Rng::new(c.seed);
    let w = PathBuf::from(&c.work);
    let shm = PathBuf::from(format!("/dev/shm/bpstore-{}", std::process::id()));
    let shm = if std::fs::create_dir(&shm).is_ok() && std::fs::metadata(&shm).map(|m| m.dev()).ok() != std::fs::metadata(&w).map(|m| m.dev()).ok() { Some(shm) } else { let _ = std::fs::remove_dir(&shm); None };
    while c.time_left() && (c.evals < 4000 || c.thorough) {
        match c.prop.as_str() {
            "C28" => if r.chance(1, 25) { c28_cfg(c, &mut r, &w) } else { c28(c, &mut r, &w.join("r")) },
            _ => match r.below(40) {
                0..=2 => c26_poll(c, &mut r, &w.join("r")),
                3..=5 => c26_faults(c, &mut r, &w),
                6..=8 => c26_sync(c, &mut r, &w),
                _ => c26(c, &mut r, &w.join("r"), shm.as_deref()),
            },
        }
    }
    if let Some(s) = shm { let _ = std::fs::remove_dir_all(s); }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--store-one").unwrap_or(false) {
        let n: usize = a[2].parse().unwrap();
        let data = vec![5u8; n];
        std::process::exit(if file_util::safe_copy_to_file(&data[..], camino::Utf8Path::new(&a[3])).is_ok() { 0 } else { 7 });
    }
    bpharness::main_of(run);
}
