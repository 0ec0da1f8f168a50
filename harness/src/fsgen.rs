//! Scratch file trees: generation, mutation, and what is on disk.
use crate::util::Rng;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::Path;
use std::time::{Duration, UNIX_EPOCH};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ent {
    F(Vec<u8>),
    D,
    L(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FsNode {
    pub ent: Ent,
    pub mode: u32,
    pub mtime: (i64, i64),
}
pub type FsTree = BTreeMap<String, FsNode>;

pub fn content(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed.wrapping_add(77));
    if seed % 3 == 0 {
        // compressible
        let w = r.bytes(16);
        w.iter().cycle().take(len).cloned().collect()
    } else {
        r.bytes(len)
    }
}
const SIZES: &[usize] = &[0, 1, 17, 900, 5000, 5000, 30000];
pub fn rand_content(r: &mut Rng, big: bool) -> Vec<u8> {
    let seed = r.below(6);
    let len = if big && r.chance(1, 6) { *r.pick(&[600_000usize, 1_300_000, 2_500_000, 4_500_000]) } else { *r.pick(SIZES) };
    content(seed, len)
}
const NAMES: &[&str] = &["a", "b", "c", "sub", "dir", "x.txt", "y.log", "é", "z z"];
pub fn set_mtime(p: &Path, secs: i64, nanos: i64) {
    use rustix::fs::{utimensat, AtFlags, Timespec, Timestamps, CWD};
    let t = Timespec { tv_sec: secs, tv_nsec: nanos as _ };
    let _ = utimensat(CWD, p, &Timestamps { last_access: t, last_modification: t }, AtFlags::SYMLINK_NOFOLLOW);
}
pub fn write_file(p: &Path, c: &[u8], r: &mut Rng, clock: &mut i64) {
    let _ = fs::remove_file(p);
    fs::write(p, c).unwrap();
    let mode = *r.pick(&[0o644u32, 0o600, 0o755]);
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
    *clock += 1;
    set_mtime(p, *clock, (r.below(1000) * 1_000_000) as i64);
}
pub fn gen_dir(p: &Path, r: &mut Rng, depth: u32, clock: &mut i64, big: bool) {
    fs::create_dir_all(p).unwrap();
    let n = r.below(5);
    for _ in 0..n {
        let name = *r.pick(NAMES);
        let q = p.join(name);
        if fs::symlink_metadata(&q).is_ok() {
            continue;
        }
        gen_entry(&q, r, depth, clock, big);
    }
    *clock += 1;
    set_mtime(p, *clock, 5);
}
pub fn gen_entry(q: &Path, r: &mut Rng, depth: u32, clock: &mut i64, big: bool) {
    match r.below(10) {
        0..=5 => {
            let c = rand_content(r, big);
            write_file(q, &c, r, clock)
        }
        6 => symlink(*r.pick(&["a", "nowhere", "../b", "/etc/none"]), q).unwrap(),
        _ if depth > 0 => gen_dir(q, r, depth - 1, clock, big),
        _ => fs::create_dir_all(q).unwrap(),
    }
}
pub fn all_paths(p: &Path) -> Vec<std::path::PathBuf> {
    let mut v = vec![];
    if let Ok(rd) = fs::read_dir(p) {
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for e in es {
            let m = fs::symlink_metadata(&e).unwrap();
            v.push(e.clone());
            if m.is_dir() {
                v.extend(all_paths(&e));
            }
        }
    }
    v
}
pub fn rm(p: &Path) {
    match fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => fs::remove_dir_all(p).unwrap(),
        Ok(_) => fs::remove_file(p).unwrap(),
        _ => {}
    }
}
/// change the tree under p a little
pub fn mutate(p: &Path, r: &mut Rng, clock: &mut i64, big: bool) {
    for _ in 0..r.range(1, 3) {
        let ps = all_paths(p);
        if ps.is_empty() || r.chance(1, 3) {
            let dirs: Vec<_> = std::iter::once(p.to_path_buf()).chain(ps.into_iter().filter(|q| fs::symlink_metadata(q).map(|m| m.is_dir()).unwrap_or(false))).collect();
            let d = r.pick(&dirs).clone();
            let q = d.join(*r.pick(NAMES));
            if fs::symlink_metadata(&q).is_err() {
                gen_entry(&q, r, 1, clock, big);
            }
            continue;
        }
        let mut q = r.pick(&ps).clone();
        if let Some(l) = ps.iter().find(|p| p.ends_with("large")).filter(|_| r.chance(1, 3)) { q = l.clone(); }
        let m = fs::symlink_metadata(&q).unwrap();
        match r.below(5) {
            0 => rm(&q),
            1 => {
                // replace by another kind
                rm(&q);
                gen_entry(&q, r, 1, clock, big);
            }
            2 if m.is_file() => {
                *clock += 1;
                set_mtime(&q, *clock, 9);
            }
            3 if !m.file_type().is_symlink() => {
                let _ = fs::set_permissions(&q, fs::Permissions::from_mode(if m.is_dir() { 0o755 } else { *r.pick(&[0o644, 0o640, 0o755]) }));
            }
            _ if m.is_file() && m.len() > 500_000 && r.chance(3, 4) => {
                // a part of a large file: its other chunks stay what they are
                let mut b = fs::read(&q).unwrap();
                match r.below(3) {
                    0 => { let at = r.below(b.len() as u64 / 2) as usize; b[at] ^= 1; }
                    1 => { let at = r.below(b.len() as u64) as usize; b.splice(at..at, content(77 + r.below(3), 9)); }
                    _ => { let n = b.len() / 2 + r.below(b.len() as u64 / 2) as usize; b.truncate(n); }
                }
                write_file(&q, &b, r, clock);
            }
            _ if m.is_file() => {
                let c = rand_content(r, big);
                write_file(&q, &c, r, clock);
            }
            _ => {}
        }
    }
}
pub fn scan(p: &Path) -> FsTree {
    let mut t = FsTree::new();
    for q in all_paths(p) {
        let m = fs::symlink_metadata(&q).unwrap();
        let ent = if m.file_type().is_symlink() {
            Ent::L(fs::read_link(&q).unwrap().to_string_lossy().to_string())
        } else if m.is_dir() {
            Ent::D
        } else {
            Ent::F(fs::read(&q).unwrap_or_default())
        };
        t.insert(q.strip_prefix(p).unwrap().to_string_lossy().to_string(), FsNode { ent, mode: m.mode(), mtime: (m.mtime(), m.mtime_nsec()) });
    }
    t
}
/// path -> bytes of every regular file below p (to see whether anything changed)
pub fn bytes_of(p: &Path) -> BTreeMap<String, Vec<u8>> {
    scan(p)
        .into_iter()
        .map(|(k, v)| {
            (k, match v.ent {
                Ent::F(b) => b,
                Ent::D => b"<dir>".to_vec(),
                Ent::L(t) => format!("-> {t}").into_bytes(),
            })
        })
        .collect()
}
pub fn copy_dir(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap().flatten() {
        let m = fs::symlink_metadata(e.path()).unwrap();
        let t = to.join(e.file_name());
        if m.is_dir() {
            copy_dir(&e.path(), &t);
        } else if m.file_type().is_symlink() {
            symlink(fs::read_link(e.path()).unwrap(), &t).unwrap();
        } else {
            fs::copy(e.path(), &t).unwrap();
            set_mtime(&t, m.mtime(), m.mtime_nsec());
        }
    }
    let m = fs::symlink_metadata(from).unwrap();
    set_mtime(to, m.mtime(), m.mtime_nsec());
}
#[allow(unused)]
pub fn epoch(s: u64) -> std::time::SystemTime {
    UNIX_EPOCH + Duration::from_secs(s)
}
