//! C20 (ids and their text, object names) and C21 (hashing and counting adapters).
use backpak::{backend, hashing::*, progress::{AtomicCountRead, AtomicCountWrite}};
use bpharness::{decode, enc, util::*};
use serde_json::json;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const SYM: &[u8] = b"0123456789abcdefghijklmnopqrstuv";

fn canonical(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 45 && b.iter().all(|c| SYM.contains(c)) && SYM.iter().position(|x| *x == b[44]).unwrap() % 2 == 0
}
fn c20(c: &mut Ctx, r: &mut Rng) {
    let data = { let n = r.below(50) as usize; r.bytes(n) };
    let id = ObjectId::hash(&data);
    let t = id.to_string();
    if t != decode::hash(&data) { c.violate(&["C20"], format!("the id of {data:?} is written {t}, its hash is {}", decode::hash(&data)), json!({"bytes": data})); }
    if ObjectId::from_str(&t).ok() != Some(id) { c.violate(&["C20"], format!("{t} does not parse back to the same id"), json!({"text": t})); }
    if !t.starts_with(&id.short_name()) || id.short_name().len() < 4 { c.violate(&["C20", "C18"], format!("the short name of {t} is {}", id.short_name()), json!({"text": t})); }
    // any other text
    let mut x: Vec<u8> = t.clone().into_bytes();
    match r.below(14) {
        0 => { let k = r.below(45) as usize; x[k] = x[k].to_ascii_uppercase(); }
        1 => { x.truncate(r.below(45) as usize); }
        2 => { let k = r.range(1, 12) as usize; let e: Vec<u8> = (0..k).map(|_| *r.pick(SYM)).collect(); x.extend(e); }
        3 => { let k = SYM.iter().position(|s| *s == x[44]).unwrap(); x[44] = SYM[k ^ 1]; }
        4 => { let k = r.below(45) as usize; x[k] = r.below(128) as u8; }
        5 => { let k = r.below(45) as usize; x[k] = *r.pick(SYM); }
        6 => { x.extend(b"="); }
        7 => { x.insert(r.below(45) as usize, b' '); }
        8 => { let k = r.range(44, 60) as usize; x = (0..k).map(|_| *r.pick(SYM)).collect(); }
        9 => { x = (0..45).map(|_| *r.pick(SYM)).collect(); }
        10 => { x.pop(); x.push(*r.pick(b"wxyzWXYZ=~. /")); }
        11 => { x = x.to_ascii_uppercase(); }
        12 => { x.swap(r.below(45) as usize, r.below(45) as usize); }
        _ => { let k = r.below(90) as usize; x = r.bytes(k).iter().map(|b| b & 127).collect(); }
    }
    let x = String::from_utf8(x).unwrap();
    let got = catch_unwind(AssertUnwindSafe(|| ObjectId::from_str(&x).ok().map(|i| i.to_string())));
    let want = if canonical(&x) { Some(x.clone()) } else { None };
    match got {
        Err(_) => c.violate(&["C20"], format!("parsing {x:?} crashes"), json!({"text": x})),
        Ok(g) if g != want => c.violate(&["C20"], format!("the text {x:?} is taken as id {g:?}"), json!({"text": x})),
        _ => {}
    }
    // file names
    let kind = *r.pick(&["pack", "index", "snapshot"]);
    for p in [format!("{t}.{kind}"), format!("packs/{t}.{kind}"), format!("/some/where.d/{kind}s/{t}.{kind}")] {
        if backend::id_from_path(&p).ok().map(|i| i.to_string()) != Some(t.clone()) { c.violate(&["C20"], format!("the name {p} is not mapped back to its id"), json!({"name": p})); }
    }
    if let Ok(i) = backend::id_from_path(format!("{x}.{kind}")) {
        // the file's stem is everything before the last dot of the last component
        let name = format!("{x}.{kind}");
        let last = name.rsplit('/').next().unwrap();
        let stem = &last[..last.rfind('.').unwrap()];
        if i.to_string() != stem { c.violate(&["C20"], format!("the name {name} is mapped to {i}"), json!({"name": name})); }
    }
    c.case(&x, x != t);
}
/// what is stored, where
fn c20_store(c: &mut Ctx, r: &mut Rng, dir: &std::path::Path) {
    enc::repo(dir, None, false);
    let p = camino::Utf8PathBuf::from_path_buf(dir.to_path_buf()).unwrap();
    let (_, be) = backend::open(&p, byte_unit::Byte::GIBIBYTE, backend::CacheBehavior::Normal).unwrap();
    let mut want = std::collections::BTreeMap::new();
    for _ in 0..r.range(1, 6) {
        let n = r.below(2000) as usize;
        let b = r.bytes(n);
        let id = decode::hash(&b);
        let kind = *r.pick(&["pack", "index", "snapshot"]);
        let name = format!("{id}.{kind}");
        std::fs::write(&name, &b).unwrap();
        be.write(&name, std::fs::File::open(&name).unwrap()).unwrap();
        let _ = std::fs::remove_file(&name);
        let sub = match kind { "pack" => "packs", "index" => "indexes", _ => "snapshots" };
        want.insert(format!("{sub}/{name}"), b.clone());
        let oid = ObjectId::from_str(&id).unwrap();
        let mut got = vec![];
        let rd = match kind { "pack" => be.read_pack(&oid).map(|mut f| f.read_to_end(&mut got)), "index" => be.read_index(&oid).map(|mut f| f.read_to_end(&mut got)), _ => be.read_snapshot(&oid).map(|mut f| f.read_to_end(&mut got)) };
        if !matches!(rd, Ok(Ok(_))) || got != b { c.violate(&["C20"], format!("a stored {kind} is not read back by its id"), json!({"name": name})); }
    }
    let mut have = std::collections::BTreeMap::new();
    for d in ["packs", "indexes", "snapshots"] {
        for e in std::fs::read_dir(dir.join(d)).unwrap().flatten() { have.insert(format!("{d}/{}", e.file_name().to_string_lossy()), std::fs::read(e.path()).unwrap()); }
    }
    if have != want { c.violate(&["C20"], "objects are not stored in the directory of their kind under their id".into(), json!({"stored": have.keys().collect::<Vec<_>>(), "written": want.keys().collect::<Vec<_>>()})); }
    for (kind, l) in [("pack", be.list_packs()), ("index", be.list_indexes()), ("snapshot", be.list_snapshots())] {
        let mut ids: Vec<_> = l.unwrap().into_iter().map(|(n, _)| backend::id_from_path(n).unwrap().to_string()).collect();
        ids.sort();
        let w: Vec<_> = want.keys().filter(|k| k.ends_with(&format!(".{kind}"))).map(|k| k.split('/').nth(1).unwrap().split('.').next().unwrap().to_string()).collect();
        if ids != w { c.violate(&["C20"], format!("listing the {kind} objects gives other ids than were stored"), json!({"listed": ids, "stored": w})); }
    }
    c.case(&want.keys().collect::<Vec<_>>(), true);
}

/// an inner stream that transfers what it likes
struct Flaky { data: Vec<u8>, at: usize, r: Rng, sent: Vec<u8>, log: Vec<String> }
impl Flaky {
    fn step(&mut self, len: usize) -> io::Result<usize> {
        let k = self.r.below(10);
        let n = match k {
            0 => { self.log.push(format!("{len}: interrupted")); return Err(io::ErrorKind::Interrupted.into()) }
            1 => { self.log.push(format!("{len}: failed")); return Err(io::Error::other("broken")) }
            2 => { self.log.push(format!("{len}: would block")); return Err(io::ErrorKind::WouldBlock.into()) }
            3 => 0,
            4 | 5 => self.r.below(len as u64 + 1) as usize,
            6 => len.min(1),
            _ => len,
        };
        self.log.push(format!("{len}: {n}"));
        Ok(n)
    }
}
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let m = b.len().min(self.data.len() - self.at);
        let n = match self.step(m) { Ok(n) => n, Err(e) => { for x in b.iter_mut() { *x = 0xee; } return Err(e) } };
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        for x in b[n..].iter_mut() { *x = 0xdd; }
        self.at += n;
        Ok(n)
    }
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.step(b.len())?;
        self.sent.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn c21(c: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 63, 64, 65, 200, 5000]);
    let data = r.bytes(n);
    let mk = |r: &mut Rng| Flaky { data: data.clone(), at: 0, r: Rng::new(r.next()), sent: vec![], log: vec![] };
    let ops = r.range(1, 25);
    // reading
    let cnt = AtomicU64::new(5);
    let counted = r.chance(1, 2);
    let mut got = vec![];
    let known;
    let (hr, at, log) = if counted {
        let mut a = HashingReader::new(AtomicCountRead::new(mk(r), &cnt));
        known = drive_read(&mut a, r, ops, &mut got);
        let (i, x) = a.finalize();
        let f = x.into_inner();
        (i, f.at, f.log)
    } else {
        let inner = HashingReader::new(mk(r));
        let mut a = AtomicCountRead::new(inner, &cnt);
        known = drive_read(&mut a, r, ops, &mut got);
        let (i, f) = a.into_inner().finalize();
        (i, f.at, f.log)
    };
    let rp = json!({"length": n, "inner reads (asked: got)": log, "seed": c.seed, "case": c.evals});
    if known && got != data[..at] { c.violate(&["C21"], format!("{} bytes came out of the reader, the inner one gave {at} (or other bytes)", got.len()), rp.clone()); }
    if hr.to_string() != decode::hash(&data[..at]) { c.violate(&["C21"], format!("the hash after reading {at} bytes is not theirs"), rp.clone()); }
    if cnt.load(SeqCst) != 5 + at as u64 { c.violate(&["C21"], format!("{at} bytes read, {} counted", cnt.load(SeqCst) - 5), rp.clone()); }
    if c.evals < 60 { c.sample(rp); }
    // writing
    let cnt = AtomicU64::new(7);
    let mut offered = vec![];
    let known;
    let (hw, sent, log) = if counted {
        let mut a = HashingWriter::new(AtomicCountWrite::new(mk(r), &cnt));
        known = drive_write(&mut a, r, ops, &data, &mut offered);
        let (i, x) = a.finalize();
        let f = x.into_inner();
        (i, f.sent, f.log)
    } else {
        let mut a = AtomicCountWrite::new(HashingWriter::new(mk(r)), &cnt);
        known = drive_write(&mut a, r, ops, &data, &mut offered);
        let (i, f) = a.into_inner().finalize();
        (i, f.sent, f.log)
    };
    let rp = json!({"length": n, "inner writes (offered: taken)": log, "seed": c.seed, "case": c.evals});
    if hw.to_string() != decode::hash(&sent) { c.violate(&["C21"], format!("the hash after writing {} bytes is not theirs", sent.len()), rp.clone()); }
    if cnt.load(SeqCst) != 7 + sent.len() as u64 { c.violate(&["C21"], format!("{} bytes written, {} counted", sent.len(), cnt.load(SeqCst) - 7), rp.clone()); }
    if known && offered != sent { c.violate(&["C21"], format!("{} bytes were reported as written, the inner writer took {} (or others)", offered.len(), sent.len()), rp.clone()); }
    c.case(&(n, log), log_interesting(&rp));
}
fn log_interesting(v: &serde_json::Value) -> bool {
    let s = v.to_string();
    s.contains("interrupted") || s.contains("failed") || s.contains(": 0")
}
/// false if the caller cannot know what was transferred (a failed read_exact)
fn drive_read<R: Read>(a: &mut R, r: &mut Rng, ops: u64, got: &mut Vec<u8>) -> bool {
    let mut known = true;
    for _ in 0..ops {
        let mut b = vec![0xaa; *r.pick(&[0usize, 1, 7, 64, 100, 4096])];
        match r.below(6) {
            0 => {
                // vectored: only what is reported counts, in the order of the buffers
                let mut b2 = vec![0xaa; r.below(20) as usize];
                let l = b.len();
                if let Ok(k) = a.read_vectored(&mut [io::IoSliceMut::new(&mut b), io::IoSliceMut::new(&mut b2)]) {
                    got.extend(&b[..k.min(l)]);
                    if k > l { got.extend(&b2[..k - l]); }
                }
            }
            1 => if a.read_exact(&mut b).is_ok() { got.extend(&b) } else { known = false },
            2 => { let _ = a.by_ref().take(200).read_to_end(got); }
            _ => if let Ok(k) = a.read(&mut b) { got.extend(&b[..k]); }
        }
    }
    known
}
fn drive_write<W: Write>(a: &mut W, r: &mut Rng, ops: u64, data: &[u8], offered: &mut Vec<u8>) -> bool {
    let mut known = true;
    let mut at = 0;
    for _ in 0..ops {
        let n = (*r.pick(&[0usize, 1, 7, 64, 100, 4096])).min(data.len() - at);
        let b = &data[at..at + n];
        match r.below(6) {
            0 => {
                let (x, y) = b.split_at(n / 2);
                if let Ok(k) = a.write_vectored(&[io::IoSlice::new(x), io::IoSlice::new(y)]) { offered.extend(&b[..k]); at += k; }
            }
            1 => { let _ = a.flush(); }
            2 => { if a.write_all(b).is_ok() { offered.extend(b); } else { known = false; } at += n; }
            _ => if let Ok(k) = a.write(b) { offered.extend(&b[..k]); at += k; }
        }
    }
    known
}
fn run(c: &mut Ctx) {
    c.rule = "C20: random ids and mutated texts, stored objects and their names; C21: random reads and writes through hashing and counting adapters over an inner stream that is short, empty, interrupted or fails; nontrivial if the text is mutated, something is stored, or the inner stream misbehaves".into();
    let mut r = Rng::new(c.seed);
    let dir = PathBuf::from(&c.work).join("r");
    while c.time_left() && (c.evals < 60000 || c.thorough) {
        match c.prop.as_str() {
            "C20" => if r.chance(1, 60) { c20_store(c, &mut r, &dir) } else { c20(c, &mut r) },
            _ => c21(c, &mut r),
        }
    }
}
fn main() {
    bpharness::main_of(run);
}
