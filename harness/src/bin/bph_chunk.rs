//! C22: chunks of files of every size class, against the file's own bytes.
use backpak::{blob, chunk};
use bpharness::{decode, util::*};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::Duration;

const MI: usize = 1024 * 1024;
const MAX: usize = 8 * MI;

fn content(r: &mut Rng, n: usize) -> (Vec<u8>, &'static str) {
    match r.below(5) {
        0 => (vec![0; n], "zeros"),
        1 => { let w = r.bytes(1 << 16); (w.iter().cycle().take(n).cloned().collect(), "repeating 64 kB") }
        2 => { let mut v = r.bytes(n); let k = r.below(n as u64 + 1) as usize; v[k..].fill(7); (v, "random, then constant") }
        _ => (r.bytes(n), "random"),
    }
}
/// ids, lengths, whether everything concatenates
fn chunks(p: &camino::Utf8Path) -> Result<Result<Vec<(String, Vec<u8>, bool)>, String>, ()> {
    let p = p.to_path_buf();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let x = catch_unwind(AssertUnwindSafe(|| match chunk::chunk_file(&p) {
            Ok(i) => Ok(i.map(|b| (b.id.to_string(), b.bytes().to_vec(), b.kind == blob::Type::Chunk)).collect()),
            Err(e) => Err(format!("{e:#}")),
        })).map_err(|_| ());
        let _ = tx.send(x);
    });
    rx.recv_timeout(Duration::from_secs(60)).unwrap_or(Ok(Err("chunking does not end".into())))
}
fn check(c: &mut Ctx, data: &[u8], p: &camino::Utf8Path, what: &str) -> Option<Vec<(usize, String)>> {
    std::fs::write(p, data).unwrap();
    let rp = json!({"file": format!("{} bytes, {what}", data.len()), "seed": c.seed, "case": c.evals});
    let v = match chunks(p) {
        Err(()) => { c.violate(&["C22"], format!("chunking a file of {} bytes crashes", data.len()), rp); return None }
        Ok(Err(e)) => { c.violate(&["C22"], format!("a file of {} bytes cannot be chunked: {e}", data.len()), rp); return None }
        Ok(Ok(v)) => v,
    };
    let mut at = 0;
    let mut out = vec![];
    for (k, (id, b, kind)) in v.iter().enumerate() {
        let bad = if b.is_empty() { Some("is empty".to_string()) }
            else if b.len() > MAX { Some(format!("has {} bytes, more than the maximum", b.len())) }
            else if data.get(at..at + b.len()) != Some(&b[..]) { Some(format!("is not the file's bytes {at}..{}", at + b.len())) }
            else if decode::hash(b) != *id { Some("is not named by the hash of its bytes".into()) }
            else if !kind { Some("is not marked as a chunk".into()) }
            else { None };
        if let Some(e) = bad { c.violate(&["C22"], format!("chunk {k} of a file of {} bytes {e}", data.len()), rp); return None }
        out.push((at, id.clone()));
        at += b.len();
    }
    if at != data.len() { c.violate(&["C22"], format!("the chunks of a file of {} bytes end at {at}", data.len()), rp); return None }
    c.sample(json!({"file": format!("{} bytes, {what}", data.len()), "chunk starts": out.iter().map(|x| x.0).collect::<Vec<_>>()}));
    c.case(&(data.len(), what, out.len()), out.len() > 1);
    Some(out)
}
fn run(c: &mut Ctx) {
    c.rule = "files of 0 bytes to 75 MB (once 140 MB) around every size boundary (minimum, target and maximum chunk, the buffering limit), random, constant and repeating, whole and without the first chunk; nontrivial if there are several chunks".into();
    let mut r = Rng::new(c.seed);
    let p = camino::Utf8PathBuf::from_path_buf(PathBuf::from(&c.work).join("f")).unwrap();
    let edge = [0usize, 1, 2, 1000, MI / 2 - 1, MI / 2, MI / 2 + 1, MI, MAX - 1, MAX, MAX + 1, 10 * MI - 1, 10 * MI, 10 * MI + 1, 2 * MAX, 2 * MAX + 1];
    for n in edge {
        if !c.time_left() { break }
        check(c, &r.bytes(n), &p, "random");
        if n >= MAX - 1 || n == 1 { check(c, &vec![0; n], &p, "zeros"); }
    }
    // a cut depends only on the bytes after the chunk's start, wherever that is in the file: without its first chunk,
    // a file has the same other chunks
    let rest = |c: &mut Ctx, d: &[u8], w: &'static str| {
        let a = check(c, d, &p, w);
        let Some(a) = a.filter(|a| a.len() > 2) else { return };
        let k = a[1].0;
        if let Some(b) = check(c, &d[k..], &p, w) {
            let a: Vec<_> = a[1..].iter().map(|x| (x.0 - k, x.1.clone())).collect();
            if a != b {
                let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                c.violate(&["C22"], format!("a file of {} bytes is cut differently after byte {} if its first chunk is left out", d.len(), a.get(at).map(|x| x.0 + k).unwrap_or(d.len())), json!({"whole": a.iter().map(|x| x.0 + k).collect::<Vec<_>>(), "without the first chunk": b.iter().map(|x| x.0 + k).collect::<Vec<_>>(), "content": w, "seed": c.seed}));
            }
        }
    };
    for n in [35, 70, 9, 140, 16] {
        if !c.time_left() { break }
        let big = r.bytes(n * MI + 12345);
        rest(c, &big, "random");
    }
    while c.time_left() && (c.evals < 400 || c.thorough) {
        match r.below(4) {
            1 => { let m = if r.chance(1, 4) { 60 } else { 15 }; let n = 9 * MI + r.below(m * MI as u64) as usize; let (d, w) = content(&mut r, n); rest(c, &d, w) }
            0 => { let n = if r.chance(1, 2) { r.below(3 * MI as u64) } else { r.below(22 * MI as u64) } as usize; let (d, w) = content(&mut r, n); check(c, &d, &p, w); }
            _ => {
                // the same content just below and just above the buffering limit: a cut depends on at most MAX bytes
                // after the chunk's start, so chunks starting early enough must be the same
                let k = r.below(3) as usize;
                let (d, w) = { let n = 10 * MI + r.below(2 * MI as u64) as usize; content(&mut r, n) };
                let a = check(c, &d[..10 * MI - 1 - k], &p, w);
                let b = check(c, &d, &p, w);
                if let (Some(a), Some(b)) = (a, b) {
                    let lim = 10 * MI - 1 - k - MAX;
                    let f = |v: &Vec<(usize, String)>| v.iter().filter(|x| x.0 <= lim).cloned().collect::<Vec<_>>();
                    if f(&a) != f(&b) {
                        c.violate(&["C22"], "a buffered and a mapped file with the same beginning are cut differently".into(), json!({"buffered": f(&a), "mapped": f(&b), "content": w, "seed": c.seed}));
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    }
}
fn main() {
    bpharness::main_of(run);
}
