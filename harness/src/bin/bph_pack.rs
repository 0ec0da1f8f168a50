//! C01 C02 C03 C23: the packer and every reader of packs, on generated blob streams and damaged files.
use backpak::{backend, blob, hashing::ObjectId, index, pack, read, snapshot, tree};
use bpharness::{decode, enc, util::*};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc::{sync_channel, TryRecvError}, Arc, Mutex};

fn oid(s: &str) -> ObjectId {
    ObjectId::from_str(s).unwrap()
}
fn rand_blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) { 0 => 1, 1 => r.range(1, 40), 2 => r.range(4000, 20000), 3 => r.range(30000, 150000), _ => r.range(40, 3000) } as usize;
    if r.chance(1, 2) { r.bytes(n) } else { let w = r.bytes(8); w.iter().cycle().take(n).cloned().collect() }
}
/// run the real packer; returns for each upload (name, bytes) and the manifests in order, and the order of events
#[allow(clippy::type_complexity)]
fn run_pack(target: u64, blobs: &[(blob::Type, Vec<u8>)]) -> Result<(Vec<(String, Vec<u8>)>, Vec<pack::PackMetadata>, Vec<String>, u64), String> {
    let (tx, rx) = sync_channel(3);
    let (itx, irx) = sync_channel::<pack::PackMetadata>(0);
    let (utx, urx) = sync_channel::<(String, std::fs::File)>(0);
    let log = Arc::new(Mutex::new(vec![]));
    let packed = AtomicU64::new(0);
    let comp = AtomicU64::new(0);
    let l1 = log.clone();
    // one consumer takes both rendezvous channels, so the order it sees is the order they were sent in
    let cons = std::thread::spawn(move || {
        let (mut v, mut m) = (vec![], vec![]);
        let (mut ud, mut id) = (false, false);
        let mut idle = 0u32;
        while !(ud && id) {
            let mut got = false;
            if !ud {
                match urx.try_recv() {
                    Ok((n, mut f)) => {
                        got = true;
                        l1.lock().unwrap().push(format!("U {}", n.split('.').next().unwrap_or("")));
                        let mut b = vec![];
                        f.seek(SeekFrom::Start(0)).unwrap();
                        f.read_to_end(&mut b).unwrap();
                        let on_disk = std::fs::read(&n).unwrap_or_default();
                        let _ = std::fs::remove_file(&n);
                        v.push((n, if on_disk == b { b } else { vec![] }));
                    }
                    Err(TryRecvError::Disconnected) => ud = true,
                    _ => {}
                }
            }
            if !id {
                match irx.try_recv() {
                    Ok(x) => {
                        got = true;
                        l1.lock().unwrap().push(format!("I {}", x.id));
                        m.push(x);
                    }
                    Err(TryRecvError::Disconnected) => id = true,
                    _ => {}
                }
            }
            idle = if got { 0 } else { idle + 1 };
            if idle > 50 { std::thread::sleep(std::time::Duration::from_micros(100)); } else { std::thread::yield_now(); }
        }
        (v, m)
    });
    let res = std::thread::scope(|s| {
        let h = s.spawn(|| pack::pack(byte_unit::Byte::from_u64(target), rx, itx, utx, &packed, &comp));
        for (k, b) in blobs {
            if tx.send(blob::Blob { contents: blob::Contents::Buffer(b.clone()), id: ObjectId::hash(b), kind: *k }).is_err() { break; }
        }
        drop(tx);
        h.join().map_err(|_| "the packer panicked".to_string())?.map_err(|e| format!("{e:#}"))
    });
    let (u, i) = cons.join().unwrap();
    res?;
    let l = log.lock().unwrap().clone();
    Ok((u, i, l, packed.load(SeqCst)))
}

struct Built {
    idx: decode::Idx,
    bytes: BTreeMap<String, Vec<u8>>, // blob id -> bytes
    files: BTreeMap<String, Vec<u8>>, // pack id -> file
}
fn conv(i: &decode::Idx) -> index::Index {
    index::Index {
        supersedes: Default::default(),
        packs: i.packs.iter().map(|(k, v)| (oid(k), v.iter().map(|e| pack::PackManifestEntry { blob_type: if e.kind == "tree" { blob::Type::Tree } else { blob::Type::Chunk }, length: e.len as u32, id: oid(&e.id) }).collect())).collect(),
    }
}
fn open(dir: &Path) -> backend::CachedBackend {
    let p = camino::Utf8PathBuf::from_path_buf(dir.to_path_buf()).unwrap();
    backend::open(&p, byte_unit::Byte::GIBIBYTE, backend::CacheBehavior::Normal).unwrap().1
}
fn meta(r: &mut Rng) -> tree::NodeMetadata {
    tree::NodeMetadata::Posix(tree::PosixMetadata { mode: 0o100644, size: Some(r.below(99)), user_id: 1, group_id: 2, access_time: jiff::Timestamp::from_second(r.below(1 << 30) as i64).unwrap(), modify_time: jiff::Timestamp::from_second(r.below(1 << 30) as i64).unwrap() })
}
static DID_BIG: AtomicU64 = AtomicU64::new(0);
/// a few packs whose blobs are so big (and compress so well) that not many of them should be in memory together
fn build_big(dir: &Path, r: &mut Rng) -> Built {
    enc::repo(dir, None, false);
    let mut b = Built { idx: Default::default(), bytes: Default::default(), files: Default::default() };
    for p in 0..r.range(1, 2) {
        let n = if p == 0 { 18 } else { 5 };
        let v: Vec<_> = (0..n).map(|i| {
            let mut x = vec![i as u8; if p == 0 { 8 << 20 } else { r.range(1, 1 << 20) as usize }];
            x[0] = p as u8;
            x.extend(r.bytes(3));
            ("chunk", x)
        }).collect();
        let (id, f, es) = enc::pack(&v);
        for (e, (_, x)) in es.iter().zip(v) { b.bytes.insert(e.id.clone(), x); }
        enc::put(dir, "pack", &id, &f);
        b.files.insert(id.clone(), f);
        b.idx.packs.insert(id, es);
    }
    b
}
fn build(dir: &Path, r: &mut Rng) -> Built {
    enc::repo(dir, None, false);
    let mut b = Built { idx: Default::default(), bytes: Default::default(), files: Default::default() };
    for _ in 0..r.range(1, 6) {
        let trees = r.chance(1, 3);
        let mut v = vec![];
        for _ in 0..r.range(1, 9) {
            let (k, x) = if trees {
                let mut t = tree::Tree::new();
                for i in 0..r.below(4) {
                    let cs = (0..r.below(3)).map(|_| ObjectId::hash(&r.bytes(8))).collect();
                    t.insert(format!("f{i}{}", r.below(1000)).into(), tree::Node { contents: tree::NodeContents::File { chunks: cs }, metadata: meta(r) });
                }
                ("tree", tree::serialize_and_hash(&t).unwrap().0)
            } else {
                ("chunk", rand_blob(r))
            };
            let id = decode::hash(&x);
            if b.bytes.contains_key(&id) || id == decode::Repo::empty_tree() { continue; }
            b.bytes.insert(id, x.clone());
            v.push((k, x));
        }
        if v.is_empty() { continue; }
        let (id, f, es) = enc::pack(&v);
        enc::put(dir, "pack", &id, &f);
        b.files.insert(id.clone(), f);
        b.idx.packs.insert(id, es);
    }
    b
}

fn c01(c: &mut Ctx, r: &mut Rng) {
    let n = r.below(60);
    let blobs: Vec<_> = (0..n).map(|_| (if r.chance(1, 3) { blob::Type::Tree } else { blob::Type::Chunk }, rand_blob(r))).collect();
    let target = *r.pick(&[0u64, 1, 50, 1000, 9000, 40000, 40000, 300000, 100_000_000]);
    let desc = json!({"target": target, "blob_lengths": blobs.iter().map(|b| b.1.len()).collect::<Vec<_>>(), "seed": c.seed, "case": c.evals});
    let done = match run_pack(target, &blobs) {
        Err(e) => { c.violate(&["C01"], format!("packing fails: {e}"), desc); return; }
        Ok(x) => x,
    };
    let (ups, metas, log, packed) = done;
    let mut bad = None;
    let mut seq = vec![];
    for (k, (name, bytes)) in ups.iter().enumerate() {
        let id = name.strip_suffix(".pack").unwrap_or("");
        match decode::pack(bytes, id) {
            Err(e) => bad = Some(format!("packfile {k}: {e}")),
            Ok(p) => {
                for (e, b) in p.entries.iter().zip(&p.blobs) { seq.push((e.kind.clone(), b.clone())); }
                match metas.get(k) {
                    Some(m) if m.id.to_string() == id && m.manifest.len() == p.entries.len() && m.manifest.iter().zip(&p.entries).all(|(a, b)| a.id.to_string() == b.id && a.length as u64 == b.len && (a.blob_type == blob::Type::Tree) == (b.kind == "tree")) => {}
                    _ => bad = Some(format!("packfile {k}: the manifest given to the indexer is not the packfile's")),
                }
                if p.entries.is_empty() { bad = Some(format!("packfile {k} is empty")); }
            }
        }
    }
    let want: Vec<_> = blobs.iter().map(|(k, b)| (if *k == blob::Type::Tree { "tree".to_string() } else { "chunk".to_string() }, b.clone())).collect();
    if bad.is_none() && seq != want { bad = Some(format!("{} blobs went in, {} came out (or not in order, or of another kind)", want.len(), seq.len())); }
    if bad.is_none() && metas.len() != ups.len() { bad = Some(format!("{} packs uploaded, {} indexed", ups.len(), metas.len())); }
    if bad.is_none() {
        for (k, m) in metas.iter().enumerate() {
            let u = log.iter().position(|x| *x == format!("U {}", m.id));
            let i = log.iter().position(|x| *x == format!("I {}", m.id));
            if u.is_none() || u > i { bad = Some(format!("pack {k} was indexed before it was uploaded")); }
        }
    }
    let total: u64 = blobs.iter().map(|b| b.1.len() as u64).sum();
    if bad.is_none() && packed != total { bad = Some(format!("{packed} bytes counted as packed, {total} were")); }
    if let Some(b) = bad { c.violate(&["C01"], b, desc.clone()); }
    if c.evals < 2 { c.sample(desc); }
    c.case(&(target, ups.len(), n, total), ups.len() > 1);
    c.count("packs", ups.len() as u64);
}

fn c02(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let big = matches!(c.prop.as_str(), "C02" | "C23") && (DID_BIG.load(SeqCst) == 0 && c.evals >= 40 || c.thorough && r.chance(1, 200));
    if big { DID_BIG.store(1, SeqCst); }
    let b = if big { build_big(dir, r) } else { build(dir, r) };
    let be = open(dir);
    let idx = conv(&b.idx);
    let map = index::blob_to_pack_map(&idx).unwrap();
    let ids: Vec<_> = b.bytes.keys().cloned().collect();
    if ids.is_empty() { return; }
    let mut cr = read::ChunkReader::new(&be, &idx, &map);
    let mut order = vec![];
    let hot = r.pick(&ids).clone();
    for _ in 0..r.range(if big { 4 } else { 1 }, if big { 7 } else { 40 }) {
        let id = if r.chance(1, 3) { hot.clone() } else if r.chance(1, 12) { decode::hash(&r.bytes(5)) } else { r.pick(&ids).clone() };
        order.push(id.clone());
        let o = oid(&id);
        let got = catch_unwind(AssertUnwindSafe(|| cr.read_blob(&o).map(|x| x.to_vec()).map_err(|e| format!("{e:#}"))));
        let what = match (got, b.bytes.get(&id)) {
            (Err(_), _) => "reading a blob panics".to_string(),
            (Ok(Ok(g)), Some(w)) if g == *w => String::new(),
            (Ok(Ok(g)), Some(w)) => format!("blob {} of {} bytes is read back as {} other bytes", &id[..8], w.len(), g.len()),
            (Ok(Err(e)), Some(_)) => format!("blob {} cannot be read: {e}", &id[..8]),
            (Ok(Ok(_)), None) => format!("unknown blob {} is read", &id[..8]),
            (Ok(Err(_)), None) => String::new(),
        };
        if let (Ok(n), Some(w)) = (cr.blob_size(&o), b.bytes.get(&id)) {
            if n as usize != w.len() { c.violate(&["C02"], format!("blob_size of {} is {n}, it has {} bytes", &id[..8], w.len()), json!({"blob": id})); }
        }
        if !what.is_empty() {
            let pk = map.get(&o).map(|p| p.to_string()[..8].to_string());
            c.violate(&["C02", "C23"], what, json!({"packs": b.idx.packs.iter().map(|(k, v)| json!({"pack": &k[..8], "blobs": v.iter().map(|e| format!("{} {} {}", &e.id[..8], e.kind, e.len)).collect::<Vec<_>>()})).collect::<Vec<_>>(), "requests": order.iter().map(|x| &x[..8]).collect::<Vec<_>>(), "in_pack": pk, "seed": c.seed, "case": c.evals}));
            return;
        }
    }
    if big { c.case(&(order.len(), b.idx.packs.len()), true); return; }
    // single extraction, and trees through the tree cache
    for (pk, es) in &b.idx.packs {
        let man = &idx.packs[&oid(pk)];
        for e in es {
            let got = catch_unwind(AssertUnwindSafe(|| pack::extract_blob(&mut Cursor::new(b.files[pk].clone()), &oid(&e.id), man).map_err(|e| format!("{e:#}"))));
            match got {
                Ok(Ok((en, g))) if g == b.bytes[&e.id] && en.id.to_string() == e.id && en.length as u64 == e.len => {}
                Ok(Err(x)) => c.violate(&["C02"], format!("blob {} cannot be extracted: {x}", &e.id[..8]), json!({"manifest": format!("{es:?}"), "blob": e.id, "seed": c.seed})),
                _ => c.violate(&["C02"], format!("extracting blob {} gives other bytes, or panics", &e.id[..8]), json!({"manifest": format!("{es:?}"), "blob": e.id, "seed": c.seed})),
            }
        }
    }
    let mut tc = tree::Cache::new(&idx, &map, &be);
    let mut tids: Vec<_> = b.idx.packs.values().flatten().filter(|e| e.kind == "tree").map(|e| e.id.clone()).collect();
    r.shuffle(&mut tids);
    for t in tids.iter().chain(tids.iter().take(2)) {
        match tc.read(&oid(t)) {
            Ok(x) => if tree::serialize_and_hash(&x).unwrap().1 != oid(t) { c.violate(&["C02", "C03"], format!("tree {} is read as another tree", &t[..8]), json!({"tree": t, "order": tids, "seed": c.seed})) },
            Err(e) => c.violate(&["C02"], format!("tree {} cannot be read: {e:#}", &t[..8]), json!({"tree": t, "order": tids, "seed": c.seed})),
        }
    }
    let none = oid(&decode::hash(&r.bytes(7)));
    if tc.read(&none).is_ok() { c.violate(&["C02", "C29"], "a tree that is in no pack is read".into(), json!({"tree": none.to_string()})); }
    c.case(&order, b.idx.packs.len() > 1);
}

fn c03(c: &mut Ctx, r: &mut Rng, dir: &Path) {
    let b = build(dir, r);
    let idx = conv(&b.idx);
    let map = index::blob_to_pack_map(&idx).unwrap();
    let be = open(dir);
    let packs: Vec<_> = b.files.keys().cloned().collect();
    if packs.is_empty() { return; }
    let counter = AtomicU64::new(0);
    for _ in 0..12 {
        let pk = r.pick(&packs).clone();
        let es = &b.idx.packs[&pk];
        let man = idx.packs[&oid(&pk)].clone();
        let stream: Vec<u8> = es.iter().flat_map(|e| b.bytes[&e.id].clone()).collect();
        // damage, from raw bytes to well-formed but wrong content
        let (bytes, how) = match r.below(8) {
            0..=2 => enc::flip(&b.files[&pk], r),
            3 => (b.files[r.pick(&packs)].clone(), "another pack's file".to_string()),
            4 => { let (s, h) = enc::flip(&stream, r); (enc::pack_raw(es, &s).1, format!("blob stream {h}, compressed again")) }
            5 => { let mut e2 = es.clone(); let k = r.below(e2.len() as u64) as usize; e2[k].len += 1; (enc::pack_raw(&e2, &stream).1, "manifest in the pack lists another length".to_string()) }
            6 => { let mut e2 = es.clone(); e2.reverse(); let s2: Vec<u8> = e2.iter().flat_map(|e| b.bytes[&e.id].clone()).collect(); (enc::pack_raw(&e2, &s2).1, "blobs in the opposite order".to_string()) }
            _ => { let e2 = enc::entry("chunk", b"substitute"); (enc::pack_raw(&[e2], b"substitute").1, "a well-formed pack of something else".to_string()) }
        };
        enc::put(dir, "pack", &pk, &bytes);
        let same = bytes == b.files[&pk];
        let rp = json!({"pack": pk, "manifest": format!("{es:?}"), "damage": how, "seed": c.seed, "case": c.evals});
        // manifest
        if let Ok(Ok(m)) = catch_unwind(AssertUnwindSafe(|| pack::load_manifest(&oid(&pk), &be))) {
            if m != man { c.violate(&["C03"], format!("load_manifest returns a manifest that is not the one named ({how})"), rp.clone()); }
        } else if same { c.violate(&["C03", "C02"], "load_manifest refuses an undamaged pack".into(), rp.clone()); }
        // single blobs
        for e in es {
            if let Ok(Ok((_, g))) = catch_unwind(AssertUnwindSafe(|| pack::extract_blob(&mut Cursor::new(&bytes), &oid(&e.id), &man))) {
                if decode::hash(&g) != e.id { c.violate(&["C03"], format!("extract_blob returns bytes that do not hash to the id ({how})"), rp.clone()); }
            }
        }
        // chunk reader: nothing it caches may be wrong, even after an error
        let mut cr = read::ChunkReader::new(&be, &idx, &map);
        for e in es.iter().chain(es.iter()) {
            if let Ok(Ok(g)) = catch_unwind(AssertUnwindSafe(|| cr.read_blob(&oid(&e.id)).map(|x| x.to_vec()))) {
                if decode::hash(&g) != e.id { c.violate(&["C03"], format!("read_blob returns bytes that do not hash to the id ({how})"), rp.clone()); }
            }
        }
        // trees
        let mut forest = tree::Forest::default();
        let _ = catch_unwind(AssertUnwindSafe(|| pack::append_to_forest(&mut Cursor::new(&bytes), &man, &mut forest)));
        for (i, t) in &forest {
            if tree::serialize_and_hash(t).unwrap().1 != *i { c.violate(&["C03"], format!("append_to_forest keeps a tree that does not hash to its id ({how})"), rp.clone()); }
        }
        let mut tc = tree::Cache::new(&idx, &map, &be);
        for e in es.iter().filter(|e| e.kind == "tree") {
            if let Ok(Ok(t)) = catch_unwind(AssertUnwindSafe(|| tc.read(&oid(&e.id)))) {
                if tree::serialize_and_hash(&t).unwrap().1 != oid(&e.id) { c.violate(&["C03"], format!("tree::Cache::read returns a tree that does not hash to its id ({how})"), rp.clone()); }
            }
        }
        // verify
        let v = catch_unwind(AssertUnwindSafe(|| pack::verify(&mut Cursor::new(&bytes), &man, &counter).is_ok())).unwrap_or(false);
        let good = decode::pack(&bytes, &pk).map(|p| p.entries == *es).unwrap_or(false);
        if v && !good && !tolerable(&bytes, &stream) { c.violate(&["C04", "C03"], format!("verify accepts a damaged pack ({how})"), rp.clone()); }
        if !v && good && same { c.violate(&["C04"], "verify refuses an undamaged pack".into(), rp.clone()); }
        c.case(&(pk.clone(), how.clone()), !same);
        enc::put(dir, "pack", &pk, &b.files[&pk]);
    }
    // indexes and snapshots
    let (iid, ib) = enc::index(&b.idx);
    let other = { let mut o = b.idx.clone(); o.sup.insert(decode::hash(b"x")); enc::index(&o) };
    let (bytes, how) = if r.chance(1, 3) { (other.1, "another index's file".to_string()) } else { enc::flip(&ib, r) };
    enc::put(dir, "index", &iid, &bytes);
    if let Ok(Ok(i)) = catch_unwind(AssertUnwindSafe(|| index::load(&oid(&iid), &be))) {
        let back = enc::index(&decode::Idx { sup: i.supersedes.iter().map(|x| x.to_string()).collect(), packs: i.packs.iter().map(|(k, v)| (k.to_string(), v.iter().map(|e| decode::Entry { kind: if e.blob_type == blob::Type::Tree { "tree".into() } else { "chunk".into() }, len: e.length as u64, id: e.id.to_string() }).collect())).collect() });
        if back.0 != iid { c.violate(&["C03"], format!("index::load returns an index that does not hash to its id ({how})"), json!({"damage": how, "seed": c.seed, "case": c.evals})); }
    } else if bytes == ib { c.violate(&["C03"], "index::load refuses an undamaged index".into(), json!({})); }
    c.case(&(iid, how), true);
    let snap = |r: &mut Rng| snapshot::Snapshot { time: jiff::Timestamp::new(r.below(1 << 31) as i64, 5).unwrap().to_zoned(jiff::tz::TimeZone::UTC), author: "me".into(), tags: Default::default(), paths: [camino::Utf8PathBuf::from(format!("/p{}", r.below(99)))].into_iter().collect(), tree: ObjectId::hash(&r.bytes(4)) };
    let (s1, s2) = (snap(r), snap(r));
    let i1 = snapshot::upload(&s1, &be).unwrap();
    let i2 = snapshot::upload(&s2, &be).unwrap();
    let f = |i: &ObjectId| dir.join(format!("snapshots/{i}.snapshot"));
    let orig = std::fs::read(f(&i1)).unwrap();
    match snapshot::load(&i1, &be) { Ok(s) if s == s1 => {}, _ => c.violate(&["C03"], "an undamaged snapshot is not read back".into(), json!({"id": i1.to_string()})) }
    for _ in 0..6 {
        let (bytes, how) = if r.chance(1, 4) { (std::fs::read(f(&i2)).unwrap(), "another snapshot's file".to_string()) } else { enc::flip(&orig, r) };
        std::fs::write(f(&i1), &bytes).unwrap();
        if let Ok(Ok(s)) = catch_unwind(AssertUnwindSafe(|| snapshot::load(&i1, &be))) {
            if s != s1 { c.violate(&["C03"], format!("snapshot::load returns a snapshot that is not the one named ({how})"), json!({"damage": how, "seed": c.seed, "case": c.evals})); }
        }
        c.case(&(i1.to_string(), how), bytes != orig);
    }
}
/// damage that leaves every byte of content and the manifest in place (e.g. in unused bits of a frame) is not damage to blobs
fn tolerable(bytes: &[u8], stream: &[u8]) -> bool {
    if bytes.len() < 13 || !bytes.starts_with(b"MKBAKPAK1") { return false; }
    let mut d = match zstd::stream::read::Decoder::new(&bytes[9..]) { Ok(d) => d, Err(_) => return false };
    let mut got = vec![0u8; stream.len()];
    d.read_exact(&mut got).is_ok() && got == stream
}

fn run(c: &mut Ctx) {
    c.rule = "random blob streams and pack sizes through the real packer; random request orders through the real readers; damaged, swapped and substituted pack, index and snapshot files; nontrivial if several packs or really damaged".into();
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::new(c.seed);
    let dir = PathBuf::from(&c.work).join("r");
    let p = c.prop.clone();
    let (mut a, mut n) = (0u64, 0u64);
    while c.time_left() && (c.thorough || n < 1500) {
        n += 1;
        a += 1;
        let which = match p.as_str() { "C01" => 0, "C02" | "C23" => 1, "C03" | "C04" => 2, _ => a % 3 };
        match if a % 7 == 0 { r.below(3) } else { which } { 0 => c01(c, &mut r), 1 => c02(c, &mut r, &dir), _ => c03(c, &mut r, &dir) }
    }
}
fn main() {
    bpharness::main_of(run)
}
