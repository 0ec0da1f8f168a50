//! C07, C08: the combined index and the maps built from it, on generated index files.
use backpak::{backend, index};
use bpharness::{decode::{Entry, Idx}, enc, util::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::str::FromStr;

type Oid = backpak::hashing::ObjectId;
fn oid(s: &str) -> Oid {
    Oid::from_str(s).unwrap()
}
fn show(i: &Idx) -> serde_json::Value {
    json!({"supersedes": i.sup.iter().map(|s| &s[..8]).collect::<Vec<_>>(), "packs": i.packs.iter().map(|(k, v)| format!("{} [{}]", &k[..8], v.iter().map(|e| format!("{} {} {}", &e.id[..6], e.kind, e.len)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>()})
}
fn rand_pack(r: &mut Rng, pool: &[Vec<u8>], dup: bool) -> (String, Vec<Entry>) {
    let n = r.range(if dup { 0 } else { 1 }, 4);
    let es: Vec<_> = (0..n).map(|_| {
        let b = if dup { r.pick(pool).clone() } else { let k = r.range(1, 30) as usize; r.bytes(k + 8) };
        enc::entry(if r.chance(1, 3) { "tree" } else { "chunk" }, &b)
    }).collect();
    (enc::manifest_id(&es), es)
}
fn conv(i: &Idx) -> index::Index {
    use backpak::{blob, pack};
    index::Index {
        supersedes: i.sup.iter().map(|s| oid(s)).collect(),
        packs: i.packs.iter().map(|(k, v)| (oid(k), v.iter().map(|e| pack::PackManifestEntry { blob_type: if e.kind == "tree" { blob::Type::Tree } else { blob::Type::Chunk }, length: e.len as u32, id: oid(&e.id) }).collect())).collect(),
    }
}

fn run(c: &mut Ctx) {
    c.rule = "random sets of index files (chains of supersession, absent and unrelated superseded ids, shared and private packs) and random manifests with and without repeated blobs; nontrivial if something is superseded or a blob repeats".into();
    let mut r = Rng::new(c.seed);
    let dir = PathBuf::from(&c.work).join("r");
    while c.time_left() && (c.evals < 4000 || c.thorough) {
        // ---- C07
        enc::repo(&dir, None, false);
        let packs: Vec<_> = (0..r.range(1, 6)).map(|_| rand_pack(&mut r, &[], false)).collect();
        let mut all: Vec<(String, Idx)> = vec![];
        for _ in 0..r.below(6) {
            let mut i = Idx::default();
            for p in &packs {
                if r.chance(2, 5) { i.packs.insert(p.0.clone(), p.1.clone()); }
            }
            for (o, _) in &all {
                if r.chance(2, 5) { i.sup.insert(o.clone()); }
            }
            if r.chance(1, 5) { i.sup.insert(bpharness::decode::hash(&r.bytes(9))); }
            let (id, b) = enc::index(&i);
            if all.iter().any(|x| x.0 == id) { continue; }
            enc::put(&dir, "index", &id, &b);
            all.push((id, i));
        }
        // some superseded ones are gone already
        let mut present = vec![];
        for (id, i) in &all {
            if all.iter().any(|o| o.1.sup.contains(id)) && r.chance(1, 3) {
                std::fs::remove_file(dir.join(format!("indexes/{id}.index"))).unwrap();
            } else {
                present.push((id.clone(), i.clone()));
            }
        }
        let sup: BTreeSet<_> = present.iter().flat_map(|x| x.1.sup.clone()).collect();
        let mut want: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
        for (id, i) in &present {
            if !sup.contains(id) { want.extend(i.packs.clone()); }
        }
        let p = camino::Utf8PathBuf::from_path_buf(dir.clone()).unwrap();
        let (_, be) = backend::open(&p, byte_unit::Byte::GIBIBYTE, backend::CacheBehavior::Normal).unwrap();
        let (seed, case) = (c.seed, c.evals);
        let replay = || json!({"index_files": present.iter().map(|(i, x)| json!({"id": &i[..8], "index": show(x)})).collect::<Vec<_>>(), "seed": seed, "case": case});
        let nontriv = present.iter().any(|x| sup.contains(&x.0));
        match index::build_master_index_with_sizes(&be) {
            Err(e) => { let rp = replay(); c.violate(&["C07"], format!("building the combined index of well-formed indexes fails: {e:#}"), rp); }
            Ok((got, sizes)) => {
                let w = conv(&Idx { sup: BTreeSet::new(), packs: want.clone() });
                if got.packs != w.packs {
                    let rp = replay();
                    c.violate(&["C07"], format!("the combined index lists {} packs, {} expected (or their manifests differ)", got.packs.len(), w.packs.len()), rp);
                }
                let mut a = sizes.clone(); a.sort();
                let mut b: Vec<_> = present.iter().map(|(i, _)| std::fs::metadata(dir.join(format!("indexes/{i}.index"))).unwrap().len()).collect(); b.sort();
                if a != b { let rp = replay(); c.violate(&["C27", "C07"], format!("index sizes {a:?}, on disk {b:?}"), rp); }
            }
        }
        let key: Vec<String> = present.iter().map(|x| x.0.clone()).collect();
        if c.evals < 2 { let v = replay(); c.sample(v); }
        c.case(&key, nontriv);
        // ---- C08
        let pool: Vec<Vec<u8>> = (0..r.range(2, 30)).map(|_| { let k = r.range(1, 20) as usize; r.bytes(k) }).collect();
        let mut i = Idx::default();
        for _ in 0..r.below(4) {
            let (id, es) = rand_pack(&mut r, &pool, true);
            i.packs.insert(id, es);
        }
        let mut seen: BTreeMap<String, (String, u64)> = BTreeMap::new();
        let mut dup = false;
        for (pk, es) in &i.packs {
            for e in es { dup |= seen.insert(e.id.clone(), (pk.clone(), e.len)).is_some(); }
        }
        let x = conv(&i);
        let rp = json!({"index": show(&i), "seed": c.seed, "case": c.evals});
        match index::blob_to_pack_map(&x) {
            Ok(m) if dup => c.violate(&["C08"], format!("blob_to_pack_map accepts an index with a repeated blob ({} entries)", m.len()), rp.clone()),
            Err(e) if !dup => c.violate(&["C08"], format!("blob_to_pack_map refuses an index without repeats: {e:#}"), rp.clone()),
            Ok(m) => if m.len() != seen.len() || seen.iter().any(|(b, (p, _))| m.get(&oid(b)) != Some(&oid(p))) { c.violate(&["C08"], "blob_to_pack_map is not the manifests' map".into(), rp.clone()) },
            _ => {}
        }
        match index::blob_id_set(&x) {
            Ok(_) if dup => c.violate(&["C08"], "blob_id_set accepts an index with a repeated blob".into(), rp.clone()),
            Err(e) if !dup => c.violate(&["C08"], format!("blob_id_set refuses an index without repeats: {e:#}"), rp.clone()),
            Ok(m) => if m.len() != seen.len() || seen.keys().any(|b| !m.contains(&oid(b))) { c.violate(&["C08"], "blob_id_set is not the set of the manifests' blobs".into(), rp.clone()) },
            _ => {}
        }
        match index::blob_to_size_map(&x) {
            Ok(_) if dup => c.violate(&["C08"], "blob_to_size_map accepts an index with a repeated blob".into(), rp.clone()),
            Err(e) if !dup => c.violate(&["C08"], format!("blob_to_size_map refuses an index without repeats: {e:#}"), rp.clone()),
            Ok(m) => if m.len() != seen.len() || seen.iter().any(|(b, (_, l))| m.get(&oid(b)).map(|x| *x as u64) != Some(*l)) { c.violate(&["C08"], "blob_to_size_map is not the manifests' sizes".into(), rp.clone()) },
            _ => {}
        }
        let key: Vec<String> = i.packs.keys().cloned().collect();
        c.case(&key, dup);
    }
}
fn main() {
    bpharness::main_of(run)
}
