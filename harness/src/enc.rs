//! Independent writing of repository objects (no backpak code).
use crate::decode::{hash, Entry, Id, Idx};
use ciborium::value::Value as C;
use std::fs;
use std::path::Path;

pub fn unb32(s: &str) -> Vec<u8> {
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for ch in s.bytes() {
        let v = if ch.is_ascii_digit() { ch - b'0' } else { ch - b'a' + 10 };
        acc = (acc << 5) | v as u32;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}
fn cb(v: &C) -> Vec<u8> {
    let mut o = vec![];
    ciborium::into_writer(v, &mut o).unwrap();
    o
}
fn t(s: &str) -> C {
    C::Text(s.into())
}
fn idv(i: &Id) -> C {
    C::Bytes(unb32(i))
}
fn entries(es: &[Entry]) -> C {
    C::Array(es.iter().map(|e| C::Map(vec![(t("type"), t(&e.kind)), (t("length"), C::Integer(e.len.into())), (t("id"), idv(&e.id))])).collect())
}
pub fn manifest_id(es: &[Entry]) -> Id {
    hash(&cb(&entries(es)))
}
/// bytes of a pack with exactly this manifest and this blob stream (need not agree)
pub fn pack_raw(es: &[Entry], stream: &[u8]) -> (Id, Vec<u8>) {
    let m = cb(&entries(es));
    let mz = zstd::stream::encode_all(&m[..], 1).unwrap();
    let mut o = b"MKBAKPAK1".to_vec();
    o.extend(zstd::stream::encode_all(stream, 1).unwrap());
    o.extend(&mz);
    o.extend((mz.len() as u32).to_be_bytes());
    (hash(&m), o)
}
pub fn entry(kind: &str, b: &[u8]) -> Entry {
    Entry { kind: kind.into(), len: b.len() as u64, id: hash(b) }
}
pub fn pack(blobs: &[(&str, Vec<u8>)]) -> (Id, Vec<u8>, Vec<Entry>) {
    let es: Vec<_> = blobs.iter().map(|(k, b)| entry(k, b)).collect();
    let all: Vec<u8> = blobs.iter().flat_map(|(_, b)| b.clone()).collect();
    let (i, o) = pack_raw(&es, &all);
    (i, o, es)
}
pub fn index(i: &Idx) -> (Id, Vec<u8>) {
    let c = C::Map(vec![
        (t("supersedes"), C::Array(i.sup.iter().map(idv).collect())),
        (t("packs"), C::Map(i.packs.iter().map(|(k, v)| (idv(k), entries(v))).collect())),
    ]);
    let raw = cb(&c);
    let mut o = b"MKBAKIDX1".to_vec();
    o.extend(zstd::stream::encode_all(&raw[..], 1).unwrap());
    (hash(&raw), o)
}
pub fn snapshot(ns: i128, tz: &str, author: &str, tags: &[&str], paths: &[&str], tree: &Id) -> (Id, Vec<u8>) {
    let mut m = vec![
        (t("time"), C::Integer((ns as i64).into())),
        (t("tz"), t(tz)),
        (t("author"), t(author)),
    ];
    if !tags.is_empty() {
        m.push((t("tags"), C::Array(tags.iter().map(|x| t(x)).collect())));
    }
    m.push((t("paths"), C::Array(paths.iter().map(|x| t(x)).collect())));
    m.push((t("tree"), idv(tree)));
    let raw = cb(&C::Map(m));
    let mut o = b"MKBAKSNP2".to_vec();
    o.extend(&raw);
    (hash(&raw), o)
}
/// an empty filesystem repository
pub fn repo(p: &Path, filter: Option<(&str, &str)>, force_cache: bool) {
    let _ = fs::remove_dir_all(p);
    for d in ["packs", "indexes", "snapshots"] {
        fs::create_dir_all(p.join(d)).unwrap();
    }
    let f = filter.map(|(f, u)| format!("filter = {f:?}\nunfilter = {u:?}\n")).unwrap_or_default();
    fs::write(p.join("config.toml"), format!("pack_size = \"9 kB\"\n{f}[backend]\ntype = \"Filesystem\"\nforce_cache = {force_cache}\n")).unwrap();
}
pub fn put(p: &Path, kind: &str, id: &str, b: &[u8]) {
    let d = match kind { "pack" => "packs", "index" => "indexes", _ => "snapshots" };
    fs::write(p.join(d).join(format!("{id}.{kind}")), b).unwrap();
}
pub fn flip(b: &[u8], r: &mut crate::util::Rng) -> (Vec<u8>, String) {
    let mut v = b.to_vec();
    match r.below(6) {
        0 if !v.is_empty() => {
            let n = r.below(v.len() as u64) as usize;
            v.truncate(n);
            (v, format!("truncated to {n} of {}", b.len()))
        }
        1 => {
            let extra = r.range(1, 9) as usize;
            let e = r.bytes(extra);
            v.extend(e);
            (v, format!("{extra} bytes appended"))
        }
        2 if !v.is_empty() => {
            let i = r.below(v.len() as u64) as usize;
            v.remove(i);
            (v, format!("byte {i} of {} removed", b.len()))
        }
        3 => {
            let i = r.below(v.len() as u64 + 1) as usize;
            v.insert(i, r.below(256) as u8);
            (v, format!("byte inserted at {i} of {}", b.len()))
        }
        _ if !v.is_empty() => {
            let i = r.below(v.len() as u64) as usize;
            let m = 1u8 << r.below(8);
            v[i] ^= m;
            (v, format!("byte {i} of {} xor {m}", b.len()))
        }
        _ => (vec![0], "one zero byte".into()),
    }
}
