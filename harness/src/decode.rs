//! Independent reading of a repository: its own parsing of every file format.
use ciborium::value::Value as C;
use sha2::{Digest, Sha224};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::Path;

pub type Id = String;
const ALPHA: &[u8] = b"0123456789abcdefghijklmnopqrstuv";

pub fn b32(b: &[u8]) -> String {
    let mut s = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for x in b {
        acc = (acc << 8) | *x as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            s.push(ALPHA[((acc >> bits) & 31) as usize] as char);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        s.push(ALPHA[((acc << (5 - bits)) & 31) as usize] as char);
    }
    s
}
pub fn hash(b: &[u8]) -> Id {
    if b.len() < 20_000 {
        return b32(&Sha224::digest(b));
    }
    // the same few large contents are hashed again and again, slowly: remember the last (by their very bytes)
    thread_local!(static KNOWN: std::cell::RefCell<Vec<(Vec<u8>, Id)>> = Default::default());
    KNOWN.with_borrow_mut(|k| {
        if let Some(x) = k.iter().find(|x| x.0.len() == b.len() && x.0 == b) {
            return x.1.clone();
        }
        if k.len() >= 64 || k.iter().map(|x| x.0.len()).sum::<usize>() > 200_000_000 {
            k.clear();
        }
        let id = b32(&Sha224::digest(b));
        k.push((b.to_vec(), id.clone()));
        id
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub kind: String,
    pub len: u64,
    pub id: Id,
}
#[derive(Clone, Debug)]
pub struct Pack {
    pub entries: Vec<Entry>,
    pub blobs: Vec<Vec<u8>>,
    pub size: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Idx {
    pub sup: BTreeSet<Id>,
    pub packs: BTreeMap<Id, Vec<Entry>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub time: i128,
    pub tz: String,
    pub author: String,
    pub tags: BTreeSet<String>,
    pub paths: BTreeSet<String>,
    pub tree: Id,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    F(Vec<Id>),
    D(Id),
    L(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: Kind,
    pub meta: String, // canonical text of the metadata
    pub mode: u64,
    pub size: Option<u64>,
    pub mtime: String,
}
pub type Tree = BTreeMap<String, Node>;

#[derive(Clone, Debug, Default)]
pub struct Repo {
    pub packs: BTreeMap<Id, Pack>,
    pub idx: BTreeMap<Id, Idx>,
    pub snaps: BTreeMap<Id, Snap>,
    pub errors: Vec<String>,
    pub files: BTreeMap<String, u64>,
}

fn cbor(b: &[u8]) -> Result<C, String> {
    let mut r = b;
    let v: C = ciborium::from_reader(&mut r).map_err(|e| format!("cbor: {e}"))?;
    if !r.is_empty() {
        return Err("trailing bytes after cbor".into());
    }
    Ok(v)
}
fn get<'a>(m: &'a C, k: &str) -> Result<&'a C, String> {
    for (a, b) in m.as_map().ok_or("not a map")? {
        if a.as_text() == Some(k) {
            return Ok(b);
        }
    }
    Err(format!("no field {k}"))
}
fn gid(c: &C) -> Result<Id, String> {
    let b = c.as_bytes().ok_or("id is not bytes")?;
    if b.len() != 28 {
        return Err("id length".into());
    }
    Ok(b32(b))
}
fn gint(c: &C) -> Result<i128, String> {
    // bignums for nanoseconds
    if let Some(i) = c.as_integer() {
        return Ok(i.into());
    }
    if let C::Tag(t, b) = c {
        let bytes = b.as_bytes().ok_or("bignum")?;
        let mut v: i128 = 0;
        for x in bytes {
            v = v * 256 + *x as i128;
        }
        return Ok(if *t == 3 { -1 - v } else { v });
    }
    Err("not an integer".into())
}
fn gtext(c: &C) -> Result<String, String> {
    Ok(c.as_text().ok_or("not text")?.to_string())
}
fn entries(c: &C) -> Result<Vec<Entry>, String> {
    c.as_array()
        .ok_or("manifest is not an array")?
        .iter()
        .map(|e| Ok(Entry { kind: gtext(get(e, "type")?)?, len: gint(get(e, "length")?)? as u64, id: gid(get(e, "id")?)? }))
        .collect()
}

pub fn pack(bytes: &[u8], name: &str) -> Result<Pack, String> {
    if !bytes.starts_with(b"MKBAKPAK1") || bytes.len() < 13 {
        return Err("bad magic or too short".into());
    }
    let n = bytes.len();
    let ml = u32::from_be_bytes(bytes[n - 4..].try_into().unwrap()) as usize;
    if ml + 13 > n {
        return Err("manifest length".into());
    }
    let mz = &bytes[n - 4 - ml..n - 4];
    let m = zstd::stream::decode_all(mz).map_err(|e| format!("manifest zstd: {e}"))?;
    if hash(&m) != name {
        return Err(format!("manifest hashes to {}, not {name}", hash(&m)));
    }
    let es = entries(&cbor(&m)?)?;
    let body = &bytes[9..n - 4 - ml];
    let all = zstd::stream::decode_all(body).map_err(|e| format!("body zstd: {e}"))?;
    let mut pos = 0;
    let mut blobs = vec![];
    for e in &es {
        let end = pos + e.len as usize;
        if end > all.len() {
            return Err("blob stream shorter than manifest".into());
        }
        let b = all[pos..end].to_vec();
        if hash(&b) != e.id {
            return Err(format!("blob {} does not match its bytes", e.id));
        }
        pos = end;
        blobs.push(b);
    }
    if pos != all.len() {
        return Err("blob stream longer than manifest".into());
    }
    Ok(Pack { entries: es, blobs, size: n as u64 })
}
pub fn index(bytes: &[u8]) -> Result<(Idx, Id), String> {
    if !bytes.starts_with(b"MKBAKIDX1") {
        return Err("bad magic".into());
    }
    let raw = zstd::stream::decode_all(&bytes[9..]).map_err(|e| format!("zstd: {e}"))?;
    let c = cbor(&raw)?;
    let mut i = Idx::default();
    for s in get(&c, "supersedes")?.as_array().ok_or("supersedes")? {
        i.sup.insert(gid(s)?);
    }
    for (k, v) in get(&c, "packs")?.as_map().ok_or("packs")? {
        i.packs.insert(gid(k)?, entries(v)?);
    }
    Ok((i, hash(&raw)))
}
pub fn snap(bytes: &[u8]) -> Result<(Snap, Id), String> {
    if !bytes.starts_with(b"MKBAKSNP2") {
        return Err("bad magic".into());
    }
    let raw = &bytes[9..];
    let c = cbor(raw)?;
    let strs = |c: Result<&C, String>| -> Result<BTreeSet<String>, String> {
        match c {
            Ok(c) => c.as_array().ok_or("not an array")?.iter().map(gtext).collect(),
            Err(_) => Ok(BTreeSet::new()),
        }
    };
    Ok((
        Snap {
            time: gint(get(&c, "time")?)?,
            tz: format!("{:?}", get(&c, "tz")?),
            author: gtext(get(&c, "author")?)?,
            tags: strs(get(&c, "tags"))?,
            paths: strs(Ok(get(&c, "paths")?))?,
            tree: gid(get(&c, "tree")?)?,
        },
        hash(raw),
    ))
}
pub fn tree(bytes: &[u8]) -> Result<Tree, String> {
    let c = cbor(bytes)?;
    let mut t = Tree::new();
    for (k, v) in c.as_map().ok_or("tree is not a map")? {
        let meta = get(v, "metadata")?;
        let kind = if let Ok(ch) = get(v, "chunks") {
            Kind::F(ch.as_array().ok_or("chunks")?.iter().map(gid).collect::<Result<_, _>>()?)
        } else if let Ok(s) = get(v, "tree") {
            Kind::D(gid(s)?)
        } else {
            Kind::L(gtext(get(v, "symlink")?)?)
        };
        t.insert(
            gtext(k)?,
            Node {
                kind,
                mode: get(meta, "mode").and_then(gint).unwrap_or(0) as u64,
                size: get(meta, "size").ok().and_then(|s| gint(s).ok()).map(|x| x as u64),
                mtime: get(meta, "mtime").map(|m| format!("{m:?}")).unwrap_or_default(),
                meta: format!("{meta:?}"),
            },
        );
    }
    Ok(t)
}

pub fn read(p: &Path) -> Vec<u8> {
    let mut v = vec![];
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_end(&mut v);
    }
    v
}

impl Repo {
    pub fn load(root: &str) -> Repo {
        let mut r = Repo::default();
        for (dir, ext) in [("packs", "pack"), ("indexes", "index"), ("snapshots", "snapshot")] {
            let d = Path::new(root).join(dir);
            let rd = match std::fs::read_dir(&d) {
                Ok(x) => x,
                Err(_) => continue,
            };
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                let b = read(&e.path());
                r.files.insert(format!("{dir}/{n}"), b.len() as u64);
                let id = match n.strip_suffix(&format!(".{ext}")) {
                    Some(i) => i.to_string(),
                    None => continue, // partial files are checked by the caller
                };
                let res: Result<(), String> = (|| {
                    match dir {
                        "packs" => {
                            let p = pack(&b, &id)?;
                            r.packs.insert(id.clone(), p);
                        }
                        "indexes" => {
                            let (i, h) = index(&b)?;
                            if h != id {
                                return Err(format!("hashes to {h}"));
                            }
                            r.idx.insert(id.clone(), i);
                        }
                        _ => {
                            let (s, h) = snap(&b)?;
                            if h != id {
                                return Err(format!("hashes to {h}"));
                            }
                            r.snaps.insert(id.clone(), s);
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = res {
                    r.errors.push(format!("{dir}/{n}: {e}"));
                }
            }
        }
        r
    }
    pub fn superseded(&self) -> BTreeSet<Id> {
        self.idx.values().flat_map(|i| i.sup.iter().cloned()).collect()
    }
    pub fn live_idx(&self) -> Vec<&Id> {
        let s = self.superseded();
        self.idx.keys().filter(|k| !s.contains(*k)).collect()
    }
    /// packs listed by live indexes
    pub fn live(&self) -> BTreeMap<Id, Vec<Entry>> {
        let mut m = BTreeMap::new();
        for i in self.live_idx() {
            for (k, v) in &self.idx[i].packs {
                m.insert(k.clone(), v.clone());
            }
        }
        m
    }
    /// blob -> (kind, bytes), through live indexes and packs that are present
    pub fn blobs(&self) -> BTreeMap<Id, (String, &Vec<u8>)> {
        let mut m = BTreeMap::new();
        for (p, _) in self.live() {
            if let Some(pk) = self.packs.get(&p) {
                for (e, b) in pk.entries.iter().zip(pk.blobs.iter()) {
                    m.insert(e.id.clone(), (e.kind.clone(), b));
                }
            }
        }
        m
    }
    pub fn empty_tree() -> Id {
        hash(&[0xa0])
    }
    pub fn read_tree(&self, blobs: &BTreeMap<Id, (String, &Vec<u8>)>, id: &Id) -> Result<Tree, String> {
        match blobs.get(id) {
            Some((k, b)) if k == "tree" => tree(b).map_err(|e| format!("tree {id}: {e}")),
            Some((k, _)) => Err(format!("blob {id} is a {k}, wanted a tree")),
            None if *id == Self::empty_tree() => Ok(Tree::new()),
            None => Err(format!("tree {id} is not stored")),
        }
    }
    /// every blob reachable from the tree (trees and chunks)
    pub fn reach(&self, blobs: &BTreeMap<Id, (String, &Vec<u8>)>, root: &Id, out: &mut BTreeSet<Id>) -> Result<(), String> {
        if !out.insert(root.clone()) {
            return Ok(());
        }
        for (n, node) in self.read_tree(blobs, root)? {
            match node.kind {
                Kind::F(cs) => {
                    for c in cs {
                        match blobs.get(&c) {
                            Some((k, _)) if k == "chunk" => {}
                            Some((k, _)) => return Err(format!("{n}: {c} is a {k}, wanted a chunk")),
                            None => return Err(format!("{n}: chunk {c} is not stored")),
                        }
                        out.insert(c);
                    }
                }
                Kind::D(d) => self.reach(blobs, &d, out)?,
                Kind::L(_) => {}
            }
        }
        Ok(())
    }
    /// path -> (node, file bytes)
    pub fn expand(&self, root: &Id) -> Result<BTreeMap<String, (Node, Vec<u8>)>, String> {
        let blobs = self.blobs();
        let mut out = BTreeMap::new();
        self.expand_in(&blobs, root, "", &mut out)?;
        Ok(out)
    }
    fn expand_in(&self, blobs: &BTreeMap<Id, (String, &Vec<u8>)>, id: &Id, pre: &str, out: &mut BTreeMap<String, (Node, Vec<u8>)>) -> Result<(), String> {
        for (n, node) in self.read_tree(blobs, id)? {
            let p = if pre.is_empty() { n.clone() } else { format!("{pre}/{n}") };
            let mut bytes = vec![];
            if let Kind::F(cs) = &node.kind {
                for c in cs {
                    let (k, b) = blobs.get(c).ok_or(format!("{p}: chunk {c} is not stored"))?;
                    if k != "chunk" {
                        return Err(format!("{p}: {c} is a {k}"));
                    }
                    bytes.extend_from_slice(b);
                }
            }
            if let Kind::D(d) = &node.kind {
                self.expand_in(blobs, d, &p, out)?;
            }
            out.insert(p, (node, bytes));
        }
        Ok(())
    }
    /// structural problems: (properties, text)
    pub fn problems(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut v = vec![];
        for e in &self.errors {
            let p = if e.starts_with("packs") { vec!["C01", "C26"] } else { vec!["C26", "C06"] };
            v.push((p, format!("unreadable object {e}")));
        }
        let sup = self.superseded();
        for (i, ix) in &self.idx {
            if sup.contains(i) {
                continue;
            }
            for (p, es) in &ix.packs {
                match self.packs.get(p) {
                    None => v.push((vec!["C06", "C11", "C09"], format!("index {i} lists pack {p}, which is not present"))),
                    Some(pk) if pk.entries != *es => v.push((vec!["C01", "C30", "C06"], format!("index {i} has another manifest for pack {p}"))),
                    _ => {}
                }
            }
        }
        let blobs = self.blobs();
        for (s, sn) in &self.snaps {
            let mut out = BTreeSet::new();
            if let Err(e) = self.reach(&blobs, &sn.tree, &mut out) {
                v.push((vec!["C06", "C09", "C11", "C13", "C30", "C12"], format!("snapshot {s}: {e}")));
            }
        }
        v
    }
    pub fn duplicates(&self) -> Vec<String> {
        let mut seen: BTreeMap<Id, Id> = BTreeMap::new();
        let mut d = vec![];
        for (p, es) in self.live() {
            for e in es {
                if let Some(o) = seen.insert(e.id.clone(), p.clone()) {
                    d.push(format!("blob {} is in packs {o} and {p}", e.id));
                }
            }
        }
        d
    }
    pub fn reachable(&self) -> Result<BTreeSet<Id>, String> {
        let blobs = self.blobs();
        let mut out = BTreeSet::new();
        for s in self.snaps.values() {
            self.reach(&blobs, &s.tree, &mut out)?;
        }
        Ok(out)
    }
}
