//! C14 C27 C29 C32: forests, their sizes, their differences, and entry kinds.
use backpak::{backend, blob, diff, hashing::ObjectId, index, pack, tree};
use bpharness::{decode, enc, util::*};
use camino::{Utf8Path, Utf8PathBuf};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::Arc;
use tree::{Forest, Node, NodeContents, NodeMetadata, Tree};

fn oid(s: &str) -> ObjectId {
    ObjectId::from_str(s).unwrap()
}
fn meta(r: &mut Rng, kind: u32) -> NodeMetadata {
    let t = |r: &mut Rng| jiff::Timestamp::new(1000 + r.below(3) as i64, r.below(2) as i32).unwrap();
    NodeMetadata::Posix(tree::PosixMetadata {
        mode: kind | *r.pick(&[0o644u32, 0o600]),
        size: if kind == 0o100000 { Some(r.below(2)) } else { None },
        user_id: r.below(2) as u32,
        group_id: r.below(2) as u32,
        access_time: t(r),
        modify_time: t(r),
    })
}
const NAMES: &[&str] = &["a", "b", "c", "d", "e.txt", "f"];
struct World {
    trees: Vec<(ObjectId, Arc<Tree>)>,
    chunks: Vec<(ObjectId, u32)>,
}
fn rand_node(r: &mut Rng, w: &World) -> Node {
    match r.below(6) {
        0..=1 if !w.trees.is_empty() => Node { contents: NodeContents::Directory { subtree: r.pick(&w.trees).0 }, metadata: meta(r, 0o040000) },
        2 => Node { contents: NodeContents::Symlink { target: format!("t{}", r.below(3)).into() }, metadata: meta(r, 0o120000) },
        _ => Node { contents: NodeContents::File { chunks: (0..r.below(4)).map(|_| r.pick(&w.chunks).0).collect() }, metadata: meta(r, 0o100000) },
    }
}
fn world(r: &mut Rng, n: u64) -> World {
    let mut w = World { trees: vec![], chunks: (0..6).map(|i| (ObjectId::hash(&[i as u8, r.below(200) as u8]), r.range(1, 5000) as u32)).collect() };
    w.trees.push((*tree::EMPTY_ID, Arc::new(Tree::new())));
    for _ in 0..n {
        let mut t = if r.chance(1, 2) { (**r.pick(&w.trees).1.clone().pipe()).clone() } else { Tree::new() };
        for _ in 0..r.below(4) {
            let name = Utf8PathBuf::from(*r.pick(NAMES));
            if r.chance(1, 4) {
                t.remove(&name);
            } else if let (Some(x), true) = (t.get_mut(&name), r.chance(1, 3)) {
                let k = match x.contents { NodeContents::File { .. } => 0o100000, NodeContents::Directory { .. } => 0o040000, _ => 0o120000 };
                x.metadata = meta(r, k);
            } else {
                let nd = rand_node(r, &w);
                t.insert(name, nd);
            }
        }
        let id = tree::serialize_and_hash(&t).unwrap().1;
        if !w.trees.iter().any(|x| x.0 == id) { w.trees.push((id, Arc::new(t))); }
    }
    w
}
trait Pipe { fn pipe(&self) -> &Self { self } }
impl<T> Pipe for T {}

fn reach(w: &World, root: &ObjectId, out: &mut BTreeSet<ObjectId>) {
    if !out.insert(*root) { return; }
    if let Some((_, t)) = w.trees.iter().find(|x| x.0 == *root) {
        for n in t.values() { if let NodeContents::Directory { subtree } = &n.contents { reach(w, subtree, out); } }
    }
}
fn expand(f: &Forest, id: &ObjectId, at: &str, out: &mut BTreeMap<String, Node>) {
    for (k, n) in f[id].iter() {
        let p = if at.is_empty() { k.to_string() } else { format!("{at}/{k}") };
        if let NodeContents::Directory { subtree } = &n.contents { expand(f, subtree, &p, out); }
        out.insert(p, n.clone());
    }
}
fn kind(n: &Node) -> u8 {
    match n.contents { NodeContents::File { .. } => 0, NodeContents::Directory { .. } => 1, _ => 2 }
}
#[derive(Default)]
struct Rec { ev: Vec<(String, String)>, own_type: bool }
impl diff::Callbacks for Rec {
    fn node_added(&mut self, p: &Utf8Path, n: &Node, f: &Forest) -> anyhow::Result<()> {
        self.ev.push((p.to_string(), "added".into()));
        if let NodeContents::Directory { subtree } = &n.contents { if !f.contains_key(subtree) { self.ev.push((p.to_string(), "wrong forest".into())); } }
        Ok(())
    }
    fn node_removed(&mut self, p: &Utf8Path, n: &Node, f: &Forest) -> anyhow::Result<()> {
        self.ev.push((p.to_string(), "removed".into()));
        if let NodeContents::Directory { subtree } = &n.contents { if !f.contains_key(subtree) { self.ev.push((p.to_string(), "wrong forest".into())); } }
        Ok(())
    }
    fn contents_changed(&mut self, p: &Utf8Path, a: &Node, b: &Node) -> anyhow::Result<()> {
        self.ev.push((p.to_string(), if a.contents != b.contents { "contents" } else { "contents (equal)" }.into()));
        Ok(())
    }
    fn metadata_changed(&mut self, p: &Utf8Path, a: &Node, b: &Node) -> anyhow::Result<()> {
        self.ev.push((p.to_string(), if a.metadata != b.metadata { "metadata" } else { "metadata (equal)" }.into()));
        Ok(())
    }
    fn type_changed(&mut self, p: &Utf8Path, a: &Node, af: &Forest, b: &Node, bf: &Forest) -> anyhow::Result<()> {
        if self.own_type { self.ev.push((p.to_string(), "type".into())); return Ok(()); }
        self.node_removed(p, a, af)?;
        self.node_added(p, b, bf)
    }
}
fn want_diff(fa: &Forest, a: &ObjectId, fb: &Forest, b: &ObjectId, at: &str, own: bool, out: &mut Vec<(String, String)>) {
    let (ta, tb) = (&fa[a], &fb[b]);
    let names: BTreeSet<_> = ta.keys().chain(tb.keys()).collect();
    for n in names {
        let p = if at.is_empty() { n.to_string() } else { format!("{at}/{n}") };
        match (ta.get(n), tb.get(n)) {
            (None, Some(_)) => out.push((p, "added".into())),
            (Some(_), None) => out.push((p, "removed".into())),
            (Some(x), Some(y)) if kind(x) != kind(y) => {
                if own { out.push((p, "type".into())) } else { out.push((p.clone(), "removed".into())); out.push((p, "added".into())); }
            }
            (Some(x), Some(y)) => {
                if let (NodeContents::Directory { subtree: s }, NodeContents::Directory { subtree: t }) = (&x.contents, &y.contents) {
                    if s != t { want_diff(fa, s, fb, t, &p, own, out); }
                    if x.metadata != y.metadata { out.push((p, "metadata".into())); }
                } else if x.contents != y.contents {
                    out.push((p, "contents".into()));
                } else if x.metadata != y.metadata {
                    out.push((p, "metadata".into()));
                }
            }
            _ => {}
        }
    }
}
fn sub(w: &World, id: &ObjectId) -> Forest {
    let mut s = BTreeSet::new();
    reach(w, id, &mut s);
    s.iter().map(|i| (*i, w.trees.iter().find(|x| x.0 == *i).unwrap().1.clone())).collect()
}

fn c14(c: &mut Ctx, r: &mut Rng) {
    let n = r.range(2, 14);
    let w = world(r, n);
    let (a, b) = (r.pick(&w.trees).0, r.pick(&w.trees).0);
    let (fa, fb) = (sub(&w, &a), sub(&w, &b));
    let own = r.chance(1, 2);
    let base = if r.chance(1, 3) { "top" } else { "" };
    let mut want = vec![];
    want_diff(&fa, &a, &fb, &b, base, own, &mut want);
    let mut rec = Rec { own_type: own, ..Default::default() };
    let res = diff::compare_trees((&a, &fa), (&b, &fb), Utf8Path::new(base), &mut rec);
    let rp = || {
        let (mut ea, mut eb) = (BTreeMap::new(), BTreeMap::new());
        expand(&fa, &a, base, &mut ea);
        expand(&fb, &b, base, &mut eb);
        json!({"old": ea.iter().map(|(p, n)| format!("{p}: {:?} {:?}", n.contents, n.metadata)).collect::<Vec<_>>(), "new": eb.iter().map(|(p, n)| format!("{p}: {:?} {:?}", n.contents, n.metadata)).collect::<Vec<_>>()})
    };
    let mut got = rec.ev.clone();
    got.sort();
    want.sort();
    if res.is_err() || got != want {
        let v = rp();
        c.violate(&["C14"], format!("the comparison reports {got:?}, the trees differ at {want:?}"), v);
    }
    if c.evals < 1 { let v = rp(); c.sample(v); }
    c.case(&(a.to_string(), b.to_string(), own), !want.is_empty());
    // a tree against itself
    let mut rec = Rec::default();
    if diff::compare_trees((&a, &fa), (&a, &fa), Utf8Path::new(""), &mut rec).is_err() || !rec.ev.is_empty() {
        c.violate(&["C14"], format!("a tree compared with itself differs: {:?}", rec.ev), rp());
    }
    // and against nothing
    let (nid, nf) = diff::null_forest();
    let mut rec = Rec::default();
    let mut want: Vec<_> = fa[&a].keys().map(|k| (k.to_string(), "added".to_string())).collect();
    want.sort();
    let ok = diff::compare_trees((nid, nf), (&a, &fa), Utf8Path::new(""), &mut rec).is_ok();
    rec.ev.sort();
    if !ok || rec.ev != want { c.violate(&["C14"], format!("against nothing: {:?}, expected {want:?}", rec.ev), rp()); }
}

fn c27_29(c: &mut Ctx, r: &mut Rng, dir: &std::path::Path) {
    let n = r.range(1, 16);
    let mut w = world(r, n);
    if c.evals < 4 || r.chance(1, 40) {
        // a deep directory
        let mut low = r.pick(&w.trees).0;
        let top = if r.chance(1, 4) { 1200 } else { 300 };
        for _ in 0..r.range(60, top) {
            let mut t = Tree::new();
            t.insert(Utf8PathBuf::from("d"), Node { contents: NodeContents::Directory { subtree: low }, metadata: meta(r, 0o040000) });
            low = tree::serialize_and_hash(&t).unwrap().1;
            w.trees.push((low, Arc::new(t)));
        }
    }
    let w = w;
    // ---- stored in packs, some trees possibly missing
    enc::repo(dir, None, false);
    let mut idx = index::Index::default();
    let missing: Option<ObjectId> = if r.chance(1, 3) { Some(r.pick(&w.trees).0) } else { None };
    let mut left: Vec<_> = w.trees.iter().filter(|t| t.0 != *tree::EMPTY_ID && Some(t.0) != missing).cloned().collect();
    r.shuffle(&mut left);
    let mut sizes: BTreeMap<ObjectId, u32> = BTreeMap::new();
    while !left.is_empty() {
        let k = r.range(1, left.len() as u64) as usize;
        let some: Vec<_> = left.drain(..k).collect();
        let blobs: Vec<(&str, Vec<u8>)> = some.iter().map(|(_, t)| ("tree", tree::serialize_and_hash(t).unwrap().0)).collect();
        let (id, f, es) = enc::pack(&blobs);
        enc::put(dir, "pack", &id, &f);
        for e in &es { sizes.insert(oid(&e.id), e.len as u32); }
        idx.packs.insert(oid(&id), es.iter().map(|e| pack::PackManifestEntry { blob_type: blob::Type::Tree, length: e.len as u32, id: oid(&e.id) }).collect());
    }
    let map = index::blob_to_pack_map(&idx).unwrap();
    let p = Utf8PathBuf::from_path_buf(dir.to_path_buf()).unwrap();
    let be = backend::open(&p, byte_unit::Byte::GIBIBYTE, backend::CacheBehavior::Normal).unwrap().1;
    let mut cache = tree::Cache::new(&idx, &map, &be);
    let desc = |root: &ObjectId| json!({"root": root.to_string(), "trees": w.trees.iter().map(|(i, t)| format!("{}: {}", &i.to_string()[..6], t.iter().map(|(k, n)| match &n.contents { NodeContents::Directory { subtree } => format!("{k}/->{}", &subtree.to_string()[..6]), NodeContents::File { chunks } => format!("{k}[{}]", chunks.iter().map(|c| c.to_string()[..4].to_string()).collect::<Vec<_>>().join(" ")), _ => format!("{k}@") }).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>(), "missing": missing.map(|m| m.to_string())});
    let mut roots: Vec<_> = (0..3).map(|_| r.pick(&w.trees).0).collect();
    roots.push(w.trees.last().unwrap().0);
    for root in &roots {
        let mut want = BTreeSet::new();
        reach(&w, root, &mut want);
        let lost = missing.map(|m| m != *tree::EMPTY_ID && want.contains(&m)).unwrap_or(false);
        match tree::forest_from_root(root, &mut cache) {
            Err(e) if !lost => c.violate(&["C29"], format!("loading the trees of a snapshot fails: {e:#}"), desc(root)),
            Ok(_) if lost => c.violate(&["C29"], "loading the trees succeeds although one is missing".into(), desc(root)),
            Ok(f) => {
                let got: BTreeSet<_> = f.keys().cloned().collect();
                if got != want { c.violate(&["C29"], format!("{} trees are loaded, {} are reachable", got.len(), want.len()), desc(root)); }
                if f.iter().any(|(i, t)| tree::serialize_and_hash(t).unwrap().1 != *i) { c.violate(&["C29", "C03"], "a tree is loaded under an id that is not its own".into(), desc(root)); }
            }
            _ => {}
        }
        c.case(&(root.to_string(), want.len()), want.len() > 2);
    }
    // ---- sizes
    let mut smap = rustc_hash::FxHashMap::default();
    for (k, v) in &sizes { smap.insert(*k, *v); }
    for (k, v) in &w.chunks { smap.insert(*k, *v); }
    let size = |i: &ObjectId| smap.get(i).copied().unwrap_or(0) as u64;
    let mut visited = Default::default();
    let mut seen: BTreeSet<ObjectId> = BTreeSet::new();
    for root in &roots {
        let f = sub(&w, root);
        if missing.map(|m| m != *tree::EMPTY_ID && f.contains_key(&m)).unwrap_or(false) { continue; }
        let mut mine: BTreeSet<ObjectId> = f.keys().cloned().collect();
        for t in f.values() { for n in t.values() { if let NodeContents::File { chunks } = &n.contents { mine.extend(chunks); } } }
        fn walk(f: &Forest, id: &ObjectId, at: &str, size: &dyn Fn(&ObjectId) -> u64, tot: &mut (u64, u64), files: &mut BTreeMap<String, u64>) {
            tot.0 += size(id);
            for (k, n) in f[id].iter() {
                let p = if at.is_empty() { k.to_string() } else { format!("{at}/{k}") };
                match &n.contents {
                    NodeContents::Directory { subtree } => walk(f, subtree, &p, size, tot, files),
                    NodeContents::File { chunks } => { let s = chunks.iter().map(|c| size(c)).sum::<u64>(); tot.1 += s; files.insert(p, s); }
                    _ => {}
                }
            }
        }
        let (mut tot, mut files) = ((0, 0), BTreeMap::new());
        walk(&f, root, "", &size, &mut tot, &mut files);
        let intro: u64 = mine.difference(&seen).map(size).sum();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree::forest_sizes(root, &f, &smap, &mut visited))) {
            Ok(Ok(s)) => {
                let per: BTreeMap<String, u64> = s.per_file.iter().map(|(p, z)| (p.to_string(), z.introduced + z.reused)).collect();
                if s.introduced != intro { c.violate(&["C27"], format!("{} bytes are reported as introduced, {intro} were met for the first time", s.introduced), desc(root)); }
                else if s.tree_bytes + s.chunk_bytes != s.introduced + s.reused { c.violate(&["C27"], "tree and file bytes are not introduced plus reused".into(), desc(root)); }
                else if (s.tree_bytes, s.chunk_bytes) != tot { c.violate(&["C27"], format!("tree and file bytes are {:?}, {tot:?} were walked", (s.tree_bytes, s.chunk_bytes)), desc(root)); }
                else if per != files { c.violate(&["C27"], format!("per-file sizes are {per:?}, expected {files:?}"), desc(root)); }
            }
            Ok(Err(e)) => c.violate(&["C27"], format!("sizes cannot be computed: {e:#}"), desc(root)),
            Err(_) => c.violate(&["C27"], "computing sizes panics".into(), desc(root)),
        }
        seen.extend(mine);
        c.case(&(root.to_string(), "sizes"), f.len() > 1);
    }
    if decode::Repo::empty_tree() != tree::EMPTY_ID.to_string() { c.violate(&["C29"], "EMPTY_ID is not the id of the empty tree".into(), json!({})); }
}

fn c32(c: &mut Ctx, r: &mut Rng) {
    for mode in 0..(1u32 << 16) {
        let m = NodeMetadata::Posix(tree::PosixMetadata { mode, size: None, user_id: 0, group_id: 0, access_time: jiff::Timestamp::UNIX_EPOCH, modify_time: jiff::Timestamp::UNIX_EPOCH });
        let want = match mode >> 12 { 8 => tree::NodeType::File, 4 => tree::NodeType::Directory, 10 => tree::NodeType::Symlink, k => tree::NodeType::Unsupported(k << 12) };
        let got = m.kind();
        let same = match (&got, &want) { (tree::NodeType::Unsupported(_), tree::NodeType::Unsupported(_)) => true, _ => got == want };
        if !same { c.violate(&["C32"], format!("mode {mode:o} is classified as {got:?}"), json!({"mode": mode})); return; }
    }
    c.case(&"all 65536 modes", true);
    let ts = |n: u64| jiff::Timestamp::new(5 + n as i64 / 2, (n % 2) as i32).unwrap();
    let pm = |x: [u64; 6]| NodeMetadata::Posix(tree::PosixMetadata { user_id: x[0] as u32, group_id: x[1] as u32, mode: 0o100600 | x[2] as u32, modify_time: ts(x[3]), access_time: ts(x[4]), size: if x[5] == 0 { None } else { Some(x[5]) } });
    let mut n = 0;
    for code in 0..4096u64 {
        let v: Vec<u64> = (0..6).map(|k| (code >> (2 * k)) & 3).collect();
        let base: [u64; 6] = std::array::from_fn(|_| r.below(4));
        let other: [u64; 6] = std::array::from_fn(|k| (base[k] + v[k]) % 4);
        let want = if v.iter().all(|x| *x == 0) { None } else if v[0] != 0 || v[1] != 0 { Some('O') } else if v[2] != 0 { Some('P') } else if v[3] != 0 { Some('T') } else if v[4] != 0 { Some('A') } else { Some('M') };
        let got = tree::meta_diff_char(&pm(base), &pm(other));
        n += 1;
        if got != want { c.violate(&["C32"], format!("{:?} against {:?} is flagged {got:?}, expected {want:?}", pm(base), pm(other)), json!({"left": base, "right": other})); return; }
    }
    for a in 0..64u32 {
        let wm = |at: u32, s: u64| NodeMetadata::Windows(tree::WindowsMetadata { attributes: at, size: Some(s), creation_time: None, access_time: None, write_time: None });
        let at = r.below(1 << 16) as u32;
        let want = if at & 0x400 != 0 { tree::NodeType::Symlink } else if at & 0x10 != 0 { tree::NodeType::Directory } else { tree::NodeType::File };
        if wm(at, 1).kind() != want { c.violate(&["C32"], format!("attributes {at:x} are classified as {:?}", wm(at, 1).kind()), json!({"attributes": at})); }
        for (x, y) in [(wm(a, 1), wm(a, 1)), (wm(a, 1), wm(a, 2)), (wm(a, 1), wm(a + 1, 1)), (wm(a, 1), pm([0; 6])), (pm([0; 6]), wm(a, 1))] {
            if tree::meta_diff_char(&x, &y).is_some() != (x != y) { c.violate(&["C32"], format!("{x:?} against {y:?} is flagged {:?}", tree::meta_diff_char(&x, &y)), json!({})); }
        }
    }
    c.count("metadata pairs", n);
    c.case(&("4096 patterns of differences", c.evals), true);
}

fn run(c: &mut Ctx) {
    c.rule = "random directory graphs with shared subtrees stored in random packs; pairs of related trees; all file modes and all patterns of metadata differences; nontrivial if the trees differ or more than two are reachable".into();
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::new(c.seed);
    let dir = PathBuf::from(&c.work).join("r");
    let mut n = 0u64;
    while c.time_left() && (c.thorough || n < 3000) {
        let k = match c.prop.as_str() { "C14" => 0, "C27" | "C29" => 1, "C32" => 2, _ => n % 3 };
        match if n % 11 == 10 { r.below(2) } else { k } { 0 => c14(c, &mut r), 1 => c27_29(c, &mut r, &dir), _ => c32(c, &mut r) }
        n += 1;
    }
}
fn main() {
    bpharness::main_of(run)
}
