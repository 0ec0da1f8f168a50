//! Random histories of real commands, each state read back independently.
use crate::cli::*;
use crate::enc;
use crate::decode::{self, Kind, Node, Repo};
use crate::fsgen::{self, Ent, FsTree};
use crate::util::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

pub type Exp = BTreeMap<String, String>;
/// canonical text of an expansion: kind, metadata and content hash per path
pub fn canon(e: &BTreeMap<String, (Node, Vec<u8>)>) -> Exp {
    e.iter()
        .map(|(p, (n, b))| {
            let k = match &n.kind {
                Kind::F(_) => format!("F {}", decode::hash(b)),
                Kind::D(_) => "D".to_string(),
                Kind::L(t) => format!("L {t}"),
            };
            (p.clone(), format!("{k} | {}", n.meta))
        })
        .collect()
}
/// does the snapshot's expansion below `top` equal what is on disk?
pub fn against_fs(exp: &BTreeMap<String, (Node, Vec<u8>)>, top: &str, t: &FsTree) -> Result<(), String> {
    let mut want = BTreeMap::new();
    for (p, n) in t {
        want.insert(format!("{top}/{p}"), n);
    }
    let got: BTreeSet<_> = exp.keys().filter(|k| k.starts_with(&format!("{top}/"))).cloned().collect();
    for (p, n) in &want {
        let (g, bytes) = exp.get(p).ok_or(format!("{p} is missing from the snapshot"))?;
        match (&g.kind, &n.ent) {
            (Kind::F(_), Ent::F(b)) => {
                if b != bytes {
                    return Err(format!("{p}: contents differ ({} bytes stored, {} on disk)", bytes.len(), b.len()));
                }
                if g.size != Some(b.len() as u64) {
                    return Err(format!("{p}: recorded size {:?}, on disk {}", g.size, b.len()));
                }
            }
            (Kind::D(_), Ent::D) => {}
            (Kind::L(a), Ent::L(b)) if a == b => {}
            (a, b) => return Err(format!("{p}: recorded {a:?}, on disk {b:?}")),
        }
        if g.mode != n.mode as u64 {
            return Err(format!("{p}: recorded mode {:o}, on disk {:o}", g.mode, n.mode));
        }
    }
    for g in got {
        if !want.contains_key(&g) {
            return Err(format!("{g} is in the snapshot but not on disk"));
        }
    }
    Ok(())
}

pub struct H {
    pub r: Rng,
    pub dir: PathBuf,
    pub a: PathBuf,
    pub b: PathBuf,
    pub cli: Cli,
    pub src: Vec<PathBuf>,
    pub clock: i64,
    pub log: Vec<String>,
    pub known: [BTreeMap<String, (decode::Snap, Exp)>; 2],
    pub big: bool,
    pub stop: bool,
    pub n: u64,
}

pub fn ensure_dir(p: &Path) {
    let _ = fs::create_dir_all(p);
}

impl H {
    pub fn new(c: &Ctx, n: u64) -> H {
        let dir = PathBuf::from(&c.work).join(format!("h{n}"));
        ensure_dir(&dir);
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(n));
        let cli = Cli::new(&c.bin, &dir.join("cwd"));
        let mut h = H {
            a: dir.join("A"),
            b: dir.join("B"),
            src: vec![dir.join("src/one"), dir.join("src/two"), dir.join("src/th.d")],
            dir,
            cli,
            clock: 1_600_000_000,
            log: vec![],
            known: Default::default(),
            big: if c.prop == "C05" { n < 12 } else { r.chance(1, 4) },
            stop: false,
            n,
            r: r.clone(),
        };
        let ps = *h.r.pick(&["2kB", "9kB", "40kB", "1MB", "12MB"]);
        let filt = if h.r.chance(1, 6) { Some(("gzip -1", "gzip -d")) } else { None };
        let o = init_repo(&h.cli, &h.a, ps, filt);
        let o2 = init_repo(&h.cli, &h.b, "9kB", None);
        h.log.push(format!("init pack_size={ps} filter={filt:?} -> {} {}", o.code, o2.code));
        if filt.is_some() {
            // the decoder reads plain files; a filtered repository is read through the CLI scenario "filters"
            let p = h.a.join("config.toml");
            let s: String = fs::read_to_string(&p).unwrap().lines().filter(|l| !l.starts_with("filter") && !l.starts_with("unfilter")).map(|l| format!("{l}\n")).collect();
            fs::write(&p, s).unwrap();
        }
        for s in h.src.clone() {
            fsgen::gen_dir(&s, &mut h.r, 2, &mut h.clock, h.big);
        }
        if h.big {
            let b = fsgen::content(1 + h.r.below(2), 4_500_000);
            fsgen::write_file(&h.src[0].join("large"), &b, &mut h.r, &mut h.clock);
        }
        h
    }
    pub fn bad(&mut self, c: &mut Ctx, props: &[&str], what: String) {
        self.stop = true;
        let l: Vec<_> = self.log.iter().rev().take(60).rev().cloned().collect();
        c.violate(props, what, json!({"history": l, "seed": c.seed, "history_number": self.n, "how": format!("bpharness history --seed {} (history {})", c.seed, self.n)}));
    }
    pub fn repo(&self, w: usize) -> PathBuf {
        if w == 0 { self.a.clone() } else { self.b.clone() }
    }
    pub fn run(&mut self, w: usize, args: &[&str]) -> Out {
        let o = self.cli.run(&self.repo(w), args);
        self.log.push(format!("backpak -r {} {} -> {}", if w == 0 { "A" } else { "B" }, args.join(" ").replace(&*self.dir.to_string_lossy(), ""), o.code));
        if !o.ok() {
            let tail: String = o.err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" / ");
            self.log.push(format!("   stderr: {tail}"));
        }
        o
    }
    /// the whole-state checks after any completed command on repository `w`
    pub fn state(&mut self, c: &mut Ctx, w: usize, last: &str, lastprops: &[&str]) -> Repo {
        let r = Repo::load(&self.repo(w).to_string_lossy());
        if let Some((p, t)) = r.problems().into_iter().next() {
            let mut ps = lastprops.to_vec();
            ps.extend(p);
            self.bad(c, &ps, format!("after {last}: {t}"));
            return r;
        }
        for k in r.files.keys() {
            if !(k.ends_with(".pack") || k.ends_with(".index") || k.ends_with(".snapshot")) {
                self.bad(c, &["C26"], format!("after {last}: stray file {k}"));
            }
        }
        if let Some(d) = r.duplicates().first() {
            self.bad(c, &["C05", "C12"], format!("after {last}: {d}"));
        }
        if self.cli.cwd.join("backpak-wip.index").exists() || fs::read_dir(&self.cli.cwd).unwrap().count() > 0 {
            let names: Vec<_> = fs::read_dir(&self.cli.cwd).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
            self.bad(c, &["C12", "C26"], format!("after {last} completed: left over in the working directory: {names:?}"));
        }
        let known = self.known[w].clone();
        let ids: BTreeSet<_> = r.snaps.keys().cloned().collect();
        let want: BTreeSet<_> = known.keys().cloned().collect();
        if ids != want {
            let mut ps = lastprops.to_vec();
            ps.push("C19");
            self.bad(c, &ps, format!("after {last}: snapshots are {ids:?}, expected {want:?}"));
            return r;
        }
        for (id, (s, e)) in known {
            let now = r.expand(&s.tree).map(|x| canon(&x));
            if now.as_ref() != Ok(&e) {
                let mut ps = lastprops.to_vec();
                ps.extend(["C09", "C02"]);
                self.bad(c, &ps, format!("after {last}: snapshot {id} no longer has its contents: {}", match now { Err(x) => x, Ok(n) => first_diff(&e, &n) }));
                return r;
            }
        }
        r
    }
    pub fn new_snaps(&self, r: &Repo, w: usize) -> Vec<String> {
        r.snaps.keys().filter(|k| !self.known[w].contains_key(*k)).cloned().collect()
    }
    pub fn learn(&mut self, r: &Repo, w: usize) -> Result<(), String> {
        for id in self.new_snaps(r, w) {
            let s = r.snaps[&id].clone();
            let e = canon(&r.expand(&s.tree)?);
            self.known[w].insert(id, (s, e));
        }
        Ok(())
    }
    pub fn chrono(&self, w: usize) -> Vec<(String, decode::Snap)> {
        let mut v: Vec<_> = self.known[w].iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        v.sort_by_key(|x| x.1.time);
        v
    }

    pub fn backup(&mut self, c: &mut Ctx) {
        let before = Repo::load(&self.a.to_string_lossy());
        let mut which: Vec<usize> = (0..3).filter(|_| self.r.chance(1, 2)).collect();
        if which.is_empty() || self.big && !which.contains(&0) && self.r.chance(2, 3) {
            which.push(0);
        }
        let mut args = vec!["backup".to_string()];
        for f in ["--allow-repeat", "--allow-empty"] {
            if self.r.chance(1, 2) {
                args.push(f.into());
            }
        }
        let tag = format!("t{}", self.r.below(3));
        let tagged = self.r.chance(1, 3);
        if tagged {
            args.push("-t".into());
            args.push(tag.clone());
        }
        let mut paths: Vec<PathBuf> = which.iter().map(|i| self.src[*i].clone()).collect();
        if self.r.chance(1, 2) {
            paths.reverse();
        }
        for p in &paths {
            args.push(p.to_string_lossy().to_string());
        }
        let o = self.run(0, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        if !o.ok() {
            let ps: &[&str] = if o.panicked() { &["C12", "C17"] } else { &["C17", "C31"] };
            return self.bad(c, ps, format!("backup failed: {}", last_line(&o.err)));
        }
        let r = Repo::load(&self.a.to_string_lossy());
        let nw = self.new_snaps(&r, 0);
        if nw.len() > 1 {
            return self.bad(c, &["C19", "C17"], "one backup made several snapshots".into());
        }
        // C05: blobs of new packs are new
        let had: BTreeSet<_> = before.live().values().flatten().map(|e| e.id.clone()).collect();
        for (p, es) in r.live() {
            if before.live().contains_key(&p) {
                continue;
            }
            for e in es {
                if had.contains(&e.id) {
                    return self.bad(c, &["C05"], format!("backup stored {} {} again in pack {p}", e.kind, e.id));
                }
            }
        }
        for p in before.live().keys() {
            if !r.live().contains_key(p) {
                return self.bad(c, &["C06", "C07"], format!("backup lost pack {p} from the index"));
            }
        }
        if let Some(id) = nw.first() {
            let s = r.snaps[id].clone();
            let want: BTreeSet<String> = paths.iter().map(|p| p.to_string_lossy().to_string()).collect();
            if s.paths != want {
                return self.bad(c, &["C31", "C17"], format!("snapshot paths {:?}, wanted {want:?}", s.paths));
            }
            if tagged != s.tags.contains(&tag) {
                return self.bad(c, &["C13"], format!("tags {:?}", s.tags));
            }
            match r.expand(&s.tree) {
                Err(e) => return self.bad(c, &["C06", "C05", "C01"], format!("new snapshot {id}: {e}")),
                Ok(exp) => {
                    let tops: BTreeSet<_> = exp.keys().filter(|k| !k.contains('/')).cloned().collect();
                    let wt: BTreeSet<_> = paths.iter().map(|p| p.file_name().unwrap().to_string_lossy().to_string()).collect();
                    if tops != wt {
                        return self.bad(c, &["C31"], format!("top-level entries {tops:?}, wanted {wt:?}"));
                    }
                    for p in &paths {
                        let top = p.file_name().unwrap().to_string_lossy().to_string();
                        if let Err(e) = against_fs(&exp, &top, &fsgen::scan(p)) {
                            return self.bad(c, &["C17", "C22", "C01", "C02"], format!("backup of {top}: {e}"));
                        }
                    }
                }
            }
        } else if !(o.out.contains("same") || o.err.contains("same") || o.out.contains("mpty") || o.err.contains("mpty")) && !known_same(&self.known[0], &r) {
            // nothing recorded: only when the tree equals the last snapshot of these paths, or is empty
            let want: BTreeSet<String> = paths.iter().map(|p| p.to_string_lossy().to_string()).collect();
            let last = self.chrono(0).into_iter().rev().find(|(_, s)| s.paths == want);
            if last.is_none() && !self.r.chance(0, 1) {
                let any = paths.iter().any(|p| !fsgen::scan(p).is_empty());
                if any {
                    return self.bad(c, &["C17"], "backup of new paths recorded no snapshot".into());
                }
            }
        }
        let _ = self.learn(&r, 0);
        self.state(c, 0, "backup", &["C06", "C01", "C05"]);
    }
    pub fn forget(&mut self, c: &mut Ctx, w: usize) {
        let mut before = Repo::load(&self.repo(w).to_string_lossy());
        let mut ch = self.chrono(w);
        if ch.is_empty() {
            return;
        }
        let dry = self.r.chance(1, 6);
        let mut want: BTreeSet<String> = self.known[w].keys().cloned().collect();
        let mut args: Vec<String> = vec!["forget".into()];
        if dry {
            args.push("-n".into());
        }
        // (in which order snapshots of the same time are is not said)
        let tie = ch.windows(2).any(|p| p[0].1.time == p[1].1.time && p[0].1.tree != p[1].1.tree);
        if !tie && self.r.chance(1, 3) {
            // trees that come back: some equal to the one just before, some to an earlier one
            if !dry && self.r.chance(2, 3) {
                let mut at = ch.last().unwrap().1.time;
                for _ in 0..self.r.range(1, 3) {
                    at += 1 + self.r.below(1000) as i128;
                    let s = self.r.pick(&ch).1.clone();
                    let s = decode::Snap { time: at, ..s };
                    let (tags, paths): (Vec<&str>, Vec<&str>) = (s.tags.iter().map(|x| x.as_str()).collect(), s.paths.iter().map(|x| x.as_str()).collect());
                    let (id, b) = enc::snapshot(at, "UTC", &s.author, &tags, &paths, &s.tree);
                    enc::put(&self.repo(w), "snapshot", &id, &b);
                    self.log.push(format!("(a snapshot {} of tree {} is added)", &id[..8], &s.tree[..8]));
                }
                let r = Repo::load(&self.repo(w).to_string_lossy());
                let _ = self.learn(&r, w);
                before = r;
                ch = self.chrono(w);
                want = self.known[w].keys().cloned().collect();
            }
            args.push("DUPLICATES".into());
            let mut last: Option<String> = None;
            for (id, s) in &ch {
                if last.as_ref() == Some(&s.tree) {
                    want.remove(id);
                } else {
                    last = Some(s.tree.clone());
                }
            }
        } else {
            let mut ids: Vec<_> = ch.iter().map(|x| x.0.clone()).collect();
            self.r.shuffle(&mut ids);
            ids.truncate(self.r.range(1, 2) as usize);
            for id in ids {
                want.remove(&id);
                let full = self.r.chance(1, 2);
                args.push(if full { id.clone() } else { id[..12].to_string() });
            }
        }
        let o = self.run(w, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        if !o.ok() {
            return self.bad(c, &["C19"], format!("forget failed: {}", last_line(&o.err)));
        }
        let after = Repo::load(&self.repo(w).to_string_lossy());
        let got: BTreeSet<_> = after.snaps.keys().cloned().collect();
        if dry {
            if after.files != before.files {
                self.bad(c, &["C16"], "forget --dry-run changed the repository".into());
            }
            return;
        }
        if got != want {
            return self.bad(c, &["C19"], format!("after {} the snapshots are {got:?}, expected {want:?}", args.join(" ")));
        }
        if after.packs.keys().ne(before.packs.keys()) || after.idx.keys().ne(before.idx.keys()) {
            return self.bad(c, &["C19"], "forget changed packs or indexes".into());
        }
        self.known[w].retain(|k, _| want.contains(k));
        self.state(c, w, "forget", &["C19"]);
    }
    pub fn prune(&mut self, c: &mut Ctx, w: usize) {
        let before = Repo::load(&self.repo(w).to_string_lossy());
        let bytes = fsgen::bytes_of(&self.repo(w));
        if self.r.chance(1, 4) {
            let o = self.run(w, &["prune", "-n"]);
            if fsgen::bytes_of(&self.repo(w)) != bytes {
                return self.bad(c, &["C16"], "prune --dry-run changed the repository".into());
            }
            if !o.ok() {
                return self.bad(c, &["C16", "C10"], format!("prune -n failed: {}", last_line(&o.err)));
            }
        }
        let o = self.run(w, &["prune"]);
        if !o.ok() {
            return self.bad(c, &["C09", "C10", "C05"], format!("prune failed: {}", last_line(&o.err)));
        }
        let r = self.state(c, w, "prune", &["C09", "C11"]);
        if self.stop {
            return;
        }
        let reach = match r.reachable() {
            Ok(x) => x,
            Err(e) => return self.bad(c, &["C09"], e),
        };
        for (p, es) in r.live() {
            for e in es {
                if !reach.contains(&e.id) {
                    return self.bad(c, &["C10"], format!("after prune pack {p} still has unreferenced {} {}", e.kind, e.id));
                }
            }
        }
        // packs fully referenced before are kept, untouched
        if let Ok(rb) = before.reachable() {
            for (p, es) in before.live() {
                let full = es.iter().all(|e| rb.contains(&e.id));
                if full && !r.packs.contains_key(&p) {
                    return self.bad(c, &["C10", "C09"], format!("prune rewrote pack {p} although everything in it was referenced"));
                }
                if !full && r.live().contains_key(&p) {
                    return self.bad(c, &["C10"], format!("prune kept pack {p} although something in it was unreferenced"));
                }
                if full && bytes.get(&pack_rel(&bytes, &p)) != fsgen::bytes_of(&self.repo(w)).get(&pack_rel(&bytes, &p)) {
                    return self.bad(c, &["C09"], format!("prune changed kept pack {p}"));
                }
            }
        }
        let nothing = o.out.contains("Nothing to do") || o.err.contains("Nothing to do");
        if !nothing && r.idx.len() != 1 {
            return self.bad(c, &["C10", "C11"], format!("after prune there are {} indexes", r.idx.len()));
        }
        for p in r.packs.keys() {
            if before.packs.contains_key(p) && before.live().contains_key(p) && !r.live().contains_key(p) {
                return self.bad(c, &["C10"], format!("prune dropped pack {p} from the index but left the file"));
            }
        }
        let b2 = fsgen::bytes_of(&self.repo(w));
        let o = self.run(w, &["prune"]);
        if !o.ok() {
            return self.bad(c, &["C10"], format!("second prune failed: {}", last_line(&o.err)));
        }
        if fsgen::bytes_of(&self.repo(w)) != b2 {
            return self.bad(c, &["C10"], "a second prune changed the repository".into());
        }
    }
    pub fn rebuild(&mut self, c: &mut Ctx, w: usize) {
        let before = Repo::load(&self.repo(w).to_string_lossy());
        let how = self.r.below(5);
        if how == 0 {
            for i in before.idx.keys() {
                let _ = fs::remove_file(find_obj(&self.repo(w), "indexes", i, "index"));
            }
            self.log.push("rm all indexes".into());
        } else if how == 1 && before.idx.len() > 1 {
            let i = self.r.pick(&before.idx.keys().cloned().collect::<Vec<_>>()).clone();
            let _ = fs::remove_file(find_obj(&self.repo(w), "indexes", &i, "index"));
            self.log.push(format!("rm index {i}"));
        } else if how == 2 && !before.idx.is_empty() {
            // an index that lists packs wrongly
            let i = self.r.pick(&before.idx.keys().cloned().collect::<Vec<_>>()).clone();
            let mut x = before.idx[&i].clone();
            for (_, es) in x.packs.iter_mut() {
                match self.r.below(5) {
                    0 if es.len() > 1 => { es.pop(); }
                    1 => { let e = es[0].clone(); es.push(e); }
                    2 => { let k = self.r.below(es.len() as u64) as usize; es[k].len += 1; }
                    3 => { es.reverse(); }
                    _ => {}
                }
            }
            let _ = fs::remove_file(find_obj(&self.repo(w), "indexes", &i, "index"));
            let (id, b) = enc::index(&x);
            enc::put(&self.repo(w), "index", &id, &b);
            self.log.push(format!("index {i} replaced by {id}, which lists its packs wrongly"));
        }
        let b1 = fsgen::bytes_of(&self.repo(w));
        let left = Repo::load(&self.repo(w).to_string_lossy());
        if self.r.chance(1, 3) {
            self.run(w, &["rebuild-index", "-n"]);
            if fsgen::bytes_of(&self.repo(w)) != b1 {
                return self.bad(c, &["C16"], "rebuild-index --dry-run changed the repository".into());
            }
        }
        let o = self.run(w, &["rebuild-index"]);
        if !o.ok() && before.packs.is_empty() && left.idx.is_empty() {
            return; // nothing to index
        }
        if !o.ok() {
            return self.bad(c, &["C30"], format!("rebuild-index failed: {}", last_line(&o.err)));
        }
        let r = Repo::load(&self.repo(w).to_string_lossy());
        if r.idx.len() != 1 {
            return self.bad(c, &["C30"], format!("{} indexes after rebuild-index", r.idx.len()));
        }
        let ix = r.idx.values().next().unwrap();
        let want: BTreeMap<_, _> = r.packs.iter().map(|(k, p)| (k.clone(), p.entries.clone())).collect();
        if ix.packs != want {
            return self.bad(c, &["C30"], format!("rebuilt index has {} packs, repository has {}", ix.packs.len(), want.len()));
        }
        let same = left.idx.len() == 1 && r.idx.keys().eq(left.idx.keys());
        if !same && ix.sup != left.idx.keys().cloned().collect::<BTreeSet<_>>() {
            return self.bad(c, &["C30", "C11"], format!("rebuilt index supersedes {:?}, previous were {:?}", ix.sup, left.idx.keys().collect::<Vec<_>>()));
        }
        if r.packs.keys().ne(before.packs.keys()) {
            return self.bad(c, &["C30", "C11"], "rebuild-index changed the packs".into());
        }
        self.state(c, w, "rebuild-index", &["C30", "C11"]);
    }
    pub fn copy(&mut self, c: &mut Ctx) {
        let ch = self.chrono(0);
        if ch.is_empty() {
            return;
        }
        let before_a = fsgen::bytes_of(&self.a);
        let before = Repo::load(&self.b.to_string_lossy());
        let ra = Repo::load(&self.a.to_string_lossy());
        let mut args: Vec<String> = vec!["copy".into(), "-t".into(), self.b.to_string_lossy().to_string()];
        let dry = self.r.chance(1, 6);
        if dry {
            args.push("-n".into());
        }
        let skip = if self.r.chance(1, 2) { Some(*self.r.pick(&["a$", "sub", "one/b", "\\.txt$", "^two", "é"])) } else { None };
        if let Some(s) = skip {
            args.push("-s".into());
            args.push(s.into());
        }
        let mut sel: Vec<String> = ch.iter().map(|x| x.0.clone()).collect();
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut sel);
            sel.truncate(2);
            args.extend(sel.iter().cloned());
        } else {
            args.push("--all".into());
        }
        let bb = fsgen::bytes_of(&self.b);
        let o = self.run(0, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        if !o.ok() {
            return self.bad(c, &["C13"], format!("copy failed: {}", last_line(&o.err)));
        }
        if fsgen::bytes_of(&self.a) != before_a {
            return self.bad(c, &["C13", "C19"], "copy changed the source repository".into());
        }
        if dry {
            if fsgen::bytes_of(&self.b) != bb {
                self.bad(c, &["C16"], "copy --dry-run changed the destination".into());
            }
            return;
        }
        let rb = Repo::load(&self.b.to_string_lossy());
        let had: BTreeSet<_> = before.live().values().flatten().map(|e| e.id.clone()).collect();
        for (p, es) in rb.live() {
            if !before.live().contains_key(&p) {
                for e in es {
                    if had.contains(&e.id) {
                        return self.bad(c, &["C05"], format!("copy stored {} {} again in pack {p}", e.kind, e.id));
                    }
                }
            }
        }
        for id in &sel {
            let s = &ra.snaps[id];
            let src = ra.expand(&s.tree).unwrap_or_default();
            let re = skip.map(Rx);
            let want: Exp = canon(&src).into_iter().filter(|(p, _)| re.as_ref().map(|r| r.keeps(p)).unwrap_or(true)).collect();
            let ok = rb.snaps.values().any(|t| {
                t.time == s.time && t.author == s.author && t.tags == s.tags && t.paths == s.paths && t.tz == s.tz && rb.expand(&t.tree).map(|e| canon(&e)).as_ref() == Ok(&want) && (skip.is_some() || t.tree == s.tree)
            });
            if !ok {
                let near = rb.snaps.values().find(|t| t.time == s.time).map(|t| match rb.expand(&t.tree) {
                    Ok(e) => first_diff(&want, &canon(&e)),
                    Err(e) => e,
                });
                return self.bad(c, &["C13"], format!("copy of {id} with skip {skip:?}: no matching snapshot in the destination ({near:?})"));
            }
        }
        let _ = self.learn(&rb, 1);
        self.state(c, 1, "copy", &["C13", "C06"]);
    }
    pub fn filter(&mut self, c: &mut Ctx) {
        let ch = self.chrono(0);
        if ch.is_empty() {
            return;
        }
        let (id, s) = self.r.pick(&ch).clone();
        let skip = *self.r.pick(&["a$", "sub", "one/b", "\\.txt$", "^two", "é", "zzz"]);
        let keep = self.r.chance(1, 2);
        let dry = self.r.chance(1, 5);
        let before = Repo::load(&self.a.to_string_lossy());
        let bb = fsgen::bytes_of(&self.a);
        let mut args = vec!["filter-snapshot", "-s", skip];
        if keep {
            args.push("-k");
        } else {
            args.extend(["-a", "me", "-t", "ft"]);
        }
        if dry {
            args.push("-n");
        }
        args.push(&id);
        let o = self.run(0, &args);
        if !o.ok() {
            return self.bad(c, &["C13"], format!("filter-snapshot failed: {}", last_line(&o.err)));
        }
        if dry {
            if fsgen::bytes_of(&self.a) != bb {
                self.bad(c, &["C16"], "filter-snapshot --dry-run changed the repository".into());
            }
            return;
        }
        let r = Repo::load(&self.a.to_string_lossy());
        let want: Exp = self.known[0][&id].1.iter().filter(|(p, _)| Rx(skip).keeps(p)).map(|(a, b)| (a.clone(), b.clone())).collect();
        // nothing filtered and nothing changed: no new snapshot
        let same = want == self.known[0][&id].1;
        let nw = self.new_snaps(&r, 0);
        if same {
            if nw.is_empty() {
                self.state(c, 0, "filter-snapshot", &["C13"]);
                return;
            }
        } else if nw.len() != 1 {
            // could equal an existing snapshot (kept metadata)
            if !(keep && nw.is_empty() && r.snaps.values().any(|t| t.time == s.time && r.expand(&t.tree).map(|e| canon(&e)).as_ref() == Ok(&want))) {
                return self.bad(c, &["C13"], format!("filter-snapshot made {} snapshots", nw.len()));
            }
        }
        let had: BTreeSet<_> = before.live().values().flatten().map(|e| e.id.clone()).collect();
        for (p, es) in r.live() {
            if !before.live().contains_key(&p) {
                for e in es {
                    if had.contains(&e.id) {
                        return self.bad(c, &["C05"], format!("filter-snapshot stored {} {} again in pack {p}", e.kind, e.id));
                    }
                }
            }
        }
        if let Some(n) = nw.first() {
            let t = &r.snaps[n];
            let exp = match r.expand(&t.tree) {
                Ok(e) => canon(&e),
                Err(e) => return self.bad(c, &["C13", "C06"], format!("filtered snapshot: {e}")),
            };
            if exp != want {
                return self.bad(c, &["C13"], format!("filter-snapshot -s {skip}: {}", first_diff(&want, &exp)));
            }
            if t.paths != s.paths || (keep && (t.time != s.time || t.author != s.author || t.tags != s.tags)) {
                return self.bad(c, &["C13"], "filter-snapshot changed paths or kept metadata".into());
            }
            if !keep && (t.author != "me" || t.tags != BTreeSet::from(["ft".to_string()])) {
                return self.bad(c, &["C13"], format!("filter-snapshot recorded author {} tags {:?}", t.author, t.tags));
            }
        }
        let _ = self.learn(&r, 0);
        self.state(c, 0, "filter-snapshot", &["C13", "C06"]);
    }
    /// forget everything, prune, back up the same files again
    pub fn cycle(&mut self, c: &mut Ctx) {
        for _ in 0..2 {
            let ids: Vec<String> = self.known[0].keys().cloned().collect();
            if !ids.is_empty() {
                let mut a = vec!["forget"];
                a.extend(ids.iter().map(|s| s.as_str()));
                if !self.run(0, &a).ok() {
                    return self.bad(c, &["C19"], "forget of every snapshot failed".into());
                }
                self.known[0].clear();
            }
            self.prune(c, 0);
            if self.stop {
                return;
            }
            let st = self.r.clone();
            self.r = Rng::new(5);
            self.backup(c);
            self.r = st;
            if self.stop {
                return;
            }
        }
    }
    pub fn check(&mut self, c: &mut Ctx, w: usize) {
        let r = self.r.chance(1, 2);
        let o = if r { self.run(w, &["check", "-r"]) } else { self.run(w, &["check"]) };
        if !o.ok() {
            self.bad(c, &["C04"], format!("check fails on an intact repository: {}", last_line(&o.err)));
        }
    }
    pub fn report(&mut self, c: &mut Ctx, w: usize) {
        for args in [vec!["snapshots", "--sizes"], vec!["snapshots", "--stat", "--file-sizes", "-m", "--reverse"], vec!["usage"], vec!["snapshots", "--stat"]] {
            let o = self.run(w, &args);
            if !o.ok() {
                return self.bad(c, &["C27"], format!("{} failed: {}", args.join(" "), last_line(&o.err)));
            }
        }
        let ch = self.chrono(w);
        if !ch.is_empty() {
            let a = self.r.pick(&ch).clone();
            let b = self.r.pick(&ch).clone();
            let o = self.run(w, &["diff", "-m", &a.0, &b.0]);
            if !o.ok() {
                return self.bad(c, &["C14"], format!("diff failed: {}", last_line(&o.err)));
            }
            let (ea, eb) = (self.known[w][&a.0].1.clone(), self.known[w][&b.0].1.clone());
            if let Err(e) = diff_oracle(&ea, &eb, &o.out) {
                return self.bad(c, &["C14"], format!("diff -m {} {}: {e}", a.0, b.0));
            }
        }
    }
    pub fn restore(&mut self, c: &mut Ctx, w: usize) {
        let ch = self.chrono(w);
        if ch.is_empty() {
            return;
        }
        let (id, s) = self.r.pick(&ch).clone();
        let before = fsgen::bytes_of(&self.repo(w));
        let out = self.dir.join("out");
        fsgen::rm(&out);
        fs::create_dir_all(&out).unwrap();
        let r = Repo::load(&self.repo(w).to_string_lossy());
        let exp = r.expand(&s.tree).unwrap_or_default();
        let outs = out.to_string_lossy().to_string();
        let o = self.run(w, &["restore", "-o", &outs, "-t", "-p", &id]);
        if !o.ok() {
            return self.bad(c, &["C15"], format!("restore failed: {}", last_line(&o.err)));
        }
        let single = s.paths.len() == 1;
        let tops: BTreeSet<_> = exp.keys().filter(|k| !k.contains('/')).cloned().collect();
        for t in &tops {
            let d = if single { out.clone() } else { out.join(t) };
            if let Err(e) = against_fs(&exp, t, &fsgen::scan(&d)) {
                return self.bad(c, &["C15", "C02"], format!("restored {t}: {e}"));
            }
        }
        if fsgen::bytes_of(&self.repo(w)) != before {
            self.bad(c, &["C15", "C19"], "restore changed the repository".into());
        }
        fsgen::rm(&out);
    }
}

fn known_same(_k: &BTreeMap<String, (decode::Snap, Exp)>, _r: &Repo) -> bool {
    false
}
pub fn pack_rel(bytes: &BTreeMap<String, Vec<u8>>, id: &str) -> String {
    bytes.keys().find(|k| k.ends_with(&format!("{id}.pack"))).cloned().unwrap_or_default()
}
pub fn find_obj(repo: &Path, dir: &str, id: &str, ext: &str) -> PathBuf {
    repo.join(dir).join(format!("{id}.{ext}"))
}
pub fn last_line(s: &str) -> String {
    let l: Vec<_> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    l.iter().rev().take(4).rev().cloned().collect::<Vec<_>>().join(" / ").chars().take(600).collect()
}
pub fn first_diff(want: &Exp, got: &Exp) -> String {
    for (k, v) in want {
        match got.get(k) {
            None => return format!("{k} is missing"),
            Some(g) if g != v => return format!("{k}: {g} instead of {v}"),
            _ => {}
        }
    }
    got.keys().find(|k| !want.contains_key(*k)).map(|k| format!("{k} is extra")).unwrap_or("no difference".into())
}

/// the handful of patterns the scenarios use, matched here without the regex crate
pub struct Rx(pub &'static str);
impl Rx {
    fn hit(&self, p: &str) -> bool {
        match self.0 {
            "a$" => p.ends_with('a'),
            "\\.txt$" => p.ends_with(".txt"),
            "^two" => p.starts_with("two"),
            s => p.contains(s),
        }
    }
    pub fn keeps(&self, p: &str) -> bool {
        let mut q = String::new();
        for part in p.split('/') {
            if !q.is_empty() {
                q.push('/');
            }
            q.push_str(part);
            if self.hit(&q) {
                return false;
            }
        }
        true
    }
}

/// what `diff -m` must print for two expansions
pub fn diff_lines(a: &Exp, b: &Exp) -> BTreeSet<String> {
    let mut w = BTreeSet::new();
    let shown = |p: &str, v: &str| {
        if let Some(t) = v.strip_prefix("L ") {
            format!("{p} -> {}", t.split(" | ").next().unwrap())
        } else if v.starts_with('D') {
            format!("{p}/")
        } else {
            p.to_string()
        }
    };
    let keys: BTreeSet<_> = a.keys().chain(b.keys()).collect();
    for k in keys {
        match (a.get(k), b.get(k)) {
            (Some(x), None) => {
                w.insert(format!("- {}", shown(k, x)));
            }
            (None, Some(y)) => {
                w.insert(format!("+ {}", shown(k, y)));
            }
            (Some(x), Some(y)) => {
                let (xc, xm) = x.split_once(" | ").unwrap();
                let (yc, ym) = y.split_once(" | ").unwrap();
                if xc.as_bytes()[0] != yc.as_bytes()[0] || (xc != yc && xc.starts_with('L')) {
                    w.insert(format!("- {}", shown(k, x)));
                    w.insert(format!("+ {}", shown(k, y)));
                } else if xc != yc {
                    w.insert(format!("C {k}"));
                } else if xm != ym {
                    w.insert(format!("? {}", shown(k, y)));
                }
            }
            _ => {}
        }
    }
    w
}
fn diff_oracle(a: &Exp, b: &Exp, out: &str) -> Result<(), String> {
    let want = diff_lines(a, b);
    let mut got = BTreeSet::new();
    for l in out.lines().filter(|l| !l.is_empty()) {
        let (ch, rest) = l.split_at(1);
        let l2 = if "OPTAM".contains(ch) { format!("?{rest}") } else { l.to_string() };
        if !got.insert(l2.clone()) {
            return Err(format!("reported twice: {l2}"));
        }
    }
    if let Some(x) = want.difference(&got).next() {
        return Err(format!("not reported: {x}"));
    }
    if let Some(x) = got.difference(&want).next() {
        return Err(format!("reported but not a difference: {x}"));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "a history of 6-22 commands over two repositories and three source trees; nontrivial if it ran at least one backup that recorded a snapshot and three other commands".into();
    let mut n = 0;
    while c.time_left() {
        n += 1;
        let mut h = H::new(c, n);
        let steps = h.r.range(6, if c.thorough { 22 } else { 14 });
        let mut kinds = vec![];
        for i in 0..steps {
            if h.stop || !c.time_left() {
                break;
            }
            let k = if i == 0 || h.big && i < 3 { 0 } else { h.r.below(20) };
            kinds.push(k);
            match k {
                0..=4 => {
                    let l = h.src[0].join("large");
                    if h.big && i > 0 && h.r.chance(1, 2) && l.is_file() {
                        let mut b = fs::read(&l).unwrap();
                        let at = h.r.below(b.len().max(1) as u64) as usize;
                        if let Some(x) = b.get_mut(at) { *x ^= 1; }
                        fsgen::write_file(&l, &b, &mut h.r, &mut h.clock);
                    }
                    for i in 0..3 {
                        if h.r.chance(1, 2) && i > 0 || kinds.len() > 1 {
                            let s = h.src[i].clone();
                            let (mut r, mut cl) = (h.r.clone(), h.clock);
                            fsgen::mutate(&s, &mut r, &mut cl, h.big);
                            h.r = r;
                            h.clock = cl;
                        }
                    }
                    h.backup(c)
                }
                5..=6 => h.forget(c, 0),
                7..=9 => h.prune(c, 0),
                10..=11 => h.copy(c),
                12..=13 => h.filter(c),
                14 if h.r.chance(1, 2) => h.cycle(c),
                14 => h.rebuild(c, 0),
                15 => {
                    let w = h.r.below(2) as usize;
                    h.check(c, w)
                }
                16..=17 => {
                    let w = h.r.below(2) as usize;
                    h.report(c, w)
                }
                18 => {
                    let w = h.r.below(2) as usize;
                    h.restore(c, w)
                }
                _ => {
                    h.forget(c, 1);
                    if !h.stop {
                        h.prune(c, 1)
                    }
                }
            }
            c.count("commands", 1);
        }
        let nt = !h.known[0].is_empty() && kinds.len() >= 4;
        c.case(&h.log, nt);
        if nt && n % 5 == 1 {
            c.sample(json!({"history": h.log}));
        }
        let _ = fs::remove_dir_all(&h.dir);
    }
}
