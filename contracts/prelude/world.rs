// Ghost state of everything outside the process: the repository and the
// working directory.  Every effectful function takes `w: &mut World`; its
// contract says which component changes and, for the effects whose order
// matters, what must hold before (the crash-consistency obligations).
pub struct IdxV { pub sup: Set<ObjectId>, pub packs: Map<ObjectId, PackManifest> }
pub struct WS {
    pub idx: Map<ObjectId, IdxV>,          // index files present in the repository
    pub packs: Set<ObjectId>,              // pack files present in the repository
    pub snaps: Map<ObjectId, SnapV>,       // snapshot files present in the repository
    pub wip: Option<IdxV>,                 // backpak-wip.index in the working directory
    pub cwd: Set<ObjectId>,                // finished pack files in the working directory
    pub chan: ChanV,                       // the indexer's channel, where a command feeds it itself
}
pub struct ChanV { pub sent: Map<ObjectId, PackManifest>, pub finished: bool, pub closed: bool, pub complete: bool }
#[verifier::external_body]
pub struct World { x: u8 }
impl View for World { type V = WS; uninterp spec fn view(&self) -> WS; }

pub open spec fn superseded(w: WS, id: ObjectId) -> bool { exists|s: ObjectId| #[trigger] w.idx.contains_key(s) && w.idx[s].sup.contains(id) }
pub open spec fn live_idx(w: WS, id: ObjectId) -> bool { w.idx.contains_key(id) && !superseded(w, id) }
// p is listed, with manifest m, by a live index
pub open spec fn live_pack(w: WS, p: ObjectId) -> bool { exists|id: ObjectId| #[trigger] live_idx(w, id) && w.idx[id].packs.contains_key(p) }

// names in the repository
pub uninterp spec fn path_id(s: String) -> Option<ObjectId>;
// the name a pack is stored under (unit `ids`), and what the listing of packs holds
pub uninterp spec fn pack_path_of(id: ObjectId) -> String;
#[verifier::external_body]
pub proof fn axiom_pack_path(id: ObjectId) ensures path_id(pack_path_of(id)) == Some(id) {}
pub open spec fn canonical_packs(v: Seq<(String, u64)>) -> bool { forall|i: int| 0 <= i < v.len() && path_id((#[trigger] v[i]).0) is Some ==> v[i].0 == pack_path_of(path_id(v[i].0).unwrap()) }
pub trait AsPath { spec fn pstr(self) -> String; }
impl AsPath for String { open spec fn pstr(self) -> String { self } }
impl<'a> AsPath for &'a String { open spec fn pstr(self) -> String { *self } }
#[verifier::external_body]
pub fn backend__id_from_path<P: AsPath>(p: P) -> (r: Result<ObjectId>)
    ensures match r { Ok(id) => path_id(p.pstr()) == Some(id), Err(_) => path_id(p.pstr()) is None } { unimplemented!() }

pub open spec fn lists(v: Seq<(String, u64)>, ids: Set<ObjectId>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    &&& forall|i: int| 0 <= i < v.len() && path_id((#[trigger] v[i]).0) is Some ==> ids.contains(path_id(v[i].0).unwrap())
    &&& forall|id: ObjectId| #[trigger] ids.contains(id) ==> exists|i: int| 0 <= i < v.len() && path_id((#[trigger] v[i]).0) == Some(id)
}
#[verifier::external_body]
pub struct CachedBackend { pub bytes_downloaded: AtomicU64, pub bytes_uploaded: AtomicU64 }
impl CachedBackend {
    #[verifier::external_body]
    pub fn list_indexes(&self, w: &mut World) -> (r: Result<Vec<(String, u64)>>)
        ensures *final(w) == *old(w), match r { Ok(v) => lists(v@, old(w)@.idx.dom()), Err(e) => e.io() } { unimplemented!() }
    #[verifier::external_body]
    pub fn list_snapshots(&self, w: &mut World) -> (r: Result<Vec<(String, u64)>>)
        ensures *final(w) == *old(w), match r { Ok(v) => lists(v@, old(w)@.snaps.dom()), Err(e) => e.io() } { unimplemented!() }
    #[verifier::external_body]
    pub fn list_packs(&self, w: &mut World) -> (r: Result<Vec<(String, u64)>>)
        ensures *final(w) == *old(w), match r { Ok(v) => lists(v@, old(w)@.packs) && canonical_packs(v@), Err(e) => e.io() } { unimplemented!() }
    // Deleting is safe only after what replaces it is in place: an index may go
    // only when a present index supersedes it, a pack only when no live index lists it.
    #[verifier::external_body]
    pub fn remove_index(&self, id: &ObjectId, w: &mut World) -> (r: Result<()>)
        requires superseded_by_other(old(w)@, *id)
        ensures match r { Ok(_) => final(w)@ == (WS { idx: old(w)@.idx.remove(*id), ..old(w)@ }), Err(_) => final(w)@ == old(w)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_pack(&self, id: &ObjectId, w: &mut World) -> (r: Result<()>)
        requires !live_pack(old(w)@, *id), forall|i: ObjectId| #[trigger] old(w)@.idx.contains_key(i) ==> !old(w)@.idx[i].packs.contains_key(*id)
        ensures match r { Ok(_) => final(w)@ == (WS { packs: old(w)@.packs.remove(*id), ..old(w)@ }), Err(_) => final(w)@ == old(w)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_snapshot(&self, id: &ObjectId, w: &mut World) -> (r: Result<()>)
        ensures match r { Ok(_) => final(w)@ == (WS { snaps: old(w)@.snaps.remove(*id), ..old(w)@ }), Err(_) => final(w)@ == old(w)@ } { unimplemented!() }
}
pub open spec fn superseded_by_other(w: WS, id: ObjectId) -> bool { exists|s: ObjectId| #[trigger] w.idx.contains_key(s) && s != id && w.idx[s].sup.contains(id) }
