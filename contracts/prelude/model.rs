// Specification vocabulary over manifests and indexes.
pub open spec fn has_entry(m: Seq<PackManifestEntry>, b: ObjectId) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).id == b }
pub open spec fn pack_has(packs: Map<ObjectId, PackManifest>, p: ObjectId, b: ObjectId) -> bool { packs.contains_key(p) && has_entry(packs[p]@, b) }
pub open spec fn blob_at(packs: Map<ObjectId, PackManifest>, p: ObjectId, i: int) -> ObjectId { packs[p]@[i].id }
pub open spec fn valid_at(packs: Map<ObjectId, PackManifest>, p: ObjectId, i: int) -> bool { packs.contains_key(p) && 0 <= i < packs[p]@.len() }
// every blob occurs exactly once
pub open spec fn no_dups(packs: Map<ObjectId, PackManifest>) -> bool {
    forall|p: ObjectId, i: int, q: ObjectId, j: int| #![trigger valid_at(packs, p, i), valid_at(packs, q, j)]
        valid_at(packs, p, i) && valid_at(packs, q, j) && packs[p]@[i].id == packs[q]@[j].id ==> p == q && i == j
}
pub open spec fn listed_in(packs: Map<ObjectId, PackManifest>, b: ObjectId) -> bool { exists|p: ObjectId, i: int| #[trigger] valid_at(packs, p, i) && packs[p]@[i].id == b }
