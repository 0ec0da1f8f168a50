// What a packfile is.
pub uninterp spec fn magic() -> Seq<u8>;
#[verifier::external_body]
pub fn magic_bytes() -> (r: &'static [u8]) ensures r@ == magic() { unimplemented!() }
// CBOR of manifests and trees, and the content of trees by ID
pub uninterp spec fn man_val(s: Seq<u8>) -> Option<(Seq<PackManifestEntry>, nat)>;
pub uninterp spec fn man_enc(m: Seq<PackManifestEntry>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_man(m: Seq<PackManifestEntry>, rest: Seq<u8>) ensures man_val(man_enc(m) + rest) == Some((m, man_enc(m).len())) {}
impl Cbor for PackManifest { uninterp spec fn val(s: Seq<u8>) -> Option<(PackManifest, nat)>; }
#[verifier::external_body]
pub proof fn axiom_man_view(s: Seq<u8>)
    ensures PackManifest::val(s) is Some <==> man_val(s) is Some, PackManifest::val(s) is Some ==> PackManifest::val(s).unwrap().0@ == man_val(s).unwrap().0 && PackManifest::val(s).unwrap().1 == man_val(s).unwrap().1 {}
// ---- what a packfile is
pub open spec fn off(m: Seq<PackManifestEntry>, i: int) -> int decreases i { if i <= 0 { 0 } else { off(m, i - 1) + m[i - 1].length as int } }
pub open spec fn has_magic(f: Seq<u8>) -> bool { f.len() >= magic().len() && f.take(magic().len() as int) == magic() }
pub open spec fn blobs_in(f: Seq<u8>) -> Seq<u8> { unz(f.skip(magic().len() as int)) }
pub open spec fn man_len(f: Seq<u8>) -> int { be32(f.skip(f.len() - 4)) }
pub open spec fn man_stream(f: Seq<u8>) -> Seq<u8> { f.subrange(f.len() - 4 - man_len(f), f.len() - 4) }
pub open spec fn man_cbor(f: Seq<u8>) -> Seq<u8> { unz(man_stream(f)) }
// the manifest a packfile carries, and the ID it has
pub open spec fn carries(f: Seq<u8>, m: Seq<PackManifestEntry>, id: ObjectId) -> bool {
    &&& f.len() >= 4 && f.len() - 4 - man_len(f) >= 0 && man_val(man_cbor(f)) is Some && man_val(man_cbor(f)).unwrap().0 == m
    &&& man_val(man_cbor(f)).unwrap().1 <= man_cbor(f).len() && id == hash_of(man_cbor(f).take(man_val(man_cbor(f)).unwrap().1 as int))
}
pub open spec fn blob_bytes_at(f: Seq<u8>, m: Seq<PackManifestEntry>, i: int) -> Seq<u8> { window(blobs_in(f), off(m, i), m[i].length as int) }
pub open spec fn blobs_ok(f: Seq<u8>, m: Seq<PackManifestEntry>) -> bool {
    forall|i: int| 0 <= i < m.len() ==> #[trigger] ok_at(f, m, i)
}
// blob i of the stream is there in full and hashes to its ID
pub open spec fn ok_at(f: Seq<u8>, m: Seq<PackManifestEntry>, i: int) -> bool { off(m, i + 1) <= blobs_in(f).len() && hash_of(blob_bytes_at(f, m, i)) == m[i].id }
// intact: the blobs listed, and the same manifest at the end
pub open spec fn intact(f: Seq<u8>, m: Seq<PackManifestEntry>) -> bool {
    has_magic(f) && blobs_ok(f, m) && exists|id: ObjectId| #[trigger] carries(f, m, id)
}
pub proof fn lemma_off(m: Seq<PackManifestEntry>, i: int, n: nat) requires 0 <= i <= m.len() ensures off(m, i) >= 0 decreases i { if i > 0 { lemma_off(m, i - 1, n); } }
