// Trees as content: the ID determines the tree (collision freedom of SHA-224).
pub uninterp spec fn tree_of(id: ObjectId) -> Map<Utf8PathBuf, Node>;
pub uninterp spec fn empty_tree_id() -> ObjectId;
#[verifier::external_body]
pub proof fn axiom_empty_tree() ensures tree_of(empty_tree_id()) == Map::<Utf8PathBuf, Node>::empty() {}
#[verifier::external_body]
pub fn empty_id() -> (r: ObjectId) ensures r == empty_tree_id(), tree_of(r) == Map::<Utf8PathBuf, Node>::empty() { unimplemented!() }

pub open spec fn dir_of(n: Node) -> Option<ObjectId> { match n.contents { NodeContents::Directory { subtree } => Some(subtree), _ => None } }
pub open spec fn chunks_of(n: Node) -> Seq<ObjectId> { match n.contents { NodeContents::File { chunks } => chunks@, _ => Seq::empty() } }
pub open spec fn is_child(t: ObjectId, c: ObjectId) -> bool { exists|n: Utf8PathBuf| #[trigger] tree_of(t).contains_key(n) && dir_of(tree_of(t)[n]) == Some(c) }
pub open spec fn reach_n(r: ObjectId, x: ObjectId, n: nat) -> bool decreases n {
    if n == 0 { r == x } else { exists|c: ObjectId| #[trigger] is_child(r, c) && reach_n(c, x, (n - 1) as nat) }
}
// x is r or a tree somewhere below r
pub open spec fn reach(r: ObjectId, x: ObjectId) -> bool { exists|n: nat| #[trigger] reach_n(r, x, n) }
pub open spec fn tree_has_chunk(t: ObjectId, b: ObjectId) -> bool { exists|n: Utf8PathBuf| #[trigger] tree_of(t).contains_key(n) && chunks_of(tree_of(t)[n]).contains(b) }
pub proof fn lemma_reach_self(r: ObjectId) ensures reach(r, r) { assert(reach_n(r, r, 0)); }
pub proof fn lemma_reach_step(r: ObjectId, c: ObjectId, x: ObjectId) requires is_child(r, c), reach(c, x) ensures reach(r, x)
{ let n = choose|n: nat| #[trigger] reach_n(c, x, n); assert(reach_n(r, x, (n + 1) as nat)); }
pub proof fn lemma_reach_cases(r: ObjectId, x: ObjectId) requires reach(r, x) ensures r == x || exists|c: ObjectId| #[trigger] is_child(r, c) && reach(c, x)
{
    let n = choose|n: nat| #[trigger] reach_n(r, x, n);
    if n > 0 { let c = choose|c: ObjectId| #[trigger] is_child(r, c) && reach_n(c, x, (n - 1) as nat); assert(is_child(r, c) && reach(c, x)); }
}
pub proof fn lemma_reach_trans(a: ObjectId, b: ObjectId, c: ObjectId) requires reach(a, b), reach(b, c) ensures reach(a, c)
{
    let n = choose|n: nat| #[trigger] reach_n(a, b, n);
    lemma_reach_trans_n(a, b, c, n);
}
pub proof fn lemma_reach_trans_n(a: ObjectId, b: ObjectId, c: ObjectId, n: nat) requires reach_n(a, b, n), reach(b, c) ensures reach(a, c) decreases n
{
    if n > 0 { let d = choose|d: ObjectId| #[trigger] is_child(a, d) && reach_n(d, b, (n - 1) as nat); lemma_reach_trans_n(d, b, c, (n - 1) as nat); lemma_reach_step(a, d, c); }
}

// every blob a restore of r needs: its trees and their chunks
pub open spec fn blob_below(r: ObjectId, b: ObjectId) -> bool { reach(r, b) || exists|t: ObjectId| #[trigger] reach(r, t) && tree_has_chunk(t, b) }
pub open spec fn node_blob(n: Node, b: ObjectId) -> bool { chunks_of(n).contains(b) || (dir_of(n) is Some && blob_below(dir_of(n).unwrap(), b)) }
pub proof fn lemma_blob_below(r: ObjectId, b: ObjectId)
    ensures blob_below(r, b) <==> r == b || exists|n: Utf8PathBuf| #[trigger] tree_of(r).contains_key(n) && node_blob(tree_of(r)[n], b)
{
    lemma_reach_self(r);
    if blob_below(r, b) && r != b {
        let t = if reach(r, b) { b } else { choose|t: ObjectId| #[trigger] reach(r, t) && tree_has_chunk(t, b) };
        lemma_reach_cases(r, t);
        if t != r {
            let c = choose|c: ObjectId| #[trigger] is_child(r, c) && reach(c, t);
            let n = choose|n: Utf8PathBuf| #[trigger] tree_of(r).contains_key(n) && dir_of(tree_of(r)[n]) == Some(c);
            assert(node_blob(tree_of(r)[n], b));
        } else {
            let n = choose|n: Utf8PathBuf| #[trigger] tree_of(t).contains_key(n) && chunks_of(tree_of(t)[n]).contains(b);
            assert(node_blob(tree_of(r)[n], b));
        }
    }
    if exists|n: Utf8PathBuf| #[trigger] tree_of(r).contains_key(n) && node_blob(tree_of(r)[n], b) {
        let n = choose|n: Utf8PathBuf| #[trigger] tree_of(r).contains_key(n) && node_blob(tree_of(r)[n], b);
        if chunks_of(tree_of(r)[n]).contains(b) { assert(tree_has_chunk(r, b)); }
        else {
            let c = dir_of(tree_of(r)[n]).unwrap();
            assert(is_child(r, c));
            if reach(c, b) { lemma_reach_step(r, c, b); }
            else { let t = choose|t: ObjectId| #[trigger] reach(c, t) && tree_has_chunk(t, b); lemma_reach_step(r, c, t); }
        }
    }
}
