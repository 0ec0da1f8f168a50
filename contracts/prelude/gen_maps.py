M='''
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct NAME<K, V> { m: Vec<(K, V)> }
impl<K, V> View for NAME<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> NAME<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    // entry(k).or_default(): the value under k, a default one put there first if there is none
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V) where V: DefV
        ensures final(self)@ == old(self)@.insert(k, *final(r)), old(self)@.contains_key(k) ==> *r == old(self)@[k], !old(self)@.contains_key(k) ==> (*r).is_def() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: Self)
        ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Self)
        ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn it(&self) -> (r: SeqIter<(&K, &V)>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(*(#[trigger] r.seq()[i]).0) && self@[*r.seq()[i].0] == *r.seq()[i].1,
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]).0 != *(#[trigger] r.seq()[j]).0,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]).0 == k
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: SeqIter<&K>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(*(#[trigger] r.seq()[i])),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]) != *(#[trigger] r.seq()[j]),
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == k
    { unimplemented!() }
    pub uninterp spec fn values_keys(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn values(&self) -> (r: SeqIter<&V>)
        ensures r.pos() == 0, r.seq().len() == self.values_keys().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(self.values_keys()[i]) && self@[self.values_keys()[i]] == *(#[trigger] r.seq()[i]),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> #[trigger] self.values_keys()[i] != #[trigger] self.values_keys()[j],
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && #[trigger] self.values_keys()[i] == k
    { unimplemented!() }
    // stands for values_mut() where the map is not used afterwards
    #[verifier::external_body]
    pub fn into_values(self) -> (r: SeqIter<V>)
        ensures r.pos() == 0, r.seq().len() == self.values_keys().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(self.values_keys()[i]) && self@[self.values_keys()[i]] == (#[trigger] r.seq()[i]),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> #[trigger] self.values_keys()[i] != #[trigger] self.values_keys()[j],
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && #[trigger] self.values_keys()[i] == k
    { unimplemented!() }
}
impl<'a, K, V> IntoIt for &'a NAME<K, V> { type Item = (&'a K, &'a V);
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<(&'a K, &'a V)>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key(*(#[trigger] r.seq()[i]).0) && self@[*r.seq()[i].0] == *r.seq()[i].1,
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]).0 != *(#[trigger] r.seq()[j]).0,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]).0 == k
    { unimplemented!() } }
impl<K, V> IntoIt for NAME<K, V> { type Item = (K, V);
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<(K, V)>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains_key((#[trigger] r.seq()[i]).0) && self@[r.seq()[i].0] == r.seq()[i].1,
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> (#[trigger] r.seq()[i]).0 != (#[trigger] r.seq()[j]).0,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.seq().len() && (#[trigger] r.seq()[i]).0 == k
    { unimplemented!() } }
impl<K, V> FromIt<(K, V)> for NAME<K, V> {
    open spec fn is_new(self) -> bool { self@ == Map::<K, V>::empty() }
    open spec fn is_push(self, x: (K, V), new: Self) -> bool { new@ == self@.insert(x.0, x.1) }
    #[verifier::external_body]
    fn collect_new_() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn collect_push_(&mut self, x: (K, V)) { unimplemented!() }
}
impl<K, V> Clone for NAME<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K, V> PartialEq for NAME<K, V> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<K, V> vstd::std_specs::cmp::PartialEqSpecImpl for NAME<K, V> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
'''
S='''
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct NAME<K> { m: Vec<K> }
impl<K> View for NAME<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> NAME<K> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Self)
        ensures final(self)@ == old(self)@.union(old(o)@), final(o)@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, o: &Self) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, o: &Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_disjoint(&self, o: &Self) -> (r: bool) ensures r == self@.disjoint(o@) { unimplemented!() }
    pub fn extend<S: SpecElems<K>>(&mut self, s: S)
        ensures final(self)@ == old(self)@.union(s.elems())
    { S::extend_NAME(self, s) }
    #[verifier::external_body]
    pub fn it(&self) -> (r: SeqIter<&K>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains(*(#[trigger] r.seq()[i])),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]) != *(#[trigger] r.seq()[j]),
            forall|k: K| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == k
    { unimplemented!() }
}
impl<K> DefV for NAME<K> { open spec fn is_def(self) -> bool { self@ == Set::<K>::empty() } }
impl<K> SpecElems<K> for NAME<K> {
    open spec fn elems(self) -> Set<K> { self@ }
    #[verifier::external_body]
    fn extend_FxHashSet(t: &mut FxHashSet<K>, s: Self) { unimplemented!() }
    #[verifier::external_body]
    fn extend_BTreeSet(t: &mut BTreeSet<K>, s: Self) { unimplemented!() }
}
impl<'a, K> IntoIt for &'a NAME<K> { type Item = &'a K;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<&'a K>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains(*(#[trigger] r.seq()[i])),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> *(#[trigger] r.seq()[i]) != *(#[trigger] r.seq()[j]),
            forall|k: K| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r.seq().len() && *(#[trigger] r.seq()[i]) == k
    { unimplemented!() } }
impl<K> IntoIt for NAME<K> { type Item = K;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<K>)
        ensures r.pos() == 0,
            forall|i: int| 0 <= i < r.seq().len() ==> self@.contains((#[trigger] r.seq()[i])),
            forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> (#[trigger] r.seq()[i]) != (#[trigger] r.seq()[j]),
            forall|k: K| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r.seq().len() && (#[trigger] r.seq()[i]) == k
    { unimplemented!() } }
impl<K> FromIt<K> for NAME<K> {
    open spec fn is_new(self) -> bool { self@ == Set::<K>::empty() }
    open spec fn is_push(self, x: K, new: Self) -> bool { new@ == self@.insert(x) }
    #[verifier::external_body]
    fn collect_new_() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn collect_push_(&mut self, x: K) { unimplemented!() }
}
impl<K> Clone for NAME<K> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<K> PartialEq for NAME<K> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<K> vstd::std_specs::cmp::PartialEqSpecImpl for NAME<K> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
'''
out='''// Generated by gen_maps.py: std/rustc_hash collections as mathematical maps and sets.
pub trait DefV: Sized { spec fn is_def(self) -> bool; }
impl DefV for u64 { open spec fn is_def(self) -> bool { self == 0 } }
impl DefV for u32 { open spec fn is_def(self) -> bool { self == 0 } }
impl DefV for usize { open spec fn is_def(self) -> bool { self == 0 } }
impl<T> DefV for Vec<T> { open spec fn is_def(self) -> bool { self@ == Seq::<T>::empty() } }
pub trait SpecElems<K>: Sized {
    spec fn elems(self) -> Set<K>;
    fn extend_FxHashSet(t: &mut FxHashSet<K>, s: Self) ensures final(t)@ == old(t)@.union(s.elems());
    fn extend_BTreeSet(t: &mut BTreeSet<K>, s: Self) ensures final(t)@ == old(t)@.union(s.elems());
}
'''
for n in ('FxHashMap','BTreeMap'): out+=M.replace('NAME',n)
for n in ('FxHashSet','BTreeSet'): out+=S.replace('NAME',n)
out+='\n// the same collections with another hasher\npub type HashMap<K, V> = FxHashMap<K, V>;\npub type HashSet<K> = FxHashSet<K>;\n'
open('maps.rs','w').write(out)
