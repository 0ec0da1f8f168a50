// Shims for std/anyhow items the extracted code uses.  Everything `external_body`
// here is trusted and listed in the evidence (trusted_base).
#[verifier::external_body]
pub struct Error { e: u8 }
impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Error { pub uninterp spec fn io(&self) -> bool; }   // the environment failed (I/O), not the data
#[verifier::external_body]
pub fn anyhow_err() -> (r: Error) ensures !r.io() { unimplemented!() }
pub type Result<T, E = Error> = core::result::Result<T, E>;

// never known to hold or not: vacuity probes
pub uninterp spec fn bp_probe(k: int) -> bool;
// assert!/assert_eq! of the code become obligations; unreachable!/panic! too.
pub fn exec_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn exec_unreachable<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn fmt_opaque() -> (r: String) { unimplemented!() }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ObjectId { b: [u8; 28] }
impl PartialEq for ObjectId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ObjectId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl ObjectId {
    #[verifier::external_body]
    pub fn short_name(&self) -> (r: String) { unimplemented!() }
}

// ---- iterators: every source becomes a finite sequence with a position
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SeqIter<T> { t: Vec<T> }
impl<T> SeqIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).seq() == old(self).seq(),
            match r {
                Some(x) => 0 <= old(self).pos() < old(self).seq().len() && x == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() >= old(self).seq().len() && final(self).pos() == old(self).pos(),
            }
    { unimplemented!() }
}
impl<T> SeqIter<T> {
    #[verifier::external_body]
    pub fn chain(self, o: SeqIter<T>) -> (r: SeqIter<T>) requires self.pos() == 0, o.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq() + o.seq(),
            forall|i: int| 0 <= i < self.seq().len() ==> r.seq()[i] == #[trigger] self.seq()[i], forall|i: int| 0 <= i < o.seq().len() ==> r.seq()[self.seq().len() + i] == #[trigger] o.seq()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: SeqIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
}
// `.iter()` => `.it()`; `for x in E` / `.into_iter()` => `E.into_it()`
pub trait It<'a> { type Item; fn it(&'a self) -> SeqIter<Self::Item>; }
pub trait IntoIt: Sized { type Item; fn into_it(self) -> SeqIter<Self::Item>; }

impl<'a, T: 'a> It<'a> for Vec<T> { type Item = &'a T;
    #[verifier::external_body]
    fn it(&'a self) -> (r: SeqIter<&'a T>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i]
    { unimplemented!() } }
impl<'a, T: 'a> It<'a> for [T] { type Item = &'a T;
    #[verifier::external_body]
    fn it(&'a self) -> (r: SeqIter<&'a T>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i]
    { unimplemented!() } }
impl<'a, T> IntoIt for &'a Vec<T> { type Item = &'a T;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<&'a T>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i]
    { unimplemented!() } }
impl<'a, T> IntoIt for &'a [T] { type Item = &'a T;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<&'a T>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i]
    { unimplemented!() } }
impl<T> IntoIt for Vec<T> { type Item = T;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<T>) ensures r.pos() == 0, r.seq() == self@ { unimplemented!() } }
impl<T> IntoIt for Option<T> { type Item = T;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<T>) ensures r.pos() == 0, r.seq() == (match self { Some(x) => seq![x], None => Seq::<T>::empty() }) { unimplemented!() } }
impl<T> IntoIt for SeqIter<T> { type Item = T;
    #[verifier::external_body]
    fn into_it(self) -> (r: SeqIter<T>) ensures r == self { unimplemented!() } }

// `.collect()` / `.partition()` push into one of these
pub trait FromIt<A>: Sized {
    spec fn is_new(self) -> bool;
    spec fn is_push(self, x: A, new: Self) -> bool;
    fn collect_new_() -> (r: Self) ensures r.is_new();
    fn collect_push_(&mut self, x: A) ensures (*old(self)).is_push(x, *final(self));
}
pub fn collect_new<A, C: FromIt<A>>() -> (r: C) ensures r.is_new() { C::collect_new_() }
pub fn collect_push<A, C: FromIt<A>>(c: &mut C, x: A) ensures (*old(c)).is_push(x, *final(c)) { c.collect_push_(x) }
impl<A> FromIt<A> for Vec<A> {
    open spec fn is_new(self) -> bool { self@ == Seq::<A>::empty() }
    open spec fn is_push(self, x: A, new: Self) -> bool { new@ == self@.push(x) }
    #[verifier::external_body]
    fn collect_new_() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn collect_push_(&mut self, x: A) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU64 { a: u64 }
impl AtomicU64 {
    pub uninterp spec fn val(&self) -> int;
    #[verifier::external_body]
    pub fn new(x: u64) -> (r: Self) ensures r.val() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, x: u64, o: Ordering) -> (r: u64) { unimplemented!() }
    // counters are mathematical integers (a wrap would need 2^64 increments)
    #[verifier::external_body]
    pub fn fetch_add_mut(&mut self, x: u64) -> (r: u64) ensures final(self).val() == old(self).val() + x { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.val() { unimplemented!() }
}
pub enum Ordering { Relaxed, SeqCst, Acquire, Release, AcqRel }
// `@math` functions: additions of sizes and counters are mathematical (assumed not to overflow)
pub trait MInt: Sized { spec fn mi(self) -> int; fn madd_(self, o: Self) -> (r: Self) ensures r.mi() == self.mi() + o.mi(); fn mmul_(self, o: Self) -> (r: Self) ensures r.mi() == self.mi() * o.mi(); }
impl MInt for u64 { open spec fn mi(self) -> int { self as int }
    #[verifier::external_body] fn madd_(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn mmul_(self, o: Self) -> (r: Self) { unimplemented!() } }
impl MInt for u32 { open spec fn mi(self) -> int { self as int }
    #[verifier::external_body] fn madd_(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn mmul_(self, o: Self) -> (r: Self) { unimplemented!() } }
impl MInt for usize { open spec fn mi(self) -> int { self as int }
    #[verifier::external_body] fn madd_(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn mmul_(self, o: Self) -> (r: Self) { unimplemented!() } }
pub fn madd<T: MInt>(a: T, b: T) -> (r: T) ensures r.mi() == a.mi() + b.mi() { a.madd_(b) }
pub fn mmul<T: MInt>(a: T, b: T) -> (r: T) ensures r.mi() == a.mi() * b.mi() { a.mmul_(b) }
// `a &= b`
pub trait BAnd: Sized { spec fn band_spec(a: Self, b: Self) -> Self; fn band_(a: Self, b: Self) -> (r: Self) ensures r == Self::band_spec(a, b); }
impl BAnd for bool { open spec fn band_spec(a: bool, b: bool) -> bool { a && b } fn band_(a: bool, b: bool) -> (r: bool) { a && b } }
impl BAnd for u32 { open spec fn band_spec(a: u32, b: u32) -> u32 { a & b } fn band_(a: u32, b: u32) -> (r: u32) { a & b } }
pub fn band<T: BAnd>(a: T, b: T) -> (r: T) ensures r == T::band_spec(a, b) { T::band_(a, b) }
// values are only given up early
#[verifier::external_body]
pub fn drop<T>(x: T) {}
