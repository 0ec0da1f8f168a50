use std::sync::Arc;
// Opaque value types the tree code only compares and copies.
#[verifier::external_body]
pub struct Utf8PathBuf { p: String }
impl PartialEq for Utf8PathBuf { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Utf8PathBuf { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl Clone for Utf8PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Utf8Path = Utf8PathBuf;
pub uninterp spec fn path_join(a: Utf8PathBuf, b: Utf8PathBuf) -> Utf8PathBuf;
pub uninterp spec fn path_empty() -> Utf8PathBuf;
// a path as its components; entry names are single components
pub uninterp spec fn comps(p: Utf8PathBuf) -> Seq<int>;
pub open spec fn name_ok(p: Utf8PathBuf) -> bool { comps(p).len() == 1 }
#[verifier::external_body]
pub proof fn axiom_name(a: Utf8PathBuf, b: Utf8PathBuf) requires name_ok(a), name_ok(b), comps(a) == comps(b) ensures a == b {}
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn new<'a>(s: &'a str) -> (r: &'a Utf8PathBuf) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Utf8PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, o: &Utf8PathBuf) ensures *final(self) == path_join(*old(self), *o), name_ok(*o) ==> comps(*final(self)) == comps(*old(self)) + comps(*o) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, o: &Utf8PathBuf) -> (r: Utf8PathBuf) ensures r == path_join(*self, *o), name_ok(*o) ==> comps(r) == comps(*self) + comps(*o) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Timestamp { t: i64 }
impl PartialEq for Timestamp { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Timestamp { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
