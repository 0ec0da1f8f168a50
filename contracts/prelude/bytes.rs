// Byte streams: files, zstd, CBOR and hashing as functions on byte sequences.
pub uninterp spec fn hash_of(s: Seq<u8>) -> ObjectId;            // SHA-224
pub uninterp spec fn zenc(s: Seq<u8>) -> Seq<u8>;                // one zstd frame
pub uninterp spec fn unz(s: Seq<u8>) -> Seq<u8>;                 // what decoding from here yields
pub uninterp spec fn zok(s: Seq<u8>) -> bool;                    // ... without error
#[verifier::external_body]
pub proof fn axiom_zstd(s: Seq<u8>, rest: Seq<u8>) ensures unz(zenc(s) + rest) == s, zok(zenc(s) + rest), zenc(s).len() < 0x1_0000_0000 {}
// CBOR: the value at the start of s and the number of bytes it takes
pub trait Cbor: Sized { spec fn val(s: Seq<u8>) -> Option<(Self, nat)>; }
pub open spec fn be32(s: Seq<u8>) -> int { ((s[0] as int * 256 + s[1] as int) * 256 + s[2] as int) * 256 + s[3] as int }

// a reader being drained: `full` is all it can ever yield, `got` how much it has
// yielded, `will` how much it has yielded when it is dropped (a prophecy: the
// functions that end its life say so), `ok` whether it can be read without error
pub trait Rd: Sized { spec fn full(&self) -> Seq<u8>; spec fn got(&self) -> nat; spec fn will(&self) -> nat; spec fn ok(&self) -> bool; }
pub open spec fn rd_same<R: Rd>(a: R, b: R) -> bool { a.full() == b.full() && a.will() == b.will() && a.ok() == b.ok() }
pub struct Sink { pub x: u8 }
pub fn io__sink() -> (r: Sink) { Sink { x: 0 } }
#[verifier::external_body]
pub fn io__copy<R: Rd>(r: &mut R, s: &mut Sink) -> (res: Result<u64>)
    requires old(r).got() <= old(r).full().len()
    ensures rd_same(*final(r), *old(r)), match res { Ok(n) => final(r).got() == old(r).full().len() && n == old(r).full().len() - old(r).got(), Err(e) => e.io() || !old(r).ok() } { unimplemented!() }
#[verifier::external_body]
pub fn io__copy_temp<R: Rd>(r: R, s: &mut Sink) -> (res: Result<u64>)
    ensures match res { Ok(n) => r.will() == r.full().len() && n == r.full().len() - r.got(), Err(e) => e.io() || !r.ok() } { unimplemented!() }
#[verifier::external_body]
pub fn ciborium__from_reader<T: Cbor, R: Rd>(r: &mut R) -> (res: Result<T>)
    requires old(r).got() <= old(r).full().len()
    ensures rd_same(*final(r), *old(r)), match res {
        Ok(t) => final(r).got() >= old(r).got() && final(r).got() <= old(r).full().len()
            && T::val(old(r).full().skip(old(r).got() as int)) == Some((t, (final(r).got() - old(r).got()) as nat)),
        Err(e) => e.io() || !old(r).ok() || T::val(old(r).full().skip(old(r).got() as int)) is None } { unimplemented!() }

#[verifier::external_body]
pub struct Window { x: u8 }
impl Rd for Window { uninterp spec fn full(&self) -> Seq<u8>; uninterp spec fn got(&self) -> nat; uninterp spec fn will(&self) -> nat; uninterp spec fn ok(&self) -> bool; }
impl Window {
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (res: Result<usize>)
        requires old(self).got() <= old(self).full().len()
        ensures rd_same(*final(self), *old(self)), match res { Ok(n) => final(self).got() == old(self).full().len() && final(buf)@ == old(buf)@ + old(self).full().skip(old(self).got() as int), Err(e) => e.io() || !old(self).ok() } { unimplemented!() }
}

// hashing: the hash of exactly what was read through it (verified in unit `hashing`)
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct HashingReader<R> { r: R }
impl<R: Rd> Rd for HashingReader<R> { uninterp spec fn full(&self) -> Seq<u8>; uninterp spec fn got(&self) -> nat; uninterp spec fn will(&self) -> nat; uninterp spec fn ok(&self) -> bool; }
impl<R: Rd> HashingReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (h: Self) ensures h.full() == r.full().skip(r.got() as int), h.got() == 0, h.will() == r.will() - r.got(), h.ok() == r.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (res: (ObjectId, R)) ensures res.0 == hash_of(self.full().take(self.got() as int)), self.got() == self.will() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (res: Result<usize>)
        requires old(self).got() <= old(self).full().len()
        ensures rd_same(*final(self), *old(self)), match res { Ok(n) => final(self).got() == old(self).full().len() && final(buf)@ == old(buf)@ + old(self).full().skip(old(self).got() as int), Err(e) => e.io() || !old(self).ok() } { unimplemented!() }
}
impl ObjectId {
    #[verifier::external_body]
    pub fn hash(b: &[u8]) -> (r: ObjectId) ensures r == hash_of(b@) { unimplemented!() }
}

// files
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait RBuf { spec fn bv(&self) -> Seq<u8>; }
impl RBuf for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl RBuf for [u8; 4] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl RBuf for [u8; 1] { open spec fn bv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct PackFile { x: u8 }
impl PackFile {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        ensures final(self).bytes() == old(self).bytes(), match r {
            Ok(n) => final(self).pos() >= 0 && final(self).pos() == (match to { SeekFrom::Start(k) => k as int, SeekFrom::End(k) => old(self).bytes().len() + k, SeekFrom::Current(k) => old(self).pos() + k }),
            Err(e) => e.io() || (match to { SeekFrom::Start(k) => false, SeekFrom::End(k) => old(self).bytes().len() + k < 0, SeekFrom::Current(k) => old(self).pos() + k < 0 }) } { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact<B: RBuf>(&mut self, b: &mut B) -> (r: Result<()>)
        requires old(self).pos() >= 0
        ensures final(self).bytes() == old(self).bytes(), final(b).bv().len() == old(b).bv().len(), match r {
            Ok(_) => final(self).pos() == old(self).pos() + old(b).bv().len() && final(self).pos() <= old(self).bytes().len() && final(b).bv() == old(self).bytes().subrange(old(self).pos(), final(self).pos()),
            Err(e) => e.io() || old(self).pos() + old(b).bv().len() > old(self).bytes().len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, n: u64) -> (r: Window)
        requires 0 <= old(self).pos() <= old(self).bytes().len()
        ensures final(self).bytes() == old(self).bytes(), r.got() == 0, r.ok(), r.full() == (if old(self).pos() + n <= old(self).bytes().len() { old(self).bytes().subrange(old(self).pos(), old(self).pos() + n) } else { old(self).bytes().skip(old(self).pos()) }) { unimplemented!() }
}
impl Rd for &mut PackFile { open spec fn full(&self) -> Seq<u8> { (**self).bytes() } open spec fn got(&self) -> nat { (**self).pos() as nat } uninterp spec fn will(&self) -> nat; open spec fn ok(&self) -> bool { true } }
pub trait ZSrc: Sized { spec fn left(&self) -> Seq<u8>; spec fn whole(&self) -> Seq<u8>; }
impl ZSrc for &mut PackFile { open spec fn left(&self) -> Seq<u8> { (*self).bytes().skip((*self).pos()) } open spec fn whole(&self) -> Seq<u8> { (*self).bytes() } }
impl ZSrc for PackFile { open spec fn left(&self) -> Seq<u8> { self.bytes().skip(self.pos()) } open spec fn whole(&self) -> Seq<u8> { self.bytes() } }
impl ZSrc for Window { open spec fn left(&self) -> Seq<u8> { self.full().skip(self.got() as int) } open spec fn whole(&self) -> Seq<u8> { self.full() } }
#[verifier::external_body]
pub struct ZstdDecoder { x: u8 }
impl Rd for ZstdDecoder { uninterp spec fn full(&self) -> Seq<u8>; uninterp spec fn got(&self) -> nat; uninterp spec fn will(&self) -> nat; uninterp spec fn ok(&self) -> bool; }
impl ZstdDecoder {
    pub uninterp spec fn whole(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new<S: ZSrc>(s: S) -> (r: Result<ZstdDecoder>)
        ensures match r { Ok(d) => d.full() == unz(s.left()) && d.got() == 0 && d.ok() == zok(s.left()) && d.whole() == s.whole(), Err(e) => e.io() || !zok(s.left()) } { unimplemented!() }
    // `(&mut d).take(n)` / `d.take(n)`
    #[verifier::external_body]
    pub fn take_mut(&mut self, n: u64) -> (r: Window)
        requires old(self).got() <= old(self).full().len()
        ensures final(self).full() == old(self).full(), final(self).ok() == old(self).ok(), final(self).whole() == old(self).whole(), final(self).got() == old(self).got() + r.will(), r.will() <= r.full().len(),
            r.got() == 0, r.ok() == old(self).ok(), r.full() == window(old(self).full(), old(self).got() as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: u64) -> (r: Window)
        requires self.got() <= self.full().len()
        ensures r.got() == 0, r.ok() == self.ok(), r.full() == window(self.full(), self.got() as int, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: PackFile) ensures r.bytes() == self.whole() { unimplemented!() }
}
pub open spec fn window(s: Seq<u8>, a: int, n: int) -> Seq<u8> { s.subrange(a, if a + n <= s.len() { a + n } else { s.len() as int }) }
