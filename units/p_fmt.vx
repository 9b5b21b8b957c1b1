%verbatim
// ------------------------------------------------------------------ std::fmt (trusted)
/// What is written to; `solid` if it takes everything, as a String does.
#[verifier::external_body]
pub struct VxFmt { t: String }
pub struct VxFmtError { }
pub type VxFmtResult = Result<(), VxFmtError>;
impl VxConv<VxFmtError> for VxFmtError { open spec fn conv(self, r: VxFmtError) -> bool { r == self } fn vx_conv(self) -> (r: VxFmtError) { self } }
impl VxFmt {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn solid(&self) -> bool;
    #[verifier::external_body]
    pub fn as_text(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put(&mut self, s: &str) -> (r: VxFmtResult) ensures puts(*old(self), *final(self), r, s@) { unimplemented!() }
    pub fn write_str(&mut self, s: &str) -> (r: VxFmtResult) ensures puts(*old(self), *final(self), r, s@) { self.vx_put(s) }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: VxFmtResult) ensures puts(*old(self), *final(self), r, seq![c]) { unimplemented!() }
}
/// The text is appended, or it failed, which what is solid does not.
pub open spec fn puts(o: VxFmt, n: VxFmt, r: VxFmtResult, t: Seq<char>) -> bool { (r is Ok ==> n.text() =~= o.text() + t) && n.solid() == o.solid() && (o.solid() ==> r is Ok) }
pub trait VxDisplay { spec fn displayed(&self) -> Seq<char>; fn fmt(&self, f: &mut VxFmt) -> (r: VxFmtResult) ensures puts(*old(f), *final(f), r, self.displayed()); }
impl VxDisplay for String { open spec fn displayed(&self) -> Seq<char> { self@ } fn fmt(&self, f: &mut VxFmt) -> (r: VxFmtResult) { f.vx_put(self.as_str()) } }
impl VxDisplay for str { open spec fn displayed(&self) -> Seq<char> { self@ } fn fmt(&self, f: &mut VxFmt) -> (r: VxFmtResult) { f.vx_put(self) } }
impl VxDisplay for char { open spec fn displayed(&self) -> Seq<char> { seq![*self] } fn fmt(&self, f: &mut VxFmt) -> (r: VxFmtResult) { f.write_char(*self) } }
/// std's Peekable over a slice.
pub struct VxPeek<'a, T> { pub v: Vec<&'a T>, pub i: usize }
impl<'a, T> VxPeek<'a, T> {
    pub fn new(v: Vec<&'a T>) -> (r: Self) ensures r.v@ == v@, r.i == 0 { VxPeek { v, i: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).i <= old(self).v@.len(),
        ensures final(self).v@ == old(self).v@, r is Some == (old(self).i < old(self).v@.len()), r matches Some(x) ==> x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, r is None ==> final(self).i == old(self).i,
    { if self.i < self.v.len() { let x = self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
    pub fn peek(&self) -> (r: Option<&'a T>) ensures r is Some == (self.i < self.v@.len()), r matches Some(x) ==> x == self.v@[self.i as int] { if self.i < self.v.len() { Some(self.v[self.i]) } else { None } }
}
