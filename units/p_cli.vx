%verbatim
// ------------------------------------------------------------------ the outside of the program (trusted)
/// One report: the text it shows, under which name, and the place in it.
pub ghost struct Rep { pub name: Seq<char>, pub text: Seq<char>, pub at: int }
/// Standard input as far as it was not read (none: it cannot be read), what standard output was given, and the reports on standard error.
pub tracked struct World { pub ghost input: Option<Seq<char>>, pub ghost out: Seq<u8>, pub ghost reports: Seq<Rep> }
/// The arguments, the first being the program itself.
pub uninterp spec fn arg_list() -> Seq<Seq<char>>;
/// What is read from a path.
pub uninterp spec fn file_text(path: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct VxArgs { a: u8 }
impl VxArgs {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<String>)
        ensures n < old(self).rest().len() ==> (r matches Some(s) && s@ == old(self).rest()[n as int]) && final(self).rest() == old(self).rest().skip(n + 1),
            n >= old(self).rest().len() ==> r is None && final(self).rest().len() == 0,
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<String>)
        ensures 0 < old(self).rest().len() ==> (r matches Some(s) && s@ == old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            0 == old(self).rest().len() ==> r is None && final(self).rest().len() == 0,
    { self.nth(0) }
}
#[verifier::external_body]
pub fn vx_args() -> (r: VxArgs) ensures r.rest() == arg_list() { unimplemented!() }
pub trait VxPath { spec fn path(&self) -> Seq<char>; }
impl VxPath for String { open spec fn path(&self) -> Seq<char> { self@ } }
impl<'a> VxPath for &'a str { open spec fn path(&self) -> Seq<char> { self@ } }
impl<'a> VxPath for &'a String { open spec fn path(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_read_file<P: VxPath>(p: P) -> (r: Result<String, Error>) ensures match file_text(p.path()) { Some(t) => r matches Ok(s) && s@ == t, None => r is Err } { unimplemented!() }
pub struct VxStdin { }
pub fn vx_stdin() -> VxStdin { VxStdin { } }
impl VxStdin {
    #[verifier::external_body]
    pub fn read_to_string(&self, s: &mut String, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, Error>)
        ensures match old(w).input { Some(t) => r is Ok && final(s)@ == old(s)@ + t && *final(w) == (World { input: Some(Seq::empty()), ..*old(w) }), None => r is Err && *final(w) == *old(w) }
    { unimplemented!() }
}
/// Standard output while it is locked; it accepts everything.
#[verifier::external_body]
pub struct VxLocked { w: u8 }
impl VxWrite for VxLocked {
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn broke(&self) -> bool;
    uninterp spec fn solid(&self) -> bool;
    #[verifier::external_body]
    fn write_all(&mut self, b: Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
}
pub struct VxStdout { }
pub fn vx_stdout() -> VxStdout { VxStdout { } }
impl VxStdout {
    #[verifier::external_body]
    pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: VxLocked) ensures *final(w) == *old(w), r.out() == old(w).out, r.solid() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_unlock(h: VxLocked, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { out: h.out(), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_print(s: String, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { out: old(w).out + utf8(s@), ..*old(w) }) { unimplemented!() }
impl VxConv<Error> for Error { open spec fn conv(self, r: Error) -> bool { r == self } fn vx_conv(self) -> (r: Error) { self } }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
pub struct Utf8Error { }
#[verifier::external]
impl core::fmt::Debug for Utf8Error { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
/// What was encoded can be decoded.
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, Utf8Error>) ensures forall|s: Seq<char>| v@ == #[trigger] utf8(s) ==> (r matches Ok(t) && t@ == s) { unimplemented!() }
