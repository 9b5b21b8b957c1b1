%verbatim
// ------------------------------------------------------------------ core stand-ins (trusted)
pub trait VxConv<T>: Sized { spec fn conv(self, r: T) -> bool; fn vx_conv(self) -> (r: T) ensures self.conv(r); }
impl<'a> VxConv<String> for &'a str { open spec fn conv(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_conv(self) -> (r: String) { self.to_string() } }
impl VxConv<String> for String { open spec fn conv(self, r: String) -> bool { r == self } fn vx_conv(self) -> (r: String) { self } }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_array<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { a.into_iter().collect() }
pub fn vx_refs<T>(a: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] r@[i]) == a@[i] {
    let mut r: Vec<&T> = Vec::new(); let n = a.len();
    for k in 0..n invariant n == a@.len(), r@.len() == k, forall|i: int| 0 <= i < k ==> *(#[trigger] r@[i]) == a@[i] { r.push(&a[k]); }
    r
}
pub fn vx_copied<T: Copy>(a: &Vec<T>) -> (r: Vec<T>) ensures r@ == a@ {
    let mut r: Vec<T> = Vec::new(); let n = a.len();
    for k in 0..n invariant n == a@.len(), r@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i]) == a@[i] { r.push(a[k]); }
    assert(r@ =~= a@);
    r
}
pub fn vx_copied_refs<T: Copy>(a: Vec<&T>) -> (r: Vec<T>) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] r@[i]) == *a@[i] {
    let mut r: Vec<T> = Vec::new(); let n = a.len();
    for k in 0..n invariant n == a@.len(), r@.len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] r@[i]) == *a@[i] { r.push(*a[k]); }
    r
}
pub fn vx_extend<T>(a: &mut Vec<T>, o: Vec<T>) ensures final(a)@ == old(a)@ + o@ { let mut o = o; a.append(&mut o); }
pub fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
// T::default()
pub trait VxDef { spec fn dflt(r: Self) -> bool where Self: Sized; fn vx_def() -> (r: Self) where Self: Sized ensures Self::dflt(r); }
impl<T> VxDef for Vec<T> { open spec fn dflt(r: Self) -> bool { r@.len() == 0 } fn vx_def() -> (r: Self) { Vec::new() } }
impl VxDef for String { open spec fn dflt(r: Self) -> bool { r@.len() == 0 } #[verifier::external_body] fn vx_def() -> (r: Self) { String::new() } }
impl VxDef for bool { open spec fn dflt(r: Self) -> bool { !r } fn vx_def() -> (r: Self) { false } }
impl VxDef for usize { open spec fn dflt(r: Self) -> bool { r == 0 } fn vx_def() -> (r: Self) { 0 } }
pub trait VxDeref { type Out: ?Sized; fn vx_deref(&self) -> (r: &Self::Out); }
impl<X> VxDeref for Vec<X> { type Out = [X]; fn vx_deref(&self) -> (r: &[X]) ensures r@ == self@ { self.as_slice() } }
impl VxDeref for String { type Out = str; fn vx_deref(&self) -> (r: &str) ensures r@ == self@ { self.as_str() } }
pub trait VxToString { spec fn vx_shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_shown(); }
impl VxToString for String { open spec fn vx_shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.clone() } }
/// Nothing that XML would take for markup or for the end of an attribute.
pub open spec fn safe_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '<' && s[i] != '&' && s[i] != '"' && s[i] != '\'' }
/// The characters of a text; no text has more than isize::MAX bytes.
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, r@.len() < usize::MAX { s.chars().collect() }
