%verbatim
use core::ops;
// ------------------------------------------------------------------ the parser library (trusted): chumsky 0.8
/// What is known of a parser at a position: it succeeds without reporting an error (result, next position),
/// it fails without having reported any error, or nothing is said.
pub enum Out<O> { Ok(O, int), Fail, Other }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(O)]
pub struct Ps<I, O> { p: core::marker::PhantomData<(I, O)> }
#[verifier::external]
impl<I, O> Clone for Ps<I, O> { fn clone(&self) -> Self { unimplemented!() } }
impl<I, O> Copy for Ps<I, O> { }

pub open spec fn vec_out<O>(o: Out<Vec<O>>) -> Out<Seq<O>> { match o { Out::Ok(v, j) => Out::Ok(v@, j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn str_out(o: Out<String>) -> Out<Seq<char>> { match o { Out::Ok(v, j) => Out::Ok(v@, j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
/// The parser over and over, up to its first failure.
pub open spec fn rep<I, O>(p: Ps<I, O>, s: Seq<I>, i: int) -> Out<Seq<O>> decreases s.len() - i {
    match p.run(s, i) {
        Out::Ok(o, j) => if 0 <= i < j <= s.len() { match rep(p, s, j) { Out::Ok(v, k) => Out::Ok(seq![o] + v, k), Out::Fail => Out::Fail, Out::Other => Out::Other } } else { Out::Other },
        Out::Fail => Out::Ok(Seq::empty(), i),
        Out::Other => Out::Other,
    }
}
/// The parser exactly n times.
pub open spec fn rep_n<I, O>(p: Ps<I, O>, s: Seq<I>, i: int, n: nat) -> Out<Seq<O>> decreases n {
    if n == 0 { Out::Ok(Seq::empty(), i) } else {
        match p.run(s, i) {
            Out::Ok(o, j) => match rep_n(p, s, j, (n - 1) as nat) { Out::Ok(v, k) => Out::Ok(seq![o] + v, k), Out::Fail => Out::Fail, Out::Other => Out::Other },
            Out::Fail => Out::Fail,
            Out::Other => Out::Other,
        }
    }
}
pub trait Same { spec fn same(&self, o: &Self) -> bool; }
impl Same for char { open spec fn same(&self, o: &char) -> bool { *self == *o } }
/// A place in a text of n characters: inside or at its end.
pub open spec fn in_text(sp: Span, n: int) -> bool { sp.start <= n && sp.start <= sp.end <= n + 1 }

impl<I, O> Ps<I, O> {
    pub uninterp spec fn run(&self, s: Seq<I>, i: int) -> Out<O>;
    /// o can be a result somewhere in s, possibly together with errors.
    pub uninterp spec fn may(&self, s: Seq<I>, o: O) -> bool;
    /// Every success consumes input.
    pub uninterp spec fn eats(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn or(self, b: Ps<I, O>) -> (r: Ps<I, O>)
        ensures r.eats() == (self.eats() && b.eats()),
            forall|s: Seq<I>, o: O| #[trigger] r.may(s, o) ==> self.may(s, o) || b.may(s, o),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) { Out::Fail => b.run(s, i), x => x },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn then<P>(self, b: Ps<I, P>) -> (r: Ps<I, (O, P)>)
        ensures r.eats() == (self.eats() || b.eats()),
            forall|s: Seq<I>, o: (O, P)| #[trigger] r.may(s, o) ==> self.may(s, o.0) && b.may(s, o.1),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) {
                Out::Ok(x, j) => match b.run(s, j) { Out::Ok(y, k) => Out::Ok((x, y), k), Out::Fail => Out::Fail, Out::Other => Out::Other },
                Out::Fail => Out::Fail, Out::Other => Out::Other },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ignore_then<P>(self, b: Ps<I, P>) -> (r: Ps<I, P>)
        ensures r.eats() == (self.eats() || b.eats()),
            forall|s: Seq<I>, o: P| #[trigger] r.may(s, o) ==> b.may(s, o),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) { Out::Ok(x, j) => b.run(s, j), Out::Fail => Out::Fail, Out::Other => Out::Other },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn then_ignore<P>(self, b: Ps<I, P>) -> (r: Ps<I, O>)
        ensures r.eats() == (self.eats() || b.eats()),
            forall|s: Seq<I>, o: O| #[trigger] r.may(s, o) ==> self.may(s, o),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) {
                Out::Ok(x, j) => match b.run(s, j) { Out::Ok(y, k) => Out::Ok(x, k), Out::Fail => Out::Fail, Out::Other => Out::Other },
                Out::Fail => Out::Fail, Out::Other => Out::Other },
    { unimplemented!() }
    pub fn padded_by<P>(self, p: Ps<I, P>) -> (r: Ps<I, O>)
        ensures r.eats() == (self.eats() || p.eats()),
            forall|s: Seq<I>, o: O| #[trigger] r.may(s, o) ==> self.may(s, o),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match p.run(s, i) {
                Out::Ok(a, h) => match self.run(s, h) {
                    Out::Ok(x, j) => match p.run(s, j) { Out::Ok(y, k) => Out::Ok(x, k), Out::Fail => Out::Fail, Out::Other => Out::Other },
                    Out::Fail => Out::Fail, Out::Other => Out::Other },
                Out::Fail => Out::Fail, Out::Other => Out::Other },
    { p.clone().ignore_then(self).then_ignore(p) }
    /// A parser that could succeed without consuming would be repeated for ever (the library panics).
    #[verifier::external_body]
    pub fn repeated(self) -> (r: Ps<I, Vec<O>>)
        requires self.eats(),  // [C17]
        ensures forall|s: Seq<I>, o: Vec<O>| #[trigger] r.may(s, o) ==> forall|k: int| 0 <= k < o@.len() ==> self.may(s, #[trigger] o@[k]),
            forall|s: Seq<I>, i: int| vec_out(#[trigger] r.run(s, i)) == rep(self, s, i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn repeated_exactly(self, n: usize) -> (r: Ps<I, Vec<O>>)
        requires self.eats(),  // [C17]
        ensures r.eats() == (n > 0),
            forall|s: Seq<I>, o: Vec<O>| #[trigger] r.may(s, o) ==> o@.len() == n && forall|k: int| 0 <= k < o@.len() ==> self.may(s, #[trigger] o@[k]),
            forall|s: Seq<I>, i: int| vec_out(#[trigger] r.run(s, i)) == rep_n(self, s, i, n as nat),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_not(self) -> (r: Ps<I, Option<O>>)
        ensures forall|s: Seq<I>, o: Option<O>| #[trigger] r.may(s, o) ==> (o matches Some(x) ==> self.may(s, x)),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) { Out::Ok(x, j) => Out::Ok(Some(x), j), Out::Fail => Out::Ok(None, i), Out::Other => Out::Other },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to<U>(self, u: U) -> (r: Ps<I, U>)
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) { Out::Ok(x, j) => Out::Ok(u, j), Out::Fail => Out::Fail, Out::Other => Out::Other },
    { unimplemented!() }
    pub fn ignored(self) -> (r: Ps<I, ()>)
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, i: int| #[trigger] r.run(s, i) == match self.run(s, i) { Out::Ok(x, j) => Out::Ok((), j), Out::Fail => Out::Fail, Out::Other => Out::Other },
    { self.to(()) }
    /// One element before a list.
    #[verifier::external_body]
    pub fn chain(self, b: Ps<I, Vec<O>>) -> (r: Ps<I, Vec<O>>)
        ensures r.eats() == (self.eats() || b.eats()),
            forall|s: Seq<I>, i: int| vec_out(#[trigger] r.run(s, i)) == match self.run(s, i) {
                Out::Ok(x, j) => match vec_out(b.run(s, j)) { Out::Ok(y, k) => Out::Ok(seq![x] + y, k), Out::Fail => Out::Fail, Out::Other => Out::Other },
                Out::Fail => Out::Fail, Out::Other => Out::Other },
    { unimplemented!() }
    /// The function is called for no other values than those the parser can yield.
    #[verifier::external_body]
    pub fn map<U, F: Fn(O) -> U>(self, f: F) -> (r: Ps<I, U>)
        requires forall|s: Seq<I>, o: O| #[trigger] self.may(s, o) ==> f.requires((o,)),  // [C17]
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, u: U| #[trigger] r.may(s, u) ==> exists|o: O| self.may(s, o) && f.ensures((o,), u),
            forall|s: Seq<I>, i: int| match self.run(s, i) {
                Out::Ok(x, j) => (#[trigger] r.run(s, i) matches Out::Ok(u, k) && k == j && f.ensures((x,), u)),
                Out::Fail => r.run(s, i) is Fail, Out::Other => r.run(s, i) is Other },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_with_span<U, F: Fn(O, Span) -> U>(self, f: F) -> (r: Ps<I, U>)
        requires forall|s: Seq<I>, o: O, p: Span| #[trigger] self.may(s, o) ==> #[trigger] f.requires((o, p)),  // [C17]
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, u: U| #[trigger] r.may(s, u) ==> exists|o: O, p: Span| in_text(p, s.len() as int) && self.may(s, o) && #[trigger] f.ensures((o, p), u),
            forall|s: Seq<I>, i: int| match self.run(s, i) {
                Out::Ok(x, j) => (#[trigger] r.run(s, i) matches Out::Ok(u, k) && k == j && exists|p: Span| #[trigger] f.ensures((x, p), u)),
                Out::Fail => r.run(s, i) is Fail, Out::Other => r.run(s, i) is Other },
    { unimplemented!() }
    /// The function may report errors through its last argument. Where it cannot, none is reported.
    #[verifier::external_body]
    pub fn validate<U, F: Fn(O, Span, Emit<I>) -> U>(self, f: F) -> (r: Ps<I, U>)
        requires forall|s: Seq<I>, o: O, e: Emit<I>| #[trigger] self.may(s, o) && e.open() ==> #[trigger] f.requires((o, e.at(), e)),  // [C17]
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, i: int| match self.run(s, i) {
                Out::Ok(x, j) => (forall|e: Emit<I>| !e.open() ==> #[trigger] f.requires((x, e.at(), e))) ==>
                    (r.run(s, i) matches Out::Ok(u, k) && k == j && exists|e: Emit<I>| !e.open() && #[trigger] f.ensures((x, e.at(), e), u)),
                Out::Fail => #[trigger] r.run(s, i) is Fail, Out::Other => true },
    { unimplemented!() }
    /// Skips input until the parser succeeds; at the end of the input the failure stands.
    #[verifier::external_body]
    pub fn recover_with(self, st: SkipRetry) -> (r: Ps<I, O>)
        ensures r.eats() == self.eats(),
            forall|s: Seq<I>, o: O| #[trigger] r.may(s, o) ==> self.may(s, o),
            forall|s: Seq<I>, i: int| match self.run(s, i) {
                Out::Ok(x, j) => #[trigger] r.run(s, i) == self.run(s, i),
                Out::Fail => i == s.len() ==> r.run(s, i) is Fail, Out::Other => true },
    { unimplemented!() }
}
impl Ps<char, Vec<char>> {
    #[verifier::external_body]
    pub fn collect_string(self) -> (r: Ps<char, String>)
        ensures r.eats() == self.eats(),
            forall|s: Seq<char>, o: String| #[trigger] r.may(s, o) ==> exists|v: Vec<char>| #[trigger] self.may(s, v) && v@ == o@,
            forall|s: Seq<char>, i: int| str_out(#[trigger] r.run(s, i)) == vec_out(self.run(s, i)),
    { unimplemented!() }
}
/// Results without errors are results.
pub broadcast axiom fn ax_run_may<I, O>(p: Ps<I, O>, s: Seq<I>, i: int) ensures #[trigger] p.run(s, i) matches Out::Ok(o, j) ==> p.may(s, o);
pub struct SkipRetry { }
#[verifier::external_body]
pub fn skip_then_retry_until<const N: usize>(a: [char; N]) -> (r: SkipRetry) requires N == 0 { SkipRetry { } }
#[verifier::external_body]
pub fn just<T: Same>(t: T) -> (r: Ps<T, T>)
    ensures r.eats(), forall|s: Seq<T>, i: int| #[trigger] r.run(s, i) == if 0 <= i < s.len() && t.same(&s[i]) { Out::Ok(t, i + 1) } else { Out::Fail },
{ unimplemented!() }
pub open spec fn starts(s: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> s[i + k] == #[trigger] t[k] }
#[verifier::external_body]
pub fn just_str(t: &'static str) -> (r: Ps<char, &'static str>)
    ensures r.eats() == (t@.len() > 0), forall|s: Seq<char>, i: int| #[trigger] r.run(s, i) == if starts(s, i, t@) { Out::Ok(t, i + t@.len()) } else { Out::Fail },
{ unimplemented!() }
#[verifier::external_body]
pub fn one_of(t: &str) -> (r: Ps<char, char>)
    ensures r.eats(), forall|s: Seq<char>, i: int| #[trigger] r.run(s, i) == if 0 <= i < s.len() && t@.contains(s[i]) { Out::Ok(s[i], i + 1) } else { Out::Fail },
{ unimplemented!() }
#[verifier::external_body]
pub fn none_of(t: &str) -> (r: Ps<char, char>)
    ensures r.eats(), forall|s: Seq<char>, i: int| #[trigger] r.run(s, i) == if 0 <= i < s.len() && !t@.contains(s[i]) { Out::Ok(s[i], i + 1) } else { Out::Fail },
{ unimplemented!() }
#[verifier::external_body]
pub fn filter<I, F: Fn(&I) -> bool>(f: F) -> (r: Ps<I, I>)
    requires forall|x: I| #[trigger] f.requires((&x,)),  // [C17]
    ensures r.eats(),
        forall|s: Seq<I>, o: I| #[trigger] r.may(s, o) ==> f.ensures((&o,), true),
        forall|s: Seq<I>, i: int| (#[trigger] r.run(s, i) matches Out::Ok(o, j) ==> 0 <= i < s.len() && o == s[i] && j == i + 1 && f.ensures((&s[i],), true))
            && (r.run(s, i) is Fail && 0 <= i < s.len() ==> f.ensures((&s[i],), false)) && !(r.run(s, i) is Other),
{ unimplemented!() }
/// Errors are made for the place the function was given.
#[verifier::external_body]
pub fn filter_map<I, O, F: Fn(Span, I) -> Result<O, Simple<I>>>(f: F) -> (r: Ps<I, O>)
    requires forall|p: Span, x: I| #[trigger] f.requires((p, x)),  // [C17]
        forall|p: Span, x: I, e: Simple<I>| #[trigger] f.ensures((p, x), Err(e)) ==> e.sp() == p,  // [C17]
    ensures r.eats(),
        forall|s: Seq<I>, i: int| (#[trigger] r.run(s, i) matches Out::Ok(o, j) ==> 0 <= i < s.len() && j == i + 1 && exists|p: Span| #[trigger] f.ensures((p, s[i]), Ok(o)))
            && (r.run(s, i) is Fail && 0 <= i < s.len() ==> exists|p: Span, e: Simple<I>| #[trigger] f.ensures((p, s[i]), Err(e))) && !(r.run(s, i) is Other),
{ unimplemented!() }
pub open spec fn id_start(c: char) -> bool { c == '_' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn id_part(c: char) -> bool { id_start(c) || '0' <= c <= '9' }
pub open spec fn word_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && id_part(s[i]) { word_end(s, i + 1) } else { i } }
pub open spec fn word_at(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && id_start(s[i]) }
#[verifier::external_body]
pub fn text_ident() -> (r: Ps<char, String>)
    ensures r.eats(), forall|s: Seq<char>, i: int| str_out(#[trigger] r.run(s, i)) == if word_at(s, i) { Out::Ok(s.subrange(i, word_end(s, i + 1)), word_end(s, i + 1)) } else { Out::Fail },
{ unimplemented!() }
#[verifier::external_body]
pub fn text_keyword(t: &'static str) -> (r: Ps<char, ()>)
    ensures r.eats(), forall|s: Seq<char>, i: int| #[trigger] r.run(s, i) == if word_at(s, i) && s.subrange(i, word_end(s, i + 1)) == t@ { Out::Ok((), word_end(s, i + 1)) } else { Out::Fail },
{ unimplemented!() }
%include p_err.vx
%verbatim
/// The way a validation reports errors: about its place, and only if it is open.
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Emit<I> { p: core::marker::PhantomData<I> }
impl<I> Emit<I> {
    pub uninterp spec fn open(&self) -> bool;
    pub uninterp spec fn at(&self) -> Span;
    #[verifier::external_body]
    pub fn put(&self, e: Simple<I>) requires self.open(), e.sp() == self.at() { unimplemented!() }
}
// ------------------------------------------------------------------ running a parser
impl<O> Ps<char, O> {
    #[verifier::external_body]
    pub fn parse_recovery(&self, src: &str) -> (r: (Option<O>, Vec<Simple<char>>))
        ensures
            r.0 matches Some(o) ==> self.may(src@, o),
            r.0 is None ==> r.1@.len() > 0,
            forall|k: int| 0 <= k < r.1@.len() ==> in_text((#[trigger] r.1@[k]).sp(), src@.len() as int),
            self.run(src@, 0) matches Out::Ok(o, j) ==> r.0 == Some(o) && r.1@.len() == 0,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Stream<I> { p: core::marker::PhantomData<I> }
impl<I> Stream<I> {
    pub uninterp spec fn items(&self) -> Seq<(I, Span)>;
    pub uninterp spec fn end(&self) -> Span;
    pub open spec fn within(&self, n: int) -> bool { in_text(self.end(), n) && forall|k: int| 0 <= k < self.items().len() ==> in_text((#[trigger] self.items()[k]).1, n) }
    #[verifier::external_body]
    pub fn from_iter(eoi: Span, v: Vec<(I, Span)>) -> (r: Self) ensures r.items() == v@, r.end() == eoi { unimplemented!() }
}
pub open spec fn firsts<I>(v: Seq<(I, Span)>) -> Seq<I> { v.map_values(|x: (I, Span)| x.0) }
impl<O> Ps<Token, O> {
    /// Errors point at tokens, between tokens, or at the end.
    #[verifier::external_body]
    pub fn parse_recovery(&self, st: Stream<Token>) -> (r: (Option<O>, Vec<Simple<Token>>))
        ensures
            r.0 matches Some(o) ==> self.may(firsts(st.items()), o),
            r.0 is None ==> r.1@.len() > 0,
            forall|k: int, n: int| st.within(n) && 0 <= k < r.1@.len() ==> #[trigger] in_text(r.1@[k].sp(), n),
            self.run(firsts(st.items()), 0) matches Out::Ok(o, j) ==> r.0 == Some(o) && r.1@.len() == 0,
    { unimplemented!() }
}
// ------------------------------------------------------------------ numbers and characters
pub open spec fn hex_digit(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn hex_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex_val(s.drop_last()) * 16 + hex_digit(s.last()) } }
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) ensures radix == 16 ==> r == (hex_digit(c) >= 0);
#[verifier::external_body]
pub struct NumError { }
#[verifier::external]
impl core::fmt::Debug for NumError { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &String, radix: u32) -> (r: Result<u32, NumError>)
    ensures radix == 16 && 0 < s@.len() <= 7 && (forall|k: int| 0 <= k < s@.len() ==> hex_digit(#[trigger] s@[k]) >= 0) ==> r == Ok::<u32, NumError>(hex_val(s@) as u32)
{ unimplemented!() }
pub open spec fn char_code(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n < 0x110000 }
#[verifier::external_body]
pub fn vx_char_from_u32(n: u32) -> (r: Option<char>) ensures r is Some == char_code(n as int), r matches Some(c) ==> c as int == n { char::from_u32(n) }
/// An element of a vector whose elements are all taken once, in order.
#[verifier::external_body]
pub fn vx_move_out<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
