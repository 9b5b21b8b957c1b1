%verbatim
// ------------------------------------------------------------------ diagnostics as the parser library gives them, and the report library (trusted): ariadne 0.1
pub assume_specification<I: Clone> [<core::ops::Range<I> as Clone>::clone] (r: &core::ops::Range<I>) -> (q: core::ops::Range<I>) ensures call_ensures(I::clone, (&r.start,), q.start), call_ensures(I::clone, (&r.end,), q.end);
impl VxToString for char { uninterp spec fn vx_shown(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for Token { uninterp spec fn vx_shown(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VxToString for &'a str { open spec fn vx_shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub enum SimpleReason<I, S> { Unexpected, Unclosed { span: S, delimiter: I }, Custom(String) }
impl<I> Simple<I> {
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r == self.sp() { unimplemented!() }
    /// A delimiter is before what it is missed at.
    #[verifier::external_body]
    pub fn reason(&self) -> (r: &SimpleReason<I, Span>) ensures *r matches SimpleReason::Unclosed { span, delimiter } ==> forall|n: int| #[trigger] in_text(self.sp(), n) ==> in_text(span, n) { unimplemented!() }
    #[verifier::external_body]
    pub fn found(&self) -> (r: Option<&I>) { unimplemented!() }
    #[verifier::external_body]
    pub fn expected(&self) -> (r: Vec<&Option<I>>) { unimplemented!() }
    /// The same error, its tokens shown otherwise.
    #[verifier::external_body]
    pub fn map<U, F: FnMut(I) -> U>(self, f: F) -> (r: Simple<U>) requires forall|x: I| #[trigger] f.requires((x,)) ensures r.sp() == self.sp() { unimplemented!() }
}
pub enum Color { Yellow, Red, Blue, Green, Cyan, Magenta, White, Black }
#[verifier::external_body]
pub struct VxPainted { w: u8 }
impl VxShow for VxPainted { uninterp spec fn shown(&self) -> Seq<char>; }
pub trait Fmt: Sized { fn fg(self, c: Color) -> VxPainted; }
impl<'a> Fmt for &'a String { #[verifier::external_body] fn fg(self, c: Color) -> VxPainted { unimplemented!() } }
pub enum ReportKind { Error, Warning, Advice }
/// A range of the text of that name. Its start must not be after its end (the library panics).
#[verifier::external_body]
pub struct Label { w: u8 }
impl Label {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn sp(&self) -> Span;
    #[verifier::external_body]
    pub fn new(s: (&str, Span)) -> (r: Label)
        requires s.1.start <= s.1.end,  // [C19]
        ensures r.name() == s.0@, r.sp() == s.1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_message<T: VxShow>(self, m: T) -> (r: Label) ensures r.name() == self.name(), r.sp() == self.sp() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_color(self, c: Color) -> (r: Label) ensures r.name() == self.name(), r.sp() == self.sp() { unimplemented!() }
}
/// The place it is about, and whether its labels are in a text of that name and n characters.
#[verifier::external_body]
pub struct ReportBuilder { w: u8 }
impl ReportBuilder {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn within(&self, n: int) -> bool;
    #[verifier::external_body]
    pub fn with_message<T: VxShow>(self, m: T) -> (r: ReportBuilder) ensures r.name() == self.name(), r.at() == self.at(), forall|n: int| r.within(n) == self.within(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_note<T: VxShow>(self, m: T) -> (r: ReportBuilder) ensures r.name() == self.name(), r.at() == self.at(), forall|n: int| r.within(n) == self.within(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_help<T: VxShow>(self, m: T) -> (r: ReportBuilder) ensures r.name() == self.name(), r.at() == self.at(), forall|n: int| r.within(n) == self.within(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_label(self, l: Label) -> (r: ReportBuilder) ensures r.name() == self.name(), r.at() == self.at(), forall|n: int| r.within(n) == (self.within(n) && l.name() == self.name() && l.sp().start < n && l.sp().end <= n) { unimplemented!() }
    pub fn finish(self) -> (r: Report) ensures r.name() == self.name(), r.at() == self.at(), forall|n: int| r.within(n) == self.within(n) { Report { b: self } }
}
pub struct Report { pub b: ReportBuilder }
impl Report {
    pub open spec fn name(&self) -> Seq<char> { self.b.name() }
    pub open spec fn at(&self) -> int { self.b.at() }
    pub open spec fn within(&self, n: int) -> bool { self.b.within(n) }
    #[verifier::external_body]
    pub fn build(k: ReportKind, name: &str, at: usize) -> (r: ReportBuilder) ensures r.name() == name@, r.at() == at, forall|n: int| r.within(n) { unimplemented!() }
    /// It must point at a character of the text; standard error accepts everything.
    #[verifier::external_body]
    pub fn eprint(self, c: (&str, Source), Tracked(w): Tracked<&mut World>) -> (r: Result<(), Error>)
        requires c.0@ == self.name() && 0 <= self.at() < c.1.text().len() && self.within(c.1.text().len() as int),  // [C19]
        ensures r is Ok, *final(w) == (World { reports: old(w).reports.push(Rep { name: self.name(), text: c.1.text(), at: self.at() }), ..*old(w) })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Source { s: String }
impl Source {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from<T: VxShow>(s: T) -> (r: Source) ensures r.text() == s.shown() { unimplemented!() }
}
