%verbatim
// ------------------------------------------------------------------ text that is shown
impl VxToString for WebColor { uninterp spec fn vx_shown(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// derive_more::Display of colours: hexadecimal digits or a name (the format literals are checked by the extractor).
pub broadcast axiom fn ax_color(c: WebColor) ensures safe_text(#[trigger] c.vx_shown());
/// What Display writes for a number.
pub uninterp spec fn dec(f: F) -> Seq<char>;
pub uninterp spec fn nat_shown(n: int) -> Seq<char>;
/// The number in halves that a text denotes, if it is the numeral of a multiple of one half.
pub uninterp spec fn numeral(s: Seq<char>) -> Option<int>;
/// Display of f32 denotes exactly the number; neither it nor Display of an integer contains markup.
pub broadcast axiom fn ax_dec(f: F) ensures safe_text(#[trigger] dec(f)), f.grid() ==> numeral(dec(f)) == Some(f.h());
pub broadcast axiom fn ax_nat(n: int) ensures safe_text(#[trigger] nat_shown(n)), numeral(nat_shown(n)) == Some(2 * n);

/// Things format! and attributes take.
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for F { open spec fn shown(&self) -> Seq<char> { dec(*self) } }
impl VxShow for i32 { open spec fn shown(&self) -> Seq<char> { nat_shown(*self as int) } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { nat_shown(*self as int) } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a> VxShow for &'a str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }
#[verifier::external_body]
pub fn vx_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_show<T: VxShow>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat_str(a: String, s: &str) -> (r: String) ensures r@ == a@ + s@ { a + s }
#[verifier::external_body]
pub fn vx_cat<T: VxShow>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.shown() { unimplemented!() }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn glued(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { glued(v.drop_last(), sep) + sep + v.last() } }
#[verifier::external_body]
pub fn vx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == glued(views(v@), sep@) { v.join(sep) }
// ------------------------------------------------------------------ the svg crate (trusted): a document is a tree of elements
pub enum Tag { Svg, Rect, Line, Circle, Path, Polygon, Text, Defs, Clip, Chars }
/// text: the characters of a text node, as they are written.
pub struct El { pub tag: Tag, pub attrs: Map<Seq<char>, Seq<char>>, pub kids: Seq<El>, pub text: Seq<char> }
impl El {
    pub open spec fn with(self, k: Seq<char>, v: Seq<char>) -> El { El { attrs: self.attrs.insert(k, v), ..self } }
    pub open spec fn plus(self, e: El) -> El { El { kids: self.kids.push(e), ..self } }
}
pub open spec fn blank_el(t: Tag) -> El { El { tag: t, attrs: Map::empty(), kids: Seq::empty(), text: Seq::empty() } }
pub trait VxTag { spec fn tag() -> Tag; }
pub trait VxNode { spec fn el(&self) -> El; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Svg<T: VxTag> { t: core::marker::PhantomData<T> }
impl<T: VxTag> VxNode for Svg<T> { uninterp spec fn el(&self) -> El; }
impl<T: VxTag> Svg<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.el() == blank_el(T::tag()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set<V: VxShow>(self, k: &str, v: V) -> (r: Self) ensures r.el() == self.el().with(k@, v.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn assign<V: VxShow>(&mut self, k: &str, v: V) ensures final(self).el() == old(self).el().with(k@, v.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn add<N: VxNode>(self, n: N) -> (r: Self) ensures r.el() == self.el().plus(n.el()) { unimplemented!() }
    #[verifier::external_body]
    pub fn append<N: VxNode>(&mut self, n: N) ensures final(self).el() == old(self).el().plus(n.el()) { unimplemented!() }
}
pub struct TSvg { } pub struct TRect { } pub struct TLine { } pub struct TCircle { } pub struct TPath { } pub struct TPolygon { } pub struct TText { } pub struct TDefs { } pub struct TClip { }
impl VxTag for TSvg { open spec fn tag() -> Tag { Tag::Svg } }
impl VxTag for TRect { open spec fn tag() -> Tag { Tag::Rect } }
impl VxTag for TLine { open spec fn tag() -> Tag { Tag::Line } }
impl VxTag for TCircle { open spec fn tag() -> Tag { Tag::Circle } }
impl VxTag for TPath { open spec fn tag() -> Tag { Tag::Path } }
impl VxTag for TPolygon { open spec fn tag() -> Tag { Tag::Polygon } }
impl VxTag for TText { open spec fn tag() -> Tag { Tag::Text } }
impl VxTag for TDefs { open spec fn tag() -> Tag { Tag::Defs } }
impl VxTag for TClip { open spec fn tag() -> Tag { Tag::Clip } }
pub type SvgDocument = Svg<TSvg>;
pub type SvgRectangle = Svg<TRect>;
pub type SvgLine = Svg<TLine>;
pub type SvgCircle = Svg<TCircle>;
pub type SvgPath = Svg<TPath>;
pub type SvgPolygon = Svg<TPolygon>;
pub type SvgText = Svg<TText>;
pub type SvgDefinitions = Svg<TDefs>;
pub type SvgClipPath = Svg<TClip>;
#[verifier::external_body]
pub struct SvgTextNode { t: String }
impl VxNode for SvgTextNode { uninterp spec fn el(&self) -> El; }
impl SvgTextNode {
    #[verifier::external_body]
    pub fn new(s: String) -> (r: Self) ensures r.el() == (El { text: s@, ..blank_el(Tag::Chars) }) { unimplemented!() }
}
/// What the document is written as.
pub uninterp spec fn written(e: El) -> Seq<char>;
impl VxToString for SvgDocument { open spec fn vx_shown(&self) -> Seq<char> { written(self.el()) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
// ------------------------------------------------------------------ std::io::Write (any writer)
#[verifier::external_body]
pub struct Error { e: u8 }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxWrite {
    /// What it was given; whether it has failed; whether it never fails.
    spec fn out(&self) -> Seq<u8>;
    spec fn broke(&self) -> bool;
    spec fn solid(&self) -> bool;
    fn write_all(&mut self, b: Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).out() == old(self).out() + b@ && final(self).broke() == old(self).broke(), r is Err ==> final(self).broke(), old(self).solid() ==> r is Ok && final(self).solid();
    fn flush(&mut self) -> (r: Result<(), Error>) ensures r is Ok ==> final(self).out() == old(self).out() && final(self).broke() == old(self).broke(), r is Err ==> final(self).broke(), old(self).solid() ==> r is Ok && final(self).solid();
}
impl VxWrite for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn broke(&self) -> bool { false }
    open spec fn solid(&self) -> bool { true }
    fn write_all(&mut self, b: Vec<u8>) -> (r: Result<(), Error>) { let mut b = b; self.append(&mut b); Ok(()) }
    fn flush(&mut self) -> (r: Result<(), Error>) { Ok(()) }
}
#[verifier::external_body]
pub fn vx_bytes(s: &String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
