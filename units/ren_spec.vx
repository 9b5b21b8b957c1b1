%verbatim
// ------------------------------------------------------------------ C13: what a complete layout is
pub open spec fn route_of(d: Document, e: int) -> Seq<Point> { d.rel(e).path_points.unwrap()@ }
pub open spec fn table_done(d: Document, k: int) -> bool { d.tab(k).has_rect() }
pub open spec fn row_done(d: Document, k: int, j: int) -> bool { d.row(k, j).has_rect() }
pub open spec fn route_done(d: Document, e: int) -> bool { d.rel(e).path_points.is_some() }
pub open spec fn tables_placed(d: Document, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] table_done(d, k) }
pub open spec fn rows_placed(d: Document, k: int, m: int) -> bool { forall|j: int| 0 <= j < m ==> #[trigger] row_done(d, k, j) }
pub open spec fn all_rows_placed(d: Document, n: int) -> bool { forall|k: int| 0 <= k < n ==> rows_placed(d, k, #[trigger] d.rows(k).len() as int) }
pub open spec fn routes_drawn(d: Document, n: int) -> bool { forall|e: int| 0 <= e < n ==> #[trigger] route_done(d, e) }
pub open spec fn complete(d: Document) -> bool { tables_placed(d, d.tabs().len() as int) && all_rows_placed(d, d.tabs().len() as int) && routes_drawn(d, d.n_rel() as int) }
/// A node without its place, or the source of a relation without its route.
pub open spec fn lacks(d: Document, id: NodeId) -> bool {
    ||| exists|k: int| 0 <= k < d.tabs().len() && d.tabs()[k] == id && !#[trigger] table_done(d, k)
    ||| exists|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() && d.rows(k)[j] == id && !#[trigger] row_done(d, k, j)
    ||| exists|e: int| 0 <= e < d.n_rel() && d.rel(e).source_id == id && !#[trigger] route_done(d, e)
}
// ------------------------------------------------------------------ C11: text
pub open spec fn xml_char(c: char) -> bool { c == '\t' || c == '\n' || c == '\r' || '\u{20}' <= c && c <= '\u{FFFD}' || '\u{10000}' <= c }
/// What is shown of a text.
pub open spec fn fixed(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if xml_char(c) { c } else { '\u{FFFD}' }) }
/// u is read as the character c in character data.
pub open spec fn spells1(u: Seq<char>, c: char) -> bool {
    ||| u == seq![c] && xml_char(c) && c != '<' && c != '&' && c != '>' && c != '\r'
    ||| u == "&amp;"@ && c == '&'
    ||| u == "&lt;"@ && c == '<'
    ||| u == "&gt;"@ && c == '>'
    ||| u == "&quot;"@ && c == '"'
    ||| u == "&apos;"@ && c == '\''
    ||| u == "&#13;"@ && c == '\r'
    ||| u == "&#10;"@ && c == '\n'
    ||| u == "&#9;"@ && c == '\t'
}
/// s is read as t in character data.
pub open spec fn cut<A>(s: Seq<A>, m: int) -> bool { 0 <= m <= s.len() }
pub open spec fn spelled(s: Seq<char>, t: Seq<char>) -> bool decreases t.len() {
    if t.len() == 0 { s.len() == 0 } else { exists|m: int| #[trigger] cut(s, m) && spelled(s.take(m), t.drop_last()) && spells1(s.skip(m), t.last()) }
}
pub proof fn lemma_spell(s: Seq<char>, t: Seq<char>, u: Seq<char>, c: char)
    requires spelled(s, t), spells1(u, c),
    ensures spelled(s + u, t.push(c)),
{
    assert(t.push(c).drop_last() =~= t); assert((s + u).take(s.len() as int) =~= s); assert((s + u).skip(s.len() as int) =~= u);
    assert(cut(s + u, s.len() as int));
}
pub proof fn lemma_fixed(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures fixed(s.take(i + 1)) == fixed(s.take(i)).push(if xml_char(s[i]) { s[i] } else { '\u{FFFD}' }), fixed(s.take(0)).len() == 0,
{
    assert(fixed(s.take(i + 1)) =~= fixed(s.take(i)).push(if xml_char(s[i]) { s[i] } else { '\u{FFFD}' }));
}
/// The text nodes of elements, in order.
pub open spec fn texts(s: Seq<El>) -> Seq<Seq<char>> decreases s { if s.len() == 0 { Seq::empty() } else { texts(s.drop_last()) + texts1(s.last()) } }
pub open spec fn texts1(e: El) -> Seq<Seq<char>> decreases e { if e.tag is Chars { seq![e.text] } else { texts(e.kids) } }
/// No attribute contains markup.
pub open spec fn clean(s: Seq<El>) -> bool decreases s { if s.len() == 0 { true } else { clean(s.drop_last()) && clean1(s.last()) } }
pub open spec fn clean1(e: El) -> bool decreases e { attrs_safe(e.attrs) && clean(e.kids) }
pub open spec fn attrs_safe(a: Map<Seq<char>, Seq<char>>) -> bool { forall|k: Seq<char>| a.contains_key(k) ==> safe_text(#[trigger] a[k]) }
pub proof fn lemma_put(s: Seq<El>, e: El)
    ensures texts(s.push(e)) == texts(s) + texts1(e), clean(s.push(e)) == (clean(s) && clean1(e)),
{ assert(s.push(e).drop_last() =~= s); }
pub open spec fn reads_el(t: Seq<Seq<char>>, n: Seq<Seq<char>>) -> bool { t.len() == n.len() && forall|i: int| 0 <= i < n.len() ==> spelled(#[trigger] t[i], fixed(n[i])) }
/// The elements are clean and read n.
pub open spec fn says(s: Seq<El>, n: Seq<Seq<char>>) -> bool { clean(s) && reads_el(texts(s), n) }
pub open spec fn says1(e: El, n: Seq<Seq<char>>) -> bool { clean1(e) && reads_el(texts1(e), n) }
pub proof fn lemma_says(s: Seq<El>, e: El, n: Seq<Seq<char>>, m: Seq<Seq<char>>)
    requires says(s, n), says1(e, m),
    ensures says(s.push(e), n + m),
{ lemma_put(s, e); }
pub open spec fn badge_text(f: FieldShape) -> Seq<Seq<char>> { match f.badge { Some(b) => seq![b.text@], None => Seq::empty() } }
pub open spec fn sub_text(f: FieldShape) -> Seq<Seq<char>> { match f.subtitle { Some(b) => seq![b.text@], None => Seq::empty() } }
/// The texts of a row: name, type and badge.
pub open spec fn row_texts(d: Document, k: int, j: int) -> Seq<Seq<char>> { let f = d.row(k, j).kind->Field_0; seq![f.title.text@] + sub_text(f) + badge_text(f) }
pub open spec fn rows_texts(d: Document, k: int, j: int) -> Seq<Seq<char>> decreases j { if j <= 0 { Seq::empty() } else { rows_texts(d, k, j - 1) + row_texts(d, k, j - 1) } }
pub open spec fn tables_texts(d: Document, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { tables_texts(d, k - 1) + rows_texts(d, k - 1, d.rows(k - 1).len() as int) } }
// ------------------------------------------------------------------ C12: the picture
/// Attribute k is the number h (in halves).
pub open spec fn num(e: El, k: Seq<char>, h: int) -> bool { e.attrs.contains_key(k) && numeral(e.attrs[k]) == Some(h) }
pub open spec fn val(e: El, k: Seq<char>) -> int { numeral(e.attrs[k]).unwrap() }
pub open spec fn has_num(e: El, k: Seq<char>) -> bool { e.attrs.contains_key(k) && numeral(e.attrs[k]).is_some() }
pub open spec fn draws_rect(e: El, r: Rect) -> bool { e.tag is Rect && num(e, "x"@, r.X0()) && num(e, "y"@, r.Y0()) && num(e, "width"@, r.W()) && num(e, "height"@, r.H()) }
pub open spec fn draws_line(e: El, r: Rect) -> bool { e.tag is Line && num(e, "x1"@, r.X0()) && num(e, "x2"@, r.X1()) && num(e, "y1"@, r.Y0()) && num(e, "y2"@, r.Y0()) }
/// A text at half the height of a row.
pub open spec fn draws_text(e: El, r: Rect) -> bool { e.tag is Text && has_num(e, "x"@) && r.X0() <= val(e, "x"@) <= r.X1() && num(e, "y"@, r.Y0() + r.H() / 2) }
pub open spec fn draws_badge(e: El, r: Rect) -> bool {
    &&& e.tag is Circle && has_num(e, "cx"@) && has_num(e, "cy"@) && has_num(e, "r"@) && val(e, "r"@) >= 0
    &&& val(e, "cx"@) - val(e, "r"@) >= r.X0() && val(e, "cx"@) + val(e, "r"@) <= r.X1() && val(e, "cy"@) - val(e, "r"@) >= r.Y0() && val(e, "cy"@) + val(e, "r"@) <= r.Y1()
}
pub open spec fn draws_dot(e: El, p: Point) -> bool { e.tag is Circle && num(e, "cx"@, p.X()) && num(e, "cy"@, p.Y()) }
pub open spec fn bit(b: bool) -> int { if b { 1 } else { 0 } }
/// Clipped to the outline of table k.
pub open spec fn clipped(e: El, clips: Seq<El>, k: int) -> bool { 0 <= k < clips.len() && clips[k].attrs.contains_key("id"@) && e.attrs.contains_key("clip-path"@) && e.attrs["clip-path"@] == "url(#"@ + clips[k].attrs["id"@] + ")"@ }
pub open spec fn row_pic(d: Document, k: int, j: int, clips: Seq<El>, s: Seq<El>) -> bool {
    let f = d.row(k, j).kind->Field_0; let r = d.row(k, j).rc();
    let a = bit(f.bg_color.is_some()); let b = a + bit(j > 0); let c = b + 1 + bit(f.subtitle.is_some());
    let q = f.badge.is_some() && f.badge.unwrap().bg_color.is_some();
    &&& s.len() == c + bit(q) + bit(f.badge.is_some())
    &&& f.bg_color.is_some() ==> draws_rect(s[0], r) && clipped(s[0], clips, k)
    &&& j > 0 ==> draws_line(s[a], r)
    &&& draws_text(s[b], r)
    &&& f.subtitle.is_some() ==> draws_text(s[b + 1], r)
    &&& q ==> draws_badge(s[c], r)
    &&& f.badge.is_some() ==> draws_text(s[c + bit(q)], r)
}
pub open spec fn rows_pic(d: Document, k: int, j: int, clips: Seq<El>, s: Seq<El>) -> bool decreases j {
    if j <= 0 { s.len() == 0 } else { exists|m: int| #[trigger] cut(s, m) && rows_pic(d, k, j - 1, clips, s.take(m)) && row_pic(d, k, j - 1, clips, s.skip(m)) }
}
pub open spec fn table_pic(d: Document, k: int, clips: Seq<El>, s: Seq<El>) -> bool { s.len() > 0 && draws_rect(s[0], d.tab(k).rc()) && rows_pic(d, k, d.rows(k).len() as int, clips, s.skip(1)) }
pub open spec fn tables_pic(d: Document, k: int, clips: Seq<El>, s: Seq<El>) -> bool decreases k {
    if k <= 0 { s.len() == 0 } else { exists|m: int| #[trigger] cut(s, m) && tables_pic(d, k - 1, clips, s.take(m)) && table_pic(d, k - 1, clips, s.skip(m)) }
}
/// The outlines that rows are clipped to, each with an id of its own.
pub open spec fn clips_pic(d: Document, n: int, s: Seq<El>) -> bool {
    &&& s.len() == n
    &&& forall|k: int| 0 <= k < n ==> clip_pic(d, k, #[trigger] s[k])
    &&& forall|k: int, l: int| 0 <= k < l < n ==> (#[trigger] s[k]).attrs["id"@] != (#[trigger] s[l]).attrs["id"@]
}
pub open spec fn clip_pic(d: Document, k: int, e: El) -> bool { e.tag is Clip && e.attrs.contains_key("id"@) && e.kids.len() == 1 && draws_rect(e.kids[0], d.tab(k).rc()) }
/// Commands of a path: a letter and numbers.
pub open spec fn cmd2(s: Seq<char>, l: Seq<char>, x: int, y: int) -> bool { exists|a: Seq<char>, b: Seq<char>| s == #[trigger] (l + a + " "@ + b) && numeral(a) == Some(x) && numeral(b) == Some(y) }
pub open spec fn sgn(a: int) -> int { if a > 0 { 1 } else if a < 0 { -1 } else { 0 } }
pub open spec fn mag(a: int) -> int { if a >= 0 { a } else { -a } }
pub open spec fn slid(s: int, t: int) -> int { if s > 0 { t } else if s < 0 { -t } else { 0 } }
/// From (x, y) to (z, w) around (u, v): the corner at b, rounded by the same radius before and after.
pub open spec fn corner(a: Point, b: Point, c: Point, x: Option<int>, y: Option<int>, u: Option<int>, v: Option<int>, z: Option<int>, w: Option<int>) -> bool {
    let t = mag(x.unwrap() - b.X()) + mag(y.unwrap() - b.Y());
    &&& x.is_some() && y.is_some() && z.is_some() && w.is_some() && u == Some(b.X()) && v == Some(b.Y())
    &&& x.unwrap() == b.X() - slid(b.X() - a.X(), t) && y.unwrap() == b.Y() - slid(b.Y() - a.Y(), t)
    &&& z.unwrap() == b.X() + slid(c.X() - b.X(), t) && w.unwrap() == b.Y() + slid(c.Y() - b.Y(), t)
}
pub open spec fn rounds(s0: Seq<char>, s1: Seq<char>, a: Point, b: Point, c: Point) -> bool {
    exists|x: Seq<char>, y: Seq<char>, u: Seq<char>, v: Seq<char>, z: Seq<char>, w: Seq<char>| s0 == #[trigger] ("L"@ + x + " "@ + y) && s1 == #[trigger] ("Q"@ + u + " "@ + v + " "@ + z + " "@ + w)
        && corner(a, b, c, numeral(x), numeral(y), numeral(u), numeral(v), numeral(z), numeral(w))
}
/// How the route reaches its point i.
pub open spec fn point_pic(p: Seq<Point>, i: int, s: Seq<Seq<char>>) -> bool {
    if i == 0 { s.len() == 1 && cmd2(s[0], "M"@, p[0].X(), p[0].Y()) }
    else if i == p.len() - 1 || s.len() == 1 { s.len() == 1 && cmd2(s[0], "L"@, p[i].X(), p[i].Y()) }
    else { s.len() == 2 && rounds(s[0], s[1], p[i - 1], p[i], p[i + 1]) }
}
pub open spec fn points_pic(p: Seq<Point>, i: int, s: Seq<Seq<char>>) -> bool decreases i {
    if i <= 0 { s.len() == 0 } else { exists|m: int| #[trigger] cut(s, m) && points_pic(p, i - 1, s.take(m)) && point_pic(p, i - 1, s.skip(m)) }
}
pub open spec fn path_text(p: Seq<Point>, t: Seq<char>) -> bool { exists|s: Seq<Seq<char>>| t == #[trigger] glued(s, " "@) && points_pic(p, p.len() as int, s) }
pub open spec fn draws_path(e: El, p: Seq<Point>) -> bool { e.tag is Path && e.attrs.contains_key("d"@) && path_text(p, e.attrs["d"@]) }
pub open spec fn edge_pic(d: Document, e: int, s: Seq<El>) -> bool { let p = route_of(d, e); s.len() == 3 && draws_path(s[0], p) && draws_dot(s[1], p[0]) && draws_dot(s[2], p[p.len() - 1]) }
pub open spec fn edges_pic(d: Document, e: int, s: Seq<El>) -> bool decreases e {
    if e <= 0 { s.len() == 0 } else { exists|m: int| #[trigger] cut(s, m) && edges_pic(d, e - 1, s.take(m)) && edge_pic(d, e - 1, s.skip(m)) }
}
/// Background, outlines, tables, relations.
pub open spec fn kids_pic(d: Document, s: Seq<El>, t: Seq<El>, r: Seq<El>) -> bool {
    &&& s.len() >= 2 && s.skip(2) == t + r && s[0].tag is Rect && s[1].tag is Defs && clips_pic(d, d.tabs().len() as int, s[1].kids)
    &&& tables_pic(d, d.tabs().len() as int, s[1].kids, t) && edges_pic(d, d.n_rel() as int, r)
}
pub open spec fn view_text(s: Seq<char>, v: Rect) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, e: Seq<char>| s == #[trigger] (a + ", "@ + b + ", "@ + c + ", "@ + e) && numeral(a) == Some(v.X0()) && numeral(b) == Some(v.Y0()) && numeral(c) == Some(v.W()) && numeral(e) == Some(v.H())
}
pub open spec fn picture(d: Document, v: Rect, e: El) -> bool {
    &&& e.attrs.contains_key("viewBox"@) && view_text(e.attrs["viewBox"@], v)
    &&& exists|t: Seq<El>, r: Seq<El>| #[trigger] kids_pic(d, e.kids, t, r)
}
// ------------------------------------------------------------------ what rendering needs
pub open spec fn turns_back(a: Point, b: Point, c: Point) -> bool { a.X() == b.X() == c.X() && sgn(b.Y() - a.Y()) == -sgn(c.Y() - b.Y()) || a.Y() == b.Y() == c.Y() && sgn(b.X() - a.X()) == -sgn(c.X() - b.X()) }
/// At least two points, in horizontal and vertical steps, never back.
pub open spec fn joint(p: Seq<Point>, i: int) -> bool {
    &&& p[i].ok()
    &&& i + 1 < p.len() ==> axis_parallel(p[i], p[i + 1]) && (p[i].X() != p[i + 1].X() || p[i].Y() != p[i + 1].Y())
    &&& i + 2 < p.len() ==> !turns_back(p[i], p[i + 1], p[i + 2])
}
pub open spec fn drawable(p: Seq<Point>) -> bool { p.len() >= 2 && forall|i: int| 0 <= i < p.len() ==> #[trigger] joint(p, i) }
pub proof fn lemma_joint(p: Seq<Point>, i: int)
    requires drawable(p), 0 <= i < p.len(),
    ensures joint(p, i), i > 0 ==> joint(p, i - 1), i + 1 < p.len() ==> joint(p, i + 1),
{ }
/// Wide and high enough for the texts and the badge, and divisible into columns on the grid.
pub open spec fn row_shape(r: Rect) -> bool { r.ok() && r.W() % 5 == 0 && r.H() % 2 == 0 && 24 <= r.H() <= r.W() }
pub open spec fn table_fits(d: Document, k: int) -> bool { table_done(d, k) ==> d.tab(k).rc().ok() }
pub open spec fn row_fits(d: Document, k: int, j: int) -> bool { row_done(d, k, j) ==> row_shape(d.row(k, j).rc()) }
pub open spec fn route_fits(d: Document, e: int) -> bool { route_done(d, e) ==> drawable(route_of(d, e)) }
pub open spec fn on_grid(d: Document) -> bool {
    &&& forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] table_fits(d, k)
    &&& forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() ==> #[trigger] row_fits(d, k, j)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] route_fits(d, e)
}
// ------------------------------------------------------------------ lemmas
pub open spec fn nil() -> Seq<Seq<char>> { Seq::empty() }
pub broadcast proof fn lemma_attrs(a: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Seq<char>)
    requires attrs_safe(a), safe_text(v),
    ensures attrs_safe(#[trigger] a.insert(k, v)),
{ assert forall|q: Seq<char>| a.insert(k, v).contains_key(q) implies safe_text(#[trigger] a.insert(k, v)[q]) by { if q != k { assert(a.insert(k, v)[q] == a[q]); } } }
pub broadcast proof fn lemma_safe_cat(a: Seq<char>, b: Seq<char>)
    requires safe_text(a), safe_text(b),
    ensures safe_text(#[trigger] (a + b)),
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != '<' && (a + b)[i] != '&' && (a + b)[i] != '"' && (a + b)[i] != '\'' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub open spec fn all_safe(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> safe_text(#[trigger] s[i]) }
pub proof fn lemma_glued(s: Seq<Seq<char>>, sep: Seq<char>)
    requires all_safe(s), safe_text(sep),
    ensures safe_text(glued(s, sep)),
    decreases s.len(),
{
    if s.len() > 1 {
        assert(all_safe(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies safe_text(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } }
        lemma_glued(s.drop_last(), sep); lemma_safe_cat(glued(s.drop_last(), sep), sep); lemma_safe_cat(glued(s.drop_last(), sep) + sep, s.last());
    }
}
pub proof fn lemma_bare(e: El) requires e.kids.len() == 0, !(e.tag is Chars), attrs_safe(e.attrs) ensures says1(e, nil())
{ assert(e.kids =~= Seq::empty()); assert(texts(e.kids) =~= nil()); assert(clean(e.kids)); }
pub proof fn lemma_views(v: Seq<String>, n: int)
    requires 0 <= n <= v.len(),
    ensures views(v).len() == v.len(), views(v.take(n)) == views(v).take(n),
{ assert(views(v.take(n)) =~= views(v).take(n)); }
pub proof fn lemma_points_step(p: Seq<Point>, i: int, s: Seq<Seq<char>>, n: int)
    requires i >= 0, 0 <= n <= s.len(), points_pic(p, i, s.take(n)), point_pic(p, i, s.skip(n)),
    ensures points_pic(p, i + 1, s),
{ assert(cut(s, n)); }
pub broadcast group show { ax_color, ax_dec, ax_nat, lemma_attrs, lemma_safe_cat }
pub open spec fn attr_is(e: El, k: Seq<char>, v: Seq<char>) -> bool { e.attrs.contains_key(k) && e.attrs[k] == v }
pub proof fn lemma_fonts() ensures forall|x: FontFamily| safe_text(#[trigger] x.vx_display()), forall|x: FontWeight| safe_text(#[trigger] x.vx_display()), forall|x: FontSize| safe_text(#[trigger] x.vx_display())
{
    assert forall|x: FontFamily| safe_text(#[trigger] x.vx_display()) by { vx_safe_FontFamily(x); }
    assert forall|x: FontWeight| safe_text(#[trigger] x.vx_display()) by { vx_safe_FontWeight(x); }
    assert forall|x: FontSize| safe_text(#[trigger] x.vx_display()) by { vx_safe_FontSize(x); }
}
pub proof fn lemma_no_text(s: Seq<char>) ensures spelled(Seq::empty(), fixed(s.take(0))) { lemma_nothing(s); }
pub proof fn lemma_nothing(s: Seq<char>) ensures fixed(s.take(0)).len() == 0 { }
pub open spec fn shown1(c: char) -> char { if xml_char(c) { c } else { '\u{FFFD}' } }
/// What a reference or a character spells.
pub proof fn lemma_glyph(u: Seq<char>, c: char)
    ensures u == seq![c] && c != '<' && c != '&' && c != '>' && c != '\r' && xml_char(c) ==> spells1(u, shown1(c)), u == seq!['\u{FFFD}'] && !xml_char(c) ==> spells1(u, shown1(c)),
{ }
pub proof fn lemma_label(e: El, t: Seq<char>)
    requires e.tag is Text, attrs_safe(e.attrs), e.kids.len() == 1, e.kids[0].tag is Chars, e.kids[0].kids.len() == 0, e.kids[0].attrs.dom() == Set::<Seq<char>>::empty(), spelled(e.kids[0].text, fixed(t)),
    ensures says1(e, seq![t]),
{
    let k = e.kids; assert(k =~= Seq::<El>::empty().push(k[0])); lemma_put(Seq::empty(), k[0]);
    assert(texts(Seq::<El>::empty()) =~= nil()); assert(texts(k) =~= seq![k[0].text]); assert(clean(Seq::<El>::empty()));
    assert(k[0].kids =~= Seq::empty()); assert(attrs_safe(k[0].attrs)); assert(clean1(k[0]));
}
pub proof fn lemma_tail(a: Seq<char>, b: Seq<char>)
    ensures forall|x: Seq<char>| b == #[trigger] (a + x) ==> b.skip(a.len() as int) == x, forall|c: char| b == #[trigger] a.push(c) ==> b.skip(a.len() as int) == seq![c],
{
    assert forall|x: Seq<char>| b == #[trigger] (a + x) implies b.skip(a.len() as int) == x by { assert(b.skip(a.len() as int) =~= x); }
    assert forall|c: char| b == #[trigger] a.push(c) implies b.skip(a.len() as int) == seq![c] by { assert(b.skip(a.len() as int) =~= seq![c]); }
}
/// The pieces of the path: step of the loop.
pub proof fn lemma_pieces(p: Seq<Point>, i: int, d0: Seq<String>, d: Seq<String>)
    requires i >= 0, points_pic(p, i, views(d0)), d0.len() <= d.len(), d.take(d0.len() as int) == d0, point_pic(p, i, views(d.skip(d0.len() as int))),
    ensures points_pic(p, i + 1, views(d)),
{
    let n = d0.len() as int;
    lemma_views(d, n); assert(views(d.skip(n)) =~= views(d).skip(n)); lemma_points_step(p, i, views(d), n);
}
pub proof fn lemma_pieces_safe(d0: Seq<String>, d: Seq<String>)
    requires all_safe(views(d0)), d0.len() <= d.len(), d.take(d0.len() as int) == d0, forall|i: int| d0.len() <= i < d.len() ==> safe_text((#[trigger] d[i])@),
    ensures all_safe(views(d)),
{
    assert forall|i: int| 0 <= i < d.len() implies safe_text(#[trigger] views(d)[i]) by { if i < d0.len() { assert(views(d0)[i] == d0[i]@ && d0[i] == d[i]); } }
}
pub proof fn lemma_base(p: Seq<Point>)
    ensures points_pic(p, 0, views(Seq::<String>::empty())), all_safe(views(Seq::<String>::empty())), attrs_safe(Map::<Seq<char>, Seq<char>>::empty()),
{ }
pub proof fn lemma_path(p: Seq<Point>, s: Seq<Seq<char>>)
    requires points_pic(p, p.len() as int, s),
    ensures path_text(p, glued(s, " "@)),
{ }
// ------------------------------------------------------------------ rendering, step by step
pub broadcast proof fn lemma_bare_says(e: El) requires e.kids.len() == 0, !(e.tag is Chars), attrs_safe(e.attrs) ensures #[trigger] says1(e, nil()) { lemma_bare(e); }
/// The attributes of the document.
pub open spec fn root_safe(e: El) -> bool { e.tag is Svg && attrs_safe(e.attrs) }
pub open spec fn root_box(e: El, v: Option<Rect>) -> bool { v.is_some() ==> e.attrs.contains_key("viewBox"@) && view_text(e.attrs["viewBox"@], v.unwrap()) }
pub open spec fn head(d: Document, s: Seq<El>) -> bool { s.len() >= 2 && s[0].tag is Rect && s[1].tag is Defs && clips_pic(d, d.tabs().len() as int, s[1].kids) }
pub open spec fn part_pic(d: Document, k: int, j: int, clips: Seq<El>, s: Seq<El>) -> bool { s.len() > 0 && draws_rect(s[0], d.tab(k).rc()) && rows_pic(d, k, j, clips, s.skip(1)) }
/// The texts of the elements of a row.
pub open spec fn row_said(d: Document, k: int, j: int, s: Seq<El>) -> bool {
    let f = d.row(k, j).kind->Field_0;
    let a = bit(f.bg_color.is_some()); let b = a + bit(j > 0); let c = b + 1 + bit(f.subtitle.is_some());
    let q = f.badge.is_some() && f.badge.unwrap().bg_color.is_some();
    &&& s.len() == c + bit(q) + bit(f.badge.is_some())
    &&& f.bg_color.is_some() ==> says1(s[0], nil())
    &&& j > 0 ==> says1(s[a], nil())
    &&& says1(s[b], seq![f.title.text@])
    &&& f.subtitle.is_some() ==> says1(s[b + 1], seq![f.subtitle.unwrap().text@])
    &&& q ==> says1(s[c], nil())
    &&& f.badge.is_some() ==> says1(s[c + bit(q)], seq![f.badge.unwrap().text@])
}
pub proof fn lemma_row_said(d: Document, k: int, j: int, s: Seq<El>)
    requires row_said(d, k, j, s),
    ensures says(s, row_texts(d, k, j)),
{
    let f = d.row(k, j).kind->Field_0;
    let a = bit(f.bg_color.is_some()); let b = a + bit(j > 0); let c = b + 1 + bit(f.subtitle.is_some());
    let q = f.badge.is_some() && f.badge.unwrap().bg_color.is_some();
    let e = Seq::<El>::empty(); let t = seq![f.title.text@];
    assert(texts(e) =~= nil()); assert(clean(e)); assert(says(s.take(0), nil())) by { assert(s.take(0) =~= e); }
    if a > 0 { lemma_says_next(s, 0, nil(), nil()); }
    assert(nil() + nil() =~= nil());
    assert(says(s.take(a), nil()));
    if j > 0 { lemma_says_next(s, a, nil(), nil()); }
    assert(says(s.take(b), nil()));
    lemma_says_next(s, b, nil(), t); assert(nil() + t =~= t);
    if f.subtitle.is_some() { lemma_says_next(s, b + 1, t, seq![f.subtitle.unwrap().text@]); }
    let u = t + sub_text(f); if f.subtitle.is_none() { assert(u =~= t); }
    assert(says(s.take(c), u));
    if q { lemma_says_next(s, c, u, nil()); assert(u + nil() =~= u); }
    assert(says(s.take(c + bit(q)), u));
    if f.badge.is_some() { lemma_says_next(s, c + bit(q), u, seq![f.badge.unwrap().text@]); }
    if f.badge.is_none() { assert(row_texts(d, k, j) =~= u); }
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_says_next(s: Seq<El>, i: int, n: Seq<Seq<char>>, m: Seq<Seq<char>>)
    requires 0 <= i < s.len(), says(s.take(i), n), says1(s[i], m),
    ensures says(s.take(i + 1), n + m),
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); lemma_says(s.take(i), s[i], n, m); }
pub proof fn lemma_says_cat(a: Seq<El>, b: Seq<El>, n: Seq<Seq<char>>, m: Seq<Seq<char>>)
    requires says(a, n), says(b, m),
    ensures says(a + b, n + m),
    decreases b.len(),
{
    lemma_texts_cat(a, b);
}
pub proof fn lemma_texts_cat(a: Seq<El>, b: Seq<El>)
    ensures texts(a + b) == texts(a) + texts(b), clean(a + b) == (clean(a) && clean(b)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(texts(a) + texts(b) =~= texts(a)); }
    else {
        lemma_texts_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(texts(a + b) =~= texts(a) + texts(b));
    }
}
pub proof fn lemma_push_says(k0: Seq<El>, k1: Seq<El>, n: Seq<Seq<char>>, m: Seq<Seq<char>>)
    requires says(k0, n), k0.len() <= k1.len(), k1.take(k0.len() as int) == k0, says(k1.skip(k0.len() as int), m),
    ensures says(k1, n + m),
{ assert(k1 =~= k0 + k1.skip(k0.len() as int)); lemma_says_cat(k0, k1.skip(k0.len() as int), n, m); }
/// A row has been drawn after k0, in a table that begins after k.
pub proof fn lemma_row_step(d: Document, t: int, j: int, clips: Seq<El>, k: Seq<El>, k0: Seq<El>, k1: Seq<El>)
    requires j >= 0, k.len() < k0.len() <= k1.len(), k1.take(k0.len() as int) == k0, part_pic(d, t, j, clips, k0.skip(k.len() as int)), row_pic(d, t, j, clips, k1.skip(k0.len() as int)),
    ensures part_pic(d, t, j + 1, clips, k1.skip(k.len() as int)),
{
    let a = k0.skip(k.len() as int); let b = k1.skip(k.len() as int); let m = k0.len() - k.len() - 1;
    assert(b[0] == k1[k.len() as int] && a[0] == k0[k.len() as int] && k0[k.len() as int] == k1.take(k0.len() as int)[k.len() as int]);
    assert(b.skip(1).take(m) =~= a.skip(1)) by { assert forall|i: int| 0 <= i < m implies b.skip(1).take(m)[i] == a.skip(1)[i] by { assert(k0[i + 1 + k.len()] == k1.take(k0.len() as int)[i + 1 + k.len()]); } }
    assert(b.skip(1).skip(m) =~= k1.skip(k0.len() as int));
    assert(cut(b.skip(1), m));
}
/// A table has been drawn after k0.
pub proof fn lemma_table_step(d: Document, t: int, clips: Seq<El>, k0: Seq<El>, k1: Seq<El>)
    requires t >= 0, 2 <= k0.len() <= k1.len(), k1.take(k0.len() as int) == k0, tables_pic(d, t, clips, k0.skip(2)), part_pic(d, t, d.rows(t).len() as int, clips, k1.skip(k0.len() as int)),
    ensures tables_pic(d, t + 1, clips, k1.skip(2)),
{
    let b = k1.skip(2); let m = k0.len() - 2;
    assert(b.take(m) =~= k0.skip(2)) by { assert forall|i: int| 0 <= i < m implies b.take(m)[i] == k0.skip(2)[i] by { assert(k0[i + 2] == k1.take(k0.len() as int)[i + 2]); } }
    assert(b.skip(m) =~= k1.skip(k0.len() as int));
    assert(cut(b, m));
}
/// A relation has been drawn after k0.
pub proof fn lemma_edge_step(d: Document, e: int, n: int, k0: Seq<El>, k1: Seq<El>)
    requires e >= 0, 0 <= n <= k0.len() <= k1.len(), k1.take(k0.len() as int) == k0, edges_pic(d, e, k0.skip(n)), edge_pic(d, e, k1.skip(k0.len() as int)),
    ensures edges_pic(d, e + 1, k1.skip(n)),
{
    let b = k1.skip(n); let m = k0.len() - n;
    assert(b.take(m) =~= k0.skip(n)) by { assert forall|i: int| 0 <= i < m implies b.take(m)[i] == k0.skip(n)[i] by { assert(k0[i + n] == k1.take(k0.len() as int)[i + n]); } }
    assert(b.skip(m) =~= k1.skip(k0.len() as int));
    assert(cut(b, m));
}
pub proof fn lemma_edge_says(a: El, b: El, c: El)
    requires says1(a, nil()), says1(b, nil()), says1(c, nil()),
    ensures says(seq![a, b, c], nil()),
{
    let s = seq![a, b, c]; let e = Seq::<El>::empty();
    assert(texts(e) =~= nil()); assert(clean(e)); assert(s.take(0) =~= e); assert(nil() + nil() =~= nil());
    lemma_says_next(s, 0, nil(), nil()); lemma_says_next(s, 1, nil(), nil()); lemma_says_next(s, 2, nil(), nil()); assert(s.take(3) =~= s);
}
pub proof fn lemma_clip_step(d: Document, k: int, s: Seq<El>, e: El, p: Seq<char>)
    requires k >= 0, clips_named(k, s, p), clips_pic(d, k, s), clip_pic(d, k, e), e.attrs["id"@] == p + nat_shown(k),
    ensures clips_pic(d, k + 1, s.push(e)), clips_named(k + 1, s.push(e), p),
{
    let t = s.push(e);
    assert forall|i: int| 0 <= i < k + 1 implies clip_pic(d, i, #[trigger] t[i]) by { if i < k { assert(t[i] == s[i]); } }
    assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] t[i]).attrs["id"@] == p + nat_shown(i) by { if i < k { assert(t[i] == s[i]); } }
    assert forall|i: int, l: int| 0 <= i < l < k + 1 implies (#[trigger] t[i]).attrs["id"@] != (#[trigger] t[l]).attrs["id"@] by { lemma_ids(p, i, l); }
}
/// The outlines are named by a prefix and their number.
pub open spec fn clips_named(n: int, s: Seq<El>, p: Seq<char>) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).attrs["id"@] == p + nat_shown(k) }
pub proof fn lemma_ids(p: Seq<char>, i: int, l: int)
    requires i != l,
    ensures p + nat_shown(i) != p + nat_shown(l),
{
    broadcast use ax_nat;
    if p + nat_shown(i) == p + nat_shown(l) {
        assert((p + nat_shown(i)).skip(p.len() as int) =~= nat_shown(i)); assert((p + nat_shown(l)).skip(p.len() as int) =~= nat_shown(l));
        assert(numeral(nat_shown(i)) == Some(2 * i) && numeral(nat_shown(l)) == Some(2 * l));
    }
}
pub proof fn lemma_table(d: Document, k: int)
    requires d.wf(), on_grid(d), 0 <= k < d.tabs().len(),
    ensures d.has(d.tabs()[k]), d.tab(k).kind is Record, table_done(d, k) ==> d.tab(k).rc().ok(), !table_done(d, k) ==> lacks(d, d.tabs()[k]),
{ assert(table_fits(d, k)); }
pub proof fn lemma_row(d: Document, k: int, j: int)
    requires d.wf(), on_grid(d), 0 <= k < d.tabs().len(), 0 <= j < d.rows(k).len(),
    ensures d.has(d.rows(k)[j]), d.row(k, j).kind is Field, row_done(d, k, j) ==> row_shape(d.row(k, j).rc()), !row_done(d, k, j) ==> lacks(d, d.rows(k)[j]),
{ assert(row_fits(d, k, j)); }
pub proof fn lemma_rel(d: Document, e: int)
    requires d.wf(), on_grid(d), 0 <= e < d.n_rel(),
    ensures route_done(d, e) ==> drawable(route_of(d, e)), !route_done(d, e) ==> lacks(d, d.rel(e).source_id),
{ assert(route_fits(d, e)); }
pub proof fn lemma_start(d: Document, clips: Seq<El>)
    ensures tables_texts(d, 0) == nil(), tables_pic(d, 0, clips, Seq::empty()), edges_pic(d, 0, Seq::empty()), says(Seq::empty(), nil()), clips_pic(d, 0, Seq::empty()), forall|p: Seq<char>| clips_named(0, Seq::empty(), p),
        forall|k: int| #[trigger] rows_texts(d, k, 0) == nil(), forall|k: int| #[trigger] rows_pic(d, k, 0, clips, Seq::empty()), attrs_safe(Map::<Seq<char>, Seq<char>>::empty()),
{ assert(texts(Seq::<El>::empty()) =~= nil()); }
/// What was written.
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, e: El) -> bool { b == a + utf8(written(e)) }
pub proof fn lemma_defs(e: El)
    requires e.tag is Defs, says(e.kids, nil()), attrs_safe(e.attrs),
    ensures says1(e, nil()),
{ }
pub proof fn lemma_more_texts(d: Document, k: int, j: int)
    requires j >= 0,
    ensures tables_texts(d, k) + rows_texts(d, k, j) + row_texts(d, k, j) == tables_texts(d, k) + rows_texts(d, k, j + 1),
{ assert(tables_texts(d, k) + rows_texts(d, k, j) + row_texts(d, k, j) =~= tables_texts(d, k) + (rows_texts(d, k, j) + row_texts(d, k, j))); }
pub proof fn lemma_more_tables(d: Document, k: int)
    requires k >= 0,
    ensures tables_texts(d, k) + rows_texts(d, k, d.rows(k).len() as int) == tables_texts(d, k + 1),
{ }
pub proof fn lemma_clipped(d: Document, k: int, s: Seq<El>, p: Seq<char>)
    requires 0 <= k < d.tabs().len(), clips_named(d.tabs().len() as int, s, p), clips_pic(d, d.tabs().len() as int, s),
    ensures s.len() == d.tabs().len(), s[k].attrs.contains_key("id"@), s[k].attrs["id"@] == p + nat_shown(k),
{ }
pub proof fn lemma_picture(d: Document, v: Rect, e: El, t: Seq<El>)
    requires head(d, t), tables_pic(d, d.tabs().len() as int, t[1].kids, t.skip(2)), t.len() <= e.kids.len(), e.kids.take(t.len() as int) == t, edges_pic(d, d.n_rel() as int, e.kids.skip(t.len() as int)),
        e.attrs.contains_key("viewBox"@), view_text(e.attrs["viewBox"@], v),
    ensures picture(d, v, e),
{
    let r = e.kids.skip(t.len() as int);
    assert(e.kids =~= t + r); assert(e.kids.skip(2) =~= t.skip(2) + r);
    assert(e.kids[0] == t[0] && e.kids[1] == t[1]);
    assert(kids_pic(d, e.kids, t.skip(2), r));
}
pub proof fn lemma_clip_says(e: El)
    requires !(e.tag is Chars), attrs_safe(e.attrs), e.kids.len() == 1, says1(e.kids[0], nil()),
    ensures says1(e, nil()),
{
    let x = Seq::<El>::empty(); assert(texts(x) =~= nil()); assert(clean(x)); assert(e.kids =~= x.push(e.kids[0])); lemma_says(x, e.kids[0], nil(), nil()); assert(nil() + nil() =~= nil());
}
