%verbatim
// ------------------------------------------------------------------ the free space around tables
/// Twice the margin between any two columns and any two grid rows.
pub open spec fn spaced(d: Document) -> bool {
    &&& roomy(d)
    &&& forall|k: int, l: int| 0 <= k < d.tabs().len() && 0 <= l < d.tabs().len() && k % NCOL() < l % NCOL() ==> (#[trigger] d.tab(k)).rc().X1() + 2 * MARGIN() <= (#[trigger] d.tab(l)).rc().X0()
    &&& forall|k: int, l: int| 0 <= k < d.tabs().len() && 0 <= l < d.tabs().len() && k % NCOL() == l % NCOL() ==> (#[trigger] d.tab(k)).rc().X0() == (#[trigger] d.tab(l)).rc().X0() && d.tab(k).rc().X1() == d.tab(l).rc().X1()
    &&& forall|k: int, l: int| 0 <= k < d.tabs().len() && 0 <= l < d.tabs().len() && k / NCOL() == l / NCOL() ==> (#[trigger] d.tab(k)).rc().Y0() == (#[trigger] d.tab(l)).rc().Y0()
    &&& forall|k: int, l: int| 0 <= k < d.tabs().len() && 0 <= l < d.tabs().len() && k / NCOL() < l / NCOL() ==> (#[trigger] d.tab(k)).rc().Y1() + 2 * MARGIN() <= (#[trigger] d.tab(l)).rc().Y0()
}
/// k and l are at least m apart.
pub open spec fn gap(a: Rect, b: Rect, m: int) -> bool { a.X1() + m <= b.X0() || b.X1() + m <= a.X0() || a.Y1() + m <= b.Y0() || b.Y1() + m <= a.Y0() }
pub proof fn lemma_gap(d: Document, k: int, l: int)
    requires spaced(d), 0 <= k < d.tabs().len(), 0 <= l < d.tabs().len(), k != l,
    ensures gap(d.tab(k).rc(), d.tab(l).rc(), 2 * MARGIN()),
{
    let (a, b) = (d.tab(k), d.tab(l));
    if k / NCOL() == l / NCOL() { assert(k % NCOL() != l % NCOL()); }
}
/// Within the margin around the table.
pub open spec fn around(t: Rect, p: Point) -> bool { t.X0() - MARGIN() <= p.X() <= t.X1() + MARGIN() && t.Y0() - MARGIN() <= p.Y() <= t.Y1() + MARGIN() }
/// On the side o of the table, away from its corners.
pub open spec fn on_side(t: Rect, p: Point, o: Orientation) -> bool {
    p.ok() && match o {
        Orientation::Left => p.X() == t.X0() && t.Y0() + 2 <= p.Y() <= t.Y1() - 2, Orientation::Right => p.X() == t.X1() && t.Y0() + 2 <= p.Y() <= t.Y1() - 2,
        Orientation::Up => p.Y() == t.Y0() && t.X0() + 2 <= p.X() <= t.X1() - 2, Orientation::Down => p.Y() == t.Y1() && t.X0() + 2 <= p.X() <= t.X1() - 2,
    }
}
pub open spec fn side_of(d: Document, k: int, p: Point, o: Orientation) -> bool { 0 <= k < d.tabs().len() && on_side(d.tab(k).rc(), p, o) }
pub open spec fn at_side(d: Document, p: Point, o: Orientation) -> bool { exists|k: int| #[trigger] side_of(d, k, p, o) }
/// What is around one table is far from every other one.
pub proof fn lemma_around(d: Document, k: int, p: Point)
    requires spaced(d), 0 <= k < d.tabs().len(), around(d.tab(k).rc(), p),
    ensures forall|l: int| 0 <= l < d.tabs().len() && l != k ==> off((#[trigger] d.tab(l)).rc(), MARGIN() - 2, p),
{
    assert forall|l: int| 0 <= l < d.tabs().len() && l != k implies off((#[trigger] d.tab(l)).rc(), MARGIN() - 2, p) by { lemma_gap(d, k, l); }
}
/// The way runs along one side of the table and only touches it, if at all, with an end.
pub open spec fn skirts(t: Rect, a: Point, b: Point) -> bool {
    ||| imax(a.X(), b.X()) <= t.X0() && imin(a.X(), b.X()) < t.X0()
    ||| imin(a.X(), b.X()) >= t.X1() && imax(a.X(), b.X()) > t.X1()
    ||| imax(a.Y(), b.Y()) <= t.Y0() && imin(a.Y(), b.Y()) < t.Y0()
    ||| imin(a.Y(), b.Y()) >= t.Y1() && imax(a.Y(), b.Y()) > t.Y1()
}
/// p is strictly between a and b.
pub open spec fn betw(a: Point, b: Point, p: Point) -> bool {
    ||| a.X() == b.X() == p.X() && imin(a.Y(), b.Y()) < p.Y() < imax(a.Y(), b.Y())
    ||| a.Y() == b.Y() == p.Y() && imin(a.X(), b.X()) < p.X() < imax(a.X(), b.X())
}
pub proof fn lemma_skirt(d: Document, k: int, a: Point, b: Point)
    requires spaced(d), 0 <= k < d.tabs().len(), around(d.tab(k).rc(), a), around(d.tab(k).rc(), b), axis_parallel(a, b), skirts(d.tab(k).rc(), a, b),
    ensures clear(d, a, b), forall|p: Point, o: Orientation| betw(a, b, p) ==> !#[trigger] at_side(d, p, o),
{
    assert(roomy_rect(d.tab(k).rc()));
    assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), a, b) by { assert(roomy_rect(d.tab(l).rc())); if l != k { lemma_gap(d, k, l); } }
    assert forall|p: Point, o: Orientation| betw(a, b, p) implies !#[trigger] at_side(d, p, o) by {
        if at_side(d, p, o) { let l = choose|l: int| #[trigger] side_of(d, l, p, o); assert(roomy_rect(d.tab(l).rc())); assert(around(d.tab(k).rc(), p)); if l != k { lemma_gap(d, k, l); } }
    }
}
/// No table is at the height y, or in the column x.
pub open spec fn open_y(d: Document, y: int) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> y < (#[trigger] d.tab(k)).rc().Y0() || y > d.tab(k).rc().Y1() }
pub open spec fn open_x(d: Document, x: int) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> x < (#[trigger] d.tab(k)).rc().X0() || x > d.tab(k).rc().X1() }
pub proof fn lemma_open(d: Document, a: Point, b: Point)
    requires spaced(d), a.Y() == b.Y() && open_y(d, a.Y()) || a.X() == b.X() && open_x(d, a.X()),
    ensures clear(d, a, b), forall|p: Point, o: Orientation| betw(a, b, p) ==> !#[trigger] at_side(d, p, o),
{
    assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), a, b) by { assert(roomy_rect(d.tab(l).rc())); }
    assert forall|p: Point, o: Orientation| betw(a, b, p) implies !#[trigger] at_side(d, p, o) by {
        if at_side(d, p, o) { let l = choose|l: int| #[trigger] side_of(d, l, p, o); assert(roomy_rect(d.tab(l).rc())); }
    }
}
/// The corner above and to the left of a table is at an open height and in an open column.
pub proof fn lemma_corner_open(d: Document, k: int)
    requires spaced(d), 0 <= k < d.tabs().len(),
    ensures open_y(d, d.tab(k).rc().Y0() - MARGIN()), open_x(d, d.tab(k).rc().X0() - MARGIN()),
{
    assert(roomy_rect(d.tab(k).rc()));
    assert forall|l: int| 0 <= l < d.tabs().len() implies d.tab(k).rc().Y0() - MARGIN() < (#[trigger] d.tab(l)).rc().Y0() || d.tab(k).rc().Y0() - MARGIN() > d.tab(l).rc().Y1() by {
        if l / NCOL() < k / NCOL() {} else if l / NCOL() == k / NCOL() {} else { assert(k / NCOL() < l / NCOL()); } }
    assert forall|l: int| 0 <= l < d.tabs().len() implies d.tab(k).rc().X0() - MARGIN() < (#[trigger] d.tab(l)).rc().X0() || d.tab(k).rc().X0() - MARGIN() > d.tab(l).rc().X1() by {
        if l % NCOL() < k % NCOL() {} else if l % NCOL() == k % NCOL() {} else { assert(k % NCOL() < l % NCOL()); } }
}
/// Where the way straight out of a port meets the margin.
pub open spec fn stub_x(t: Rect, p: Point, o: Orientation) -> int { match o { Orientation::Left => t.X0() - MARGIN(), Orientation::Right => t.X1() + MARGIN(), _ => p.X() } }
pub open spec fn stub_y(t: Rect, p: Point, o: Orientation) -> int { match o { Orientation::Up => t.Y0() - MARGIN(), Orientation::Down => t.Y1() + MARGIN(), _ => p.Y() } }
/// The corner that decides about it.
pub open spec fn aim_x(t: Rect, o: Orientation) -> int { if o is Right { t.X1() + MARGIN() } else { t.X0() - MARGIN() } }
pub open spec fn aim_y(t: Rect, o: Orientation) -> int { if o is Down { t.Y1() + MARGIN() } else { t.Y0() - MARGIN() } }
pub proof fn lemma_seen(d: Document, k: int, p: TerminalPort, j: Point)
    requires spaced(d), side_of(d, k, p.location, p.orientation), at_pt(j, aim_x(d.tab(k).rc(), p.orientation), aim_y(d.tab(k).rc(), p.orientation)),
    ensures seen(d, p, j), cross_of(p, j, Seq::empty()) == holds(Seq::empty(), stub_x(d.tab(k).rc(), p.location, p.orientation), stub_y(d.tab(k).rc(), p.location, p.orientation)),
{
    let c = p.location; let m = MARGIN();
    assert(roomy_rect(d.tab(k).rc()));
    if p.orientation is Left {
        assert forall|l: int| 0 <= l < d.tabs().len() && (#[trigger] d.tab(l)).rc().X1() + m < c.X() implies d.tab(l).rc().X1() + m <= j.X() by { assert(roomy_rect(d.tab(l).rc())); if l % NCOL() < k % NCOL() {} else if l % NCOL() == k % NCOL() {} else { assert(k % NCOL() < l % NCOL()); } }
    }
    if p.orientation is Right {
        assert forall|l: int| 0 <= l < d.tabs().len() && (#[trigger] d.tab(l)).rc().X0() - m > c.X() implies d.tab(l).rc().X0() - m >= j.X() by { assert(roomy_rect(d.tab(l).rc())); if l % NCOL() < k % NCOL() {} else if l % NCOL() == k % NCOL() {} else { assert(k % NCOL() < l % NCOL()); } }
    }
}
/// Ports at the same place face the same way.
pub proof fn lemma_same_side(d: Document, k: int, l: int, p: Point, q: Point, o: Orientation, w: Orientation)
    requires spaced(d), side_of(d, k, p, o), side_of(d, l, q, w), same_pt(p, q),
    ensures o == w, k == l,
{
    assert(roomy_rect(d.tab(k).rc())); assert(roomy_rect(d.tab(l).rc()));
    if k != l { lemma_gap(d, k, l); }
}
/// From the placement.
pub proof fn lemma_spaced(d: Document)
    requires d.wf_tree(), fits(d), placed(d, d.tabs().len() as int), forall|k: int| 0 <= k < d.tabs().len() ==> (#[trigger] d.rows(k)).len() > 0,
    ensures spaced(d),
{
    let n = d.tabs().len() as int;
    assert forall|k: int| 0 <= k < n implies (#[trigger] d.tab(k)).has_rect() && roomy_rect(d.tab(k).rc()) by {
        assert(placed_table(d, k)); lemma_sizes(d, k); lemma_bottom(d, k); assert(d.rows(k).len() > 0);
        assert(LINE() * 0 >= 0 && hgt(d, k) >= LINE());
    }
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k % NCOL() < l % NCOL() implies (#[trigger] d.tab(k)).rc().X1() + 2 * MARGIN() <= (#[trigger] d.tab(l)).rc().X0() by {
        assert(placed_table(d, k)); assert(placed_table(d, l));
        let (p, q) = (k % NCOL(), l % NCOL());
        assert((WIDTH() + SPACE()) * q >= (WIDTH() + SPACE()) * p + (WIDTH() + SPACE())) by (nonlinear_arith) requires q >= p + 1, WIDTH() + SPACE() >= 0;
    }
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k % NCOL() == l % NCOL() implies (#[trigger] d.tab(k)).rc().X0() == (#[trigger] d.tab(l)).rc().X0() && d.tab(k).rc().X1() == d.tab(l).rc().X1() by { assert(placed_table(d, k)); assert(placed_table(d, l)); }
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k / NCOL() == l / NCOL() implies (#[trigger] d.tab(k)).rc().Y0() == (#[trigger] d.tab(l)).rc().Y0() by { assert(placed_table(d, k)); assert(placed_table(d, l)); if k < l { lemma_below(d, k, l); } else if l < k { lemma_below(d, l, k); } }
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k / NCOL() < l / NCOL() implies (#[trigger] d.tab(k)).rc().Y1() + 2 * MARGIN() <= (#[trigger] d.tab(l)).rc().Y0() by { assert(placed_table(d, k)); assert(placed_table(d, l)); assert(k < l); lemma_below(d, k, l); }
}
