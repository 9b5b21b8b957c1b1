%file layout
%const SimpleLayoutEngine::SHAPE_JUNCTION_MARGIN MARGIN
%verbatim
// ------------------------------------------------------------------ routing
/// Room for every table and what surrounds it.
pub open spec fn roomy_rect(r: Rect) -> bool { r.ok() && r.W() >= 8 && r.H() >= 8 && r.X0() >= 100 && r.Y0() >= 100 && r.X1() <= PLIM() - 4096 && r.Y1() <= PLIM() - 4096 }
pub open spec fn roomy(d: Document) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> (#[trigger] d.tab(k)).has_rect() && roomy_rect(d.tab(k).rc()) }
/// r is the rectangle of table k grown by m halves (shrunk, if m < 0).
pub open spec fn grown(r: Rect, t: Rect, m: int) -> bool { r.ok() && r.X0() == t.X0() - m && r.Y0() == t.Y0() - m && r.W() == imax(t.W() + 2 * m, 0) && r.H() == imax(t.H() + 2 * m, 0) }
/// Strictly farther than m halves from the table.
pub open spec fn off(t: Rect, m: int, p: Point) -> bool { !(t.X0() - m <= p.X() <= t.X1() + m && t.Y0() - m <= p.Y() <= t.Y1() + m) }
pub open spec fn off_all(d: Document, m: int, p: Point) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> off((#[trigger] d.tab(k)).rc(), m, p) }
pub open spec fn all_ok(s: Seq<Point>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).ok() }
pub open spec fn at_pt(p: Point, x: int, y: int) -> bool { p.X() == x && p.Y() == y }
/// The sequence holds a point at (x, y).
pub open spec fn holds(s: Seq<Point>, x: int, y: int) -> bool { exists|j: int| 0 <= j < s.len() && at_pt(#[trigger] s[j], x, y) }
/// The four corners around table k are there.
pub open spec fn corners(d: Document, s: Seq<Point>, k: int) -> bool {
    let r = d.tab(k).rc(); let m = MARGIN();
    holds(s, r.X0() - m, r.Y0() - m) && holds(s, r.X1() + m, r.Y0() - m) && holds(s, r.X1() + m, r.Y1() + m) && holds(s, r.X0() - m, r.Y1() + m)
}
pub proof fn lemma_holds_more(s: Seq<Point>, t: Seq<Point>)
    requires s.len() <= t.len(), forall|j: int| 0 <= j < s.len() ==> s[j] == #[trigger] t[j],
    ensures forall|x: int, y: int| #[trigger] holds(s, x, y) ==> holds(t, x, y),
        forall|d: Document, k: int| #[trigger] corners(d, s, k) ==> corners(d, t, k),
{
    assert forall|x: int, y: int| #[trigger] holds(s, x, y) implies holds(t, x, y) by { let j = choose|j: int| 0 <= j < s.len() && at_pt(#[trigger] s[j], x, y); assert(at_pt(t[j], x, y)); }
}
/// Nothing is between the port and the height or column of j on the side the port faces.
pub open spec fn seen(d: Document, p: TerminalPort, j: Point) -> bool {
    let c = p.location; let m = MARGIN();
    match p.orientation {
        Orientation::Left => 0 <= j.X() <= c.X() && forall|l: int| 0 <= l < d.tabs().len() && (#[trigger] d.tab(l)).rc().X1() + m < c.X() ==> d.tab(l).rc().X1() + m <= j.X(),
        Orientation::Right => j.X() >= c.X() && forall|l: int| 0 <= l < d.tabs().len() && (#[trigger] d.tab(l)).rc().X0() - m > c.X() ==> d.tab(l).rc().X0() - m >= j.X(),
        Orientation::Up => j.Y() <= c.Y(),
        Orientation::Down => j.Y() >= c.Y() && j.Y() >= 0,
    }
}
/// The crossing of the line from the port and the one through j is there.
pub open spec fn cross_of(p: TerminalPort, j: Point, s: Seq<Point>) -> bool {
    match p.orientation { Orientation::Left | Orientation::Right => holds(s, j.X(), p.location.Y()), _ => holds(s, p.location.X(), j.Y()) }
}
/// The rectangles of all tables, grown by m.
pub open spec fn grown_all(d: Document, s: Seq<Rect>, n: int, m: int) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> grown(#[trigger] s[k], d.tab(k).rc(), m) }
pub proof fn lemma_cross(p: TerminalPort, s: Seq<Point>, t: Seq<Point>, j: Point)
    requires s.len() <= t.len() <= s.len() + 1, forall|i: int| 0 <= i < s.len() ==> s[i] == #[trigger] t[i],
    ensures forall|q: Point| #[trigger] cross_of(p, q, s) ==> cross_of(p, q, t), 
        t.len() > s.len() && at_pt(t[s.len() as int], j.X(), p.location.Y()) && (p.orientation is Left || p.orientation is Right) ==> cross_of(p, j, t),
        t.len() > s.len() && at_pt(t[s.len() as int], p.location.X(), j.Y()) && (p.orientation is Up || p.orientation is Down) ==> cross_of(p, j, t),
{
    lemma_holds_more(s, t);
}
/// Whatever is off all tables is kept.
pub open spec fn kept_of(d: Document, q: Seq<&Point>, r: Seq<Point>) -> bool { forall|j: int| 0 <= j < q.len() && off_all(d, MARGIN() - 2, *#[trigger] q[j]) ==> holds(r, q[j].X(), q[j].Y()) }
