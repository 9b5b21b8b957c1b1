%file layout
%const SimpleLayoutEngine::ORIGIN ORG
%const SimpleLayoutEngine::LINE_HEIGHT LINE
%const SimpleLayoutEngine::RECORD_WIDTH WIDTH
%const SimpleLayoutEngine::RECORD_SPACE SPACE
%const SimpleLayoutEngine::GRID_N_COLUMNS NCOL
%verbatim
// ------------------------------------------------------------------ placement
/// Height of a table.
pub open spec fn hgt(d: Document, k: int) -> int { LINE() * d.rows(k).len() }
/// Greatest height among the tables before k of the grid row that table k - 1 is in.
pub open spec fn mh(d: Document, k: int) -> int decreases k {
    if k <= 0 { 0 } else { imax(hgt(d, k - 1), if (k - 1) % NCOL() == 0 { 0 } else { mh(d, k - 1) }) }
}
/// Top of the grid row of table k.
pub open spec fn by(d: Document, k: int) -> int decreases k {
    if k <= 0 { ORG_Y() } else if k % NCOL() == 0 { by(d, k - 1) + mh(d, k) + SPACE() } else { by(d, k - 1) }
}
/// Lower end of everything.
pub open spec fn bottom(d: Document) -> int { let n = d.tabs().len() as int; by(d, n - 1) + mh(d, n) + ORG_Y() }
/// The bound on the height of a diagram under which f32 is exact.
pub open spec fn fits(d: Document) -> bool { bottom(d) <= PLIM() - 8192 }
/// Left side of the last column.
pub open spec fn last_x() -> int { ORG_X() + (WIDTH() + SPACE()) * (NCOL() - 1) }
pub open spec fn col_x(k: int) -> int { ORG_X() + (WIDTH() + SPACE()) * (k % NCOL()) }
pub open spec fn rect_is(d: NodeData, x: int, y: int, w: int, h: int) -> bool {
    d.has_rect() && d.rc().ok() && d.rc().X0() == x && d.rc().Y0() == y && d.rc().W() == w && d.rc().H() == h
}
pub open spec fn placed_table(d: Document, k: int) -> bool { rect_is(d.tab(k), col_x(k), by(d, k), WIDTH(), hgt(d, k)) }
pub open spec fn placed_row(d: Document, k: int, j: int) -> bool { rect_is(d.row(k, j), col_x(k), by(d, k) + LINE() * j, WIDTH(), LINE()) }
pub open spec fn placed(d: Document, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n ==> #[trigger] placed_table(d, k)
    &&& forall|k: int, j: int| 0 <= k < n && 0 <= j < d.rows(k).len() ==> #[trigger] placed_row(d, k, j)
}
/// Same nodes, edges and ports; only places may differ.
pub open spec fn same_but_place(a: Document, b: Document) -> bool {
    &&& a.len() == b.len() && a.body_id == b.body_id && a.graph.es == b.graph.es && a.graph.ends == b.graph.ends
    &&& forall|n: int| 0 <= n < a.len() ==> (#[trigger] b.graph.ns@[n]).same_tree(a.graph.ns@[n]) && b.graph.ns@[n].terminal_ports == a.graph.ns@[n].terminal_ports
}
/// Same nodes, edges and places; only ports may differ.
pub open spec fn same_but_ports(a: Document, b: Document) -> bool {
    &&& a.len() == b.len() && a.body_id == b.body_id && a.graph.es == b.graph.es && a.graph.ends == b.graph.ends
    &&& forall|n: int| 0 <= n < a.len() ==> (#[trigger] b.graph.ns@[n]).same_tree(a.graph.ns@[n]) && b.graph.ns@[n].origin == a.graph.ns@[n].origin && b.graph.ns@[n].size == a.graph.ns@[n].size
}
/// Same nodes and edges up to places and ports.
pub open spec fn same_tree(a: Document, b: Document) -> bool {
    &&& a.len() == b.len() && a.body_id == b.body_id && a.graph.es == b.graph.es && a.graph.ends == b.graph.ends
    &&& forall|n: int| 0 <= n < a.len() ==> (#[trigger] b.graph.ns@[n]).same_tree(a.graph.ns@[n])
}
pub proof fn lemma_same_tree(a: Document, b: Document)
    requires a.wf_tree(), same_tree(a, b),
    ensures b.wf_tree(), b.tabs() == a.tabs(), forall|k: int| 0 <= k < a.tabs().len() ==> #[trigger] b.rows(k) == a.rows(k),
        forall|k: int| k <= a.tabs().len() ==> #[trigger] by(b, k) == by(a, k) && mh(b, k) == mh(a, k),
        a.wf() ==> b.wf(), bottom(b) == bottom(a),
{
    assert(b.nd(b.body_id).same_tree(a.nd(a.body_id)));
    assert forall|k: int| 0 <= k < a.tabs().len() implies #[trigger] b.rows(k) == a.rows(k) by { assert(b.nd(a.tabs()[k]).same_tree(a.nd(a.tabs()[k]))); }
    assert forall|k: int| k <= a.tabs().len() implies #[trigger] by(b, k) == by(a, k) && mh(b, k) == mh(a, k) by { lemma_same_by(a, b, k); }
    let nn = a.tabs().len() as int; assert(by(b, nn - 1) == by(a, nn - 1) && by(b, nn) == by(a, nn));
    assert forall|k: int| 0 <= k < b.tabs().len() implies b.has(#[trigger] b.tabs()[k]) && b.tab(k).kind is Record by { assert(b.nd(a.tabs()[k]).same_tree(a.nd(a.tabs()[k]))); }
    assert forall|k: int, j: int| 0 <= k < b.tabs().len() && 0 <= j < b.rows(k).len() implies b.has(#[trigger] b.rows(k)[j]) && b.row(k, j).kind is Field && b.row(k, j).children@.len() == 0 by {
        assert(b.nd(a.rows(k)[j]).same_tree(a.nd(a.rows(k)[j]))); }
    if a.wf() {
        assert forall|e: int| 0 <= e < b.n_rel() implies (#[trigger] b.rel(e)).source_id.0 == b.graph.ends@[e].0 && b.rel(e).target_id.0 == b.graph.ends@[e].1 && b.is_shape(b.rel(e).source_id) && b.is_shape(b.rel(e).target_id) by {
            assert(a.rel(e) == b.rel(e)); lemma_same_shape(a, b, a.rel(e).source_id); lemma_same_shape(a, b, a.rel(e).target_id);
        }
        assert(b.graph.gwf());
    }
}
pub proof fn lemma_same_shape(a: Document, b: Document, z: NodeId)
    requires b.tabs() == a.tabs(), forall|k: int| 0 <= k < a.tabs().len() ==> #[trigger] b.rows(k) == a.rows(k), a.is_shape(z),
    ensures b.is_shape(z),
{
    if exists|k: int| 0 <= k < a.tabs().len() && z == #[trigger] a.tabs()[k] { let k = choose|k: int| 0 <= k < a.tabs().len() && z == #[trigger] a.tabs()[k]; assert(b.tabs()[k] == z); }
    else { let (k, j) = choose|k: int, j: int| 0 <= k < a.tabs().len() && 0 <= j < a.rows(k).len() && z == #[trigger] a.rows(k)[j]; assert(b.rows(k)[j] == z); }
}
pub proof fn lemma_same_by(a: Document, b: Document, k: int)
    requires b.tabs() == a.tabs(), forall|k: int| 0 <= k < a.tabs().len() ==> #[trigger] b.rows(k) == a.rows(k), k <= a.tabs().len(),
    ensures by(b, k) == by(a, k), mh(b, k) == mh(a, k),
    decreases k
{
    if k > 0 { lemma_same_by(a, b, k - 1); assert(b.rows(k - 1) == a.rows(k - 1)); }
}
/// Tops and heights stay within the diagram.
pub proof fn lemma_by(d: Document, k: int)
    requires 0 <= k <= d.tabs().len(),
    ensures by(d, k) >= ORG_Y(), mh(d, k) >= 0, k > 0 ==> mh(d, k) >= hgt(d, k - 1) && by(d, k) >= by(d, k - 1) && by(d, k - 1) + mh(d, k) <= bottom(d) - ORG_Y(),
    decreases d.tabs().len() - k
{
    lemma_by0(d, k);
    if k > 0 { lemma_by0(d, k - 1); }
    if k < d.tabs().len() {
        lemma_by(d, k + 1);
        lemma_by0(d, k + 1);
    }
}
pub proof fn lemma_by0(d: Document, k: int)
    requires 0 <= k <= d.tabs().len(),
    ensures by(d, k) >= ORG_Y(), mh(d, k) >= 0, k > 0 ==> mh(d, k) >= hgt(d, k - 1) && by(d, k) >= by(d, k - 1),
    decreases k
{
    if k > 0 { lemma_by0(d, k - 1); assert(hgt(d, k - 1) >= 0) by (nonlinear_arith) requires hgt(d, k - 1) == LINE() * d.rows(k - 1).len(), LINE() >= 0; }
}
/// Halves of the places of one table and its rows.
pub proof fn lemma_sizes(d: Document, k: int)
    requires 0 <= k,
    ensures hgt(d, k) == LINE() * d.rows(k).len(), ORG_X() <= col_x(k), col_x(k) + WIDTH() <= PLIM(), hgt(d, k) % 2 == 0, WIDTH() % 2 == 0, LINE() % 2 == 0, LINE() > 0, WIDTH() > 0,
        (WIDTH() + SPACE()) * (k % NCOL()) >= 0, col_x(k) + WIDTH() <= ORG_X() + NCOL() * WIDTH() + (NCOL() - 1) * SPACE(),
        ((WIDTH() + SPACE()) * (2 * (k % NCOL()))) / 2 == (WIDTH() + SPACE()) * (k % NCOL()), ((WIDTH() + SPACE()) * (2 * (k % NCOL()))) % 2 == 0,
        (LINE() * (2 * d.rows(k).len())) / 2 == hgt(d, k), (LINE() * (2 * d.rows(k).len())) % 2 == 0,
        forall|j: int| 0 <= j < d.rows(k).len() ==> 0 <= #[trigger] (LINE() * j) && LINE() * j + LINE() <= hgt(d, k),
        forall|j: int| #[trigger] (LINE() * (2 * j)) / 2 == LINE() * j && (LINE() * (2 * j)) % 2 == 0,
{
    let m = k % NCOL();
    assert(0 <= m < NCOL());
    assert((WIDTH() + SPACE()) * m <= (WIDTH() + SPACE()) * (NCOL() - 1) && (WIDTH() + SPACE()) * m >= 0) by (nonlinear_arith) requires 0 <= m <= NCOL() - 1, WIDTH() + SPACE() >= 0;
    assert((WIDTH() + SPACE()) * (NCOL() - 1) == NCOL() * WIDTH() - WIDTH() + (NCOL() - 1) * SPACE()) by (nonlinear_arith);
    assert((WIDTH() + SPACE()) * (2 * m) == 2 * ((WIDTH() + SPACE()) * m)) by (nonlinear_arith);
    let c = d.rows(k).len() as int;
    assert(LINE() * (2 * c) == 2 * (LINE() * c)) by (nonlinear_arith);
    assert((LINE() * c) % 2 == 0) by (nonlinear_arith) requires LINE() % 2 == 0;
    assert forall|j: int| 0 <= j < c implies 0 <= #[trigger] (LINE() * j) && LINE() * j + LINE() <= hgt(d, k) by { assert(0 <= LINE() * j && LINE() * j + LINE() <= LINE() * c) by (nonlinear_arith) requires 0 <= j < c, LINE() > 0; }
    assert forall|j: int| #[trigger] (LINE() * (2 * j)) / 2 == LINE() * j && (LINE() * (2 * j)) % 2 == 0 by { assert(LINE() * (2 * j) == 2 * (LINE() * j)) by (nonlinear_arith); }
}
pub proof fn lemma_bottom(d: Document, k: int)
    requires 0 <= k < d.tabs().len(),
    ensures by(d, k) + hgt(d, k) <= bottom(d) - ORG_Y(), by(d, k) >= ORG_Y(),
{
    lemma_by(d, k + 1); lemma_by0(d, k);
}
pub proof fn lemma_by_step(d: Document, k: int)
    requires 0 <= k < d.tabs().len(), fits(d),
    ensures
        k == 0 ==> by(d, k) == ORG_Y(), k > 0 && k % NCOL() == 0 ==> by(d, k) == by(d, k - 1) + mh(d, k) + SPACE(), k > 0 && k % NCOL() != 0 ==> by(d, k) == by(d, k - 1),
        k == 0 ==> mh(d, k) == 0,
        mh(d, k + 1) == imax(hgt(d, k), if k % NCOL() == 0 { 0 } else { mh(d, k) }),
        ORG_Y() <= by(d, k) <= PLIM() - 8192, 0 <= mh(d, k) <= PLIM() - 8192, 0 <= mh(d, k + 1) <= PLIM() - 8192, 0 <= hgt(d, k), by(d, k) + hgt(d, k) <= PLIM() - 8192,
        k > 0 ==> by(d, k - 1) + mh(d, k) <= PLIM() - 8192,
{
    lemma_by(d, k); lemma_by(d, k + 1); lemma_by0(d, k); lemma_by0(d, k + 1);
    if k > 0 { lemma_by0(d, k - 1); }
    assert(hgt(d, k) >= 0) by (nonlinear_arith) requires hgt(d, k) == LINE() * d.rows(k).len(), LINE() >= 0;
}
/// Writing the place of one node keeps the rest.
pub open spec fn node_placed(a: Document, b: Document, z: NodeId) -> bool { same_but_place(a, b) && forall|n: int| 0 <= n < a.len() && n != z.0.i ==> #[trigger] b.graph.ns@[n] == a.graph.ns@[n] }
pub proof fn lemma_place_table(a: Document, b: Document, k: int)
    requires a.wf_tree(), 0 <= k < a.tabs().len(), node_placed(a, b, a.tabs()[k]), placed(a, k),
        rect_is(b.nd(a.tabs()[k]), col_x(k), by(a, k), WIDTH(), hgt(a, k)),
    ensures placed(b, k), placed_table(b, k), b.tabs() == a.tabs(), b.rows(k) == a.rows(k),
{
    lemma_same_tree(a, b);
    assert forall|l: int| 0 <= l < k implies #[trigger] placed_table(b, l) by { assert(placed_table(a, l)); assert(a.tabs()[l] != a.tabs()[k]); assert(b.rows(l) == a.rows(l)); }
    assert forall|l: int, j: int| 0 <= l < k && 0 <= j < b.rows(l).len() implies #[trigger] placed_row(b, l, j) by { assert(b.rows(l) == a.rows(l)); assert(placed_row(a, l, j)); assert(a.row(l, j).kind is Field); assert(a.rows(l)[j] != a.tabs()[k]); }
    assert(b.rows(k) == a.rows(k));
}
pub proof fn lemma_place_row(a: Document, b: Document, k: int, i: int)
    requires a.wf_tree(), 0 <= k < a.tabs().len(), 0 <= i < a.rows(k).len(), node_placed(a, b, a.rows(k)[i]), placed(a, k), placed_table(a, k), forall|j: int| 0 <= j < i ==> #[trigger] placed_row(a, k, j),
        rect_is(b.nd(a.rows(k)[i]), col_x(k), by(a, k) + LINE() * i, WIDTH(), LINE()),
    ensures placed(b, k), placed_table(b, k), forall|j: int| 0 <= j < i + 1 ==> #[trigger] placed_row(b, k, j), b.tabs() == a.tabs(), b.rows(k) == a.rows(k),
{
    lemma_same_tree(a, b);
    let z = a.rows(k)[i];
    assert(a.nd(z).kind is Field);
    assert forall|l: int| 0 <= l < k + 1 implies #[trigger] placed_table(b, l) by { assert(placed_table(a, l)); assert(a.tabs()[l] != z); assert(b.rows(l) == a.rows(l)); }
    assert forall|l: int, j: int| 0 <= l < k && 0 <= j < b.rows(l).len() implies #[trigger] placed_row(b, l, j) by { assert(b.rows(l) == a.rows(l)); assert(placed_row(a, l, j)); assert(a.rows(l)[j] != z); }
    assert(b.rows(k) == a.rows(k));
    assert forall|j: int| 0 <= j < i implies #[trigger] placed_row(b, k, j) by { assert(placed_row(a, k, j)); assert(a.rows(k)[j] != z); }
}
/// Tables in different grid rows: the later one is below the earlier one.
pub proof fn lemma_below(d: Document, k: int, l: int)
    requires 0 <= k < l < d.tabs().len(),
    ensures k / NCOL() == l / NCOL() ==> by(d, l) == by(d, k), k / NCOL() != l / NCOL() ==> by(d, l) >= by(d, k) + hgt(d, k) + SPACE(),
    decreases l - k
{
    lemma_mh_ge(d, k, l);
    if k / NCOL() == l / NCOL() {
        lemma_same_row(d, k, l);
    } else {
        lemma_by0(d, l);
        if l == k + 1 { } else { lemma_below(d, k, l - 1); lemma_mh_ge(d, k, l - 1);
            if k / NCOL() == (l - 1) / NCOL() { lemma_same_row(d, k, l - 1); } }
    }
}
pub proof fn lemma_same_row(d: Document, k: int, l: int)
    requires 0 <= k <= l < d.tabs().len(), k / NCOL() == l / NCOL(),
    ensures by(d, l) == by(d, k),
    decreases l - k
{
    if k < l { lemma_same_row(d, k, l - 1); }
}
pub proof fn lemma_mh_ge(d: Document, k: int, l: int)
    requires 0 <= k < l <= d.tabs().len(),
    ensures k / NCOL() == (l - 1) / NCOL() ==> mh(d, l) >= hgt(d, k),
    decreases l - k
{
    lemma_by0(d, l);
    if k < l - 1 { lemma_mh_ge(d, k, l - 1); }
}
// ------------------------------------------------------------------ what the properties say about places
/// C03: side by side in one grid row, or one below the other, always at least 80 apart.
pub open spec fn apart(a: Rect, b: Rect, k: int, l: int) -> bool {
    if k / 3 == l / 3 { a.Y0() == b.Y0() && a.X1() + 160 <= b.X0() } else { a.Y1() + 160 <= b.Y0() }
}
pub open spec fn grid_ok(d: Document) -> bool {
    &&& forall|k: int| 0 <= k < d.tabs().len() ==> (#[trigger] d.tab(k)).has_rect() && d.tab(k).rc().ok()
    &&& forall|k: int, l: int| 0 <= k < l < d.tabs().len() ==> apart((#[trigger] d.tab(k)).rc(), (#[trigger] d.tab(l)).rc(), k, l)
    &&& forall|k: int, l: int| 0 <= k < l < d.tabs().len() && k % 3 == l % 3 ==> (#[trigger] d.tab(k)).rc().X0() == (#[trigger] d.tab(l)).rc().X0()
}
/// C03: the rows tile their table.
pub open spec fn tiled(d: Document) -> bool {
    &&& forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() ==> (#[trigger] d.row(k, j)).has_rect() && d.row(k, j).rc().ok() && d.row(k, j).rc().X0() == d.tab(k).rc().X0() && d.row(k, j).rc().W() == d.tab(k).rc().W()
            && d.row(k, j).rc().H() > 0 && d.row(k, j).rc().H() == d.row(k, 0).rc().H()
    &&& forall|k: int| 0 <= k < d.tabs().len() && d.rows(k).len() > 0 ==> (#[trigger] d.row(k, 0)).rc().Y0() == d.tab(k).rc().Y0()
            && d.row(k, d.rows(k).len() - 1).rc().Y1() == d.tab(k).rc().Y1()
    &&& forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 < j < d.rows(k).len() ==> (#[trigger] d.row(k, j)).rc().Y0() == d.row(k, j - 1).rc().Y1()
}
/// C04
pub open spec fn view_ok(d: Document, v: Rect) -> bool {
    &&& v.ok() && v.W() > 0 && v.H() > 0
    &&& forall|k: int| 0 <= k < d.tabs().len() ==> v.X0() + 100 <= (#[trigger] d.tab(k)).rc().X0() && d.tab(k).rc().X1() + 100 <= v.X1() && v.Y0() + 100 <= d.tab(k).rc().Y0() && d.tab(k).rc().Y1() + 100 <= v.Y1()
}
/// A view box that reaches from the origin's margin to beyond the last column and row.
pub proof fn lemma_view_ok(a: Document, d: Document, v: Rect)
    requires a.wf_tree(), same_but_place(a, d), placed(d, d.tabs().len() as int), v.ok(), v.W() > 0, v.H() > 0, v.X0() + 100 <= ORG_X(), v.Y0() + 100 <= ORG_Y(), d.tabs().len() > 0 ==> v.Y1() >= bottom(a) - ORG_Y() + 100,
        d.tabs().len() > 0 ==> v.X1() >= last_x() + WIDTH() + 100,
    ensures view_ok(d, v),
{
    hide(by); hide(mh);
    lemma_same_tree(a, d);
    assert forall|k: int| 0 <= k < d.tabs().len() implies v.X0() + 100 <= (#[trigger] d.tab(k)).rc().X0() && d.tab(k).rc().X1() + 100 <= v.X1() && v.Y0() + 100 <= d.tab(k).rc().Y0() && d.tab(k).rc().Y1() + 100 <= v.Y1() by {
        assert(placed_table(d, k));
        lemma_bottom(a, k);
        assert(d.rows(k) == a.rows(k) && by(d, k) == by(a, k));
        let c = k % NCOL(); assert(col_x(k) <= last_x()) by { let m = NCOL() - 1; assert((WIDTH() + SPACE()) * c <= (WIDTH() + SPACE()) * m) by (nonlinear_arith) requires c <= m, WIDTH() + SPACE() >= 0; }
        let t = d.tab(k).rc();
        assert(rect_is(d.tab(k), col_x(k), by(d, k), WIDTH(), hgt(d, k)));
        assert(t.X0() == col_x(k)); assert(t.Y0() == by(d, k)); assert(t.Y1() == by(d, k) + hgt(d, k)); assert(t.X1() == col_x(k) + WIDTH());
        assert(col_x(k) >= ORG_X()) by { assert((WIDTH() + SPACE()) * c >= 0) by (nonlinear_arith) requires c >= 0, WIDTH() + SPACE() >= 0; }
    }
}
pub proof fn lemma_places(d: Document)
    requires d.wf_tree(), fits(d), placed(d, d.tabs().len() as int),
    ensures grid_ok(d), tiled(d),
{
    let n = d.tabs().len() as int;
    assert forall|k: int, l: int| 0 <= k < l < n implies apart((#[trigger] d.tab(k)).rc(), (#[trigger] d.tab(l)).rc(), k, l) by {
        assert(placed_table(d, k)); assert(placed_table(d, l));
        lemma_below(d, k, l);
        if k / 3 == l / 3 {
            assert(k % 3 < l % 3);
            let (p, q) = (k % 3, l % 3);
            assert((WIDTH() + SPACE()) * q >= (WIDTH() + SPACE()) * p + (WIDTH() + SPACE())) by (nonlinear_arith) requires q >= p + 1, WIDTH() + SPACE() >= 0;
        }
    }
    assert forall|k: int| 0 <= k < n implies (#[trigger] d.tab(k)).has_rect() && d.tab(k).rc().ok() by { assert(placed_table(d, k)); }
    assert forall|k: int, l: int| 0 <= k < l < n && k % 3 == l % 3 implies (#[trigger] d.tab(k)).rc().X0() == (#[trigger] d.tab(l)).rc().X0() by { assert(placed_table(d, k)); assert(placed_table(d, l)); }
    assert forall|k: int, j: int| 0 <= k < n && 0 <= j < d.rows(k).len() implies (#[trigger] d.row(k, j)).has_rect() && d.row(k, j).rc().ok() && d.row(k, j).rc().X0() == d.tab(k).rc().X0() && d.row(k, j).rc().W() == d.tab(k).rc().W()
            && d.row(k, j).rc().H() > 0 && d.row(k, j).rc().H() == d.row(k, 0).rc().H() by { assert(placed_row(d, k, j)); assert(placed_row(d, k, 0)); assert(placed_table(d, k)); }
    assert forall|k: int| 0 <= k < n && d.rows(k).len() > 0 implies (#[trigger] d.row(k, 0)).rc().Y0() == d.tab(k).rc().Y0() && d.row(k, d.rows(k).len() - 1).rc().Y1() == d.tab(k).rc().Y1() by {
        assert(placed_row(d, k, 0)); assert(placed_row(d, k, d.rows(k).len() - 1)); assert(placed_table(d, k)); }
    assert forall|k: int, j: int| 0 <= k < n && 0 < j < d.rows(k).len() implies (#[trigger] d.row(k, j)).rc().Y0() == d.row(k, j - 1).rc().Y1() by { assert(placed_row(d, k, j)); assert(placed_row(d, k, j - 1)); }
}
