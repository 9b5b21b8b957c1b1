%verbatim
// ------------------------------------------------------------------ ports
pub open spec fn side_x(r: Rect, o: Orientation) -> int { match o { Orientation::Up => r.X0() + r.W() / 2, Orientation::Down => r.X0() + r.W() / 2, Orientation::Left => r.X0(), Orientation::Right => r.X1() } }
pub open spec fn side_y(r: Rect, o: Orientation) -> int { match o { Orientation::Up => r.Y0(), Orientation::Down => r.Y1(), Orientation::Left => r.Y0() + r.H() / 2, Orientation::Right => r.Y0() + r.H() / 2 } }
/// The port lies in the middle of the side it faces.
pub open spec fn mid_side(p: TerminalPort, r: Rect) -> bool { p.location.ok() && p.location.X() == side_x(r, p.orientation) && p.location.Y() == side_y(r, p.orientation) }
pub open spec fn allowed(o: Orientation, up: bool, down: bool) -> bool { match o { Orientation::Up => up, Orientation::Down => down, _ => true } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// Exactly one port on each side that may connect: as many ports as such sides, on distinct ones.
pub open spec fn ports_on(d: NodeData, id: NodeId, up: bool, down: bool) -> bool {
    &&& d.terminal_ports@.len() == 2 + b2i(up) + b2i(down)
    &&& forall|j: int| 0 <= j < d.terminal_ports@.len() ==> (#[trigger] d.terminal_ports@[j]).id == TerminalPortId(id, j as usize) && mid_side(d.terminal_ports@[j], d.rc()) && allowed(d.terminal_ports@[j].orientation, up, down)
    &&& forall|j: int, l: int| 0 <= j < l < d.terminal_ports@.len() ==> (#[trigger] d.terminal_ports@[j]).orientation != (#[trigger] d.terminal_ports@[l]).orientation
}
pub open spec fn ports_table(d: Document, k: int) -> bool { ports_on(d.tab(k), d.tabs()[k], true, true) }
pub open spec fn ports_row(d: Document, k: int, j: int) -> bool { ports_on(d.row(k, j), d.rows(k)[j], j == 0, j == d.rows(k).len() - 1) }
/// C05
pub open spec fn ports_ok(d: Document, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n ==> #[trigger] ports_table(d, k)
    &&& forall|k: int, j: int| 0 <= k < n && 0 <= j < d.rows(k).len() ==> #[trigger] ports_row(d, k, j)
}
/// Nothing on the tables from n on and their rows.
pub open spec fn bare_from(d: Document, n: int) -> bool {
    &&& forall|k: int| n <= k < d.tabs().len() ==> (#[trigger] d.tab(k)).terminal_ports@.len() == 0
    &&& forall|k: int, j: int| n <= k < d.tabs().len() && 0 <= j < d.rows(k).len() ==> (#[trigger] d.row(k, j)).terminal_ports@.len() == 0
}
pub open spec fn even_rect(d: NodeData) -> bool { d.has_rect() && d.rc().ok() && d.rc().W() % 2 == 0 && d.rc().H() % 2 == 0 }
pub open spec fn rects_ok(d: Document) -> bool {
    &&& forall|k: int| 0 <= k < d.tabs().len() ==> even_rect(#[trigger] d.tab(k))
    &&& forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() ==> even_rect(#[trigger] d.row(k, j))
}
pub open spec fn node_ported(a: Document, b: Document, z: NodeId) -> bool { same_but_ports(a, b) && forall|n: int| 0 <= n < a.len() && n != z.0.i ==> #[trigger] b.graph.ns@[n] == a.graph.ns@[n] }
pub proof fn lemma_rects_same(a: Document, b: Document)
    requires a.wf_tree(), rects_ok(a), same_but_ports(a, b),
    ensures rects_ok(b), forall|k: int| 0 <= k < a.tabs().len() ==> (#[trigger] b.tab(k)).origin == a.tab(k).origin && b.tab(k).size == a.tab(k).size,
{
    lemma_same_tree(a, b);
    assert forall|k: int| 0 <= k < b.tabs().len() implies even_rect(#[trigger] b.tab(k)) && b.tab(k).origin == a.tab(k).origin && b.tab(k).size == a.tab(k).size by { assert(even_rect(a.tab(k))); assert(b.nd(a.tabs()[k]).same_tree(a.nd(a.tabs()[k]))); }
    assert forall|k: int, j: int| 0 <= k < b.tabs().len() && 0 <= j < b.rows(k).len() implies even_rect(#[trigger] b.row(k, j)) by { assert(b.rows(k) == a.rows(k)); assert(even_rect(a.row(k, j))); assert(b.nd(a.rows(k)[j]).same_tree(a.nd(a.rows(k)[j]))); }
}
pub proof fn lemma_port_table(a: Document, b: Document, k: int)
    requires a.wf_tree(), rects_ok(a), 0 <= k < a.tabs().len(), node_ported(a, b, a.tabs()[k]), ports_ok(a, k), bare_from(a, k), ports_on(b.nd(a.tabs()[k]), a.tabs()[k], true, true),
    ensures ports_ok(b, k), ports_table(b, k), bare_from(b, k + 1), b.tabs() == a.tabs(), b.rows(k) == a.rows(k), forall|j: int| 0 <= j < a.rows(k).len() ==> (#[trigger] b.row(k, j)).terminal_ports@.len() == 0,
{
    lemma_same_tree(a, b);
    assert forall|l: int| 0 <= l < k implies #[trigger] ports_table(b, l) by { assert(ports_table(a, l)); assert(a.tabs()[l] != a.tabs()[k]); }
    assert forall|l: int, j: int| 0 <= l < k && 0 <= j < b.rows(l).len() implies #[trigger] ports_row(b, l, j) by { assert(b.rows(l) == a.rows(l)); assert(ports_row(a, l, j)); assert(a.row(l, j).kind is Field); assert(a.rows(l)[j] != a.tabs()[k]); }
    assert forall|l: int| k < l < b.tabs().len() implies (#[trigger] b.tab(l)).terminal_ports@.len() == 0 by { assert(a.tab(l).terminal_ports@.len() == 0); assert(a.tabs()[k] != a.tabs()[l]); }
    assert forall|l: int, j: int| k <= l < b.tabs().len() && 0 <= j < b.rows(l).len() implies (#[trigger] b.row(l, j)).terminal_ports@.len() == 0 by { assert(b.rows(l) == a.rows(l)); assert(a.row(l, j).terminal_ports@.len() == 0); assert(a.row(l, j).kind is Field); assert(a.rows(l)[j] != a.tabs()[k]); }
    assert(b.rows(k) == a.rows(k));
}
pub proof fn lemma_port_row(a: Document, b: Document, k: int, i: int)
    requires a.wf_tree(), rects_ok(a), 0 <= k < a.tabs().len(), 0 <= i < a.rows(k).len(), node_ported(a, b, a.rows(k)[i]), ports_ok(a, k), ports_table(a, k), bare_from(a, k + 1),
        forall|j: int| 0 <= j < i ==> #[trigger] ports_row(a, k, j), forall|j: int| i <= j < a.rows(k).len() ==> (#[trigger] a.row(k, j)).terminal_ports@.len() == 0,
        ports_on(b.nd(a.rows(k)[i]), a.rows(k)[i], i == 0, i == a.rows(k).len() - 1),
    ensures ports_ok(b, k), ports_table(b, k), bare_from(b, k + 1), b.tabs() == a.tabs(), b.rows(k) == a.rows(k),
        forall|j: int| 0 <= j < i + 1 ==> #[trigger] ports_row(b, k, j), forall|j: int| i + 1 <= j < a.rows(k).len() ==> (#[trigger] b.row(k, j)).terminal_ports@.len() == 0,
{
    lemma_same_tree(a, b);
    let z = a.rows(k)[i];
    assert(a.row(k, i).kind is Field);
    assert(b.rows(k) == a.rows(k));
    assert forall|l: int| 0 <= l < k + 1 implies #[trigger] ports_table(b, l) by { assert(ports_table(a, l)); assert(a.tab(l).kind is Record); assert(a.tabs()[l] != z); }
    assert forall|l: int, j: int| 0 <= l < k && 0 <= j < b.rows(l).len() implies #[trigger] ports_row(b, l, j) by { assert(b.rows(l) == a.rows(l)); assert(ports_row(a, l, j)); assert(a.rows(l)[j] != z); }
    assert forall|l: int| k < l < b.tabs().len() implies (#[trigger] b.tab(l)).terminal_ports@.len() == 0 by { assert(a.tab(l).terminal_ports@.len() == 0); assert(a.tab(l).kind is Record); assert(a.tabs()[l] != z); }
    assert forall|l: int, j: int| k < l < b.tabs().len() && 0 <= j < b.rows(l).len() implies (#[trigger] b.row(l, j)).terminal_ports@.len() == 0 by { assert(b.rows(l) == a.rows(l)); assert(a.row(l, j).terminal_ports@.len() == 0); assert(a.rows(l)[j] != z); }
    assert forall|j: int| 0 <= j < i implies #[trigger] ports_row(b, k, j) by { assert(ports_row(a, k, j)); assert(a.rows(k)[j] != z); }
    assert forall|j: int| i + 1 <= j < a.rows(k).len() implies (#[trigger] b.row(k, j)).terminal_ports@.len() == 0 by { assert(a.row(k, j).terminal_ports@.len() == 0); assert(a.rows(k)[j] != z); }
}
pub proof fn lemma_places_even(d: Document)
    requires d.wf_tree(), placed(d, d.tabs().len() as int),
    ensures rects_ok(d),
{
    assert forall|k: int| 0 <= k < d.tabs().len() implies even_rect(#[trigger] d.tab(k)) by { assert(placed_table(d, k)); lemma_sizes(d, k); }
    assert forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() implies even_rect(#[trigger] d.row(k, j)) by { assert(placed_row(d, k, j)); lemma_sizes(d, k); }
}
/// From conversion over placement to ports: what place_terminal_ports requires is what place_nodes leaves of a converted module.
pub proof fn lemma_ready_for_ports(a: Document, b: Document)
    requires a.wf(), a.fresh(), same_but_place(a, b), placed(b, b.tabs().len() as int),
    ensures b.wf(), rects_ok(b), bare_from(b, 0),
{
    lemma_same_tree(a, b);
    lemma_places_even(b);
    assert forall|k: int| 0 <= k < b.tabs().len() implies (#[trigger] b.tab(k)).terminal_ports@.len() == 0 by { assert(a.has(b.tabs()[k])); assert(a.nd(b.tabs()[k]).terminal_ports@.len() == 0); }
    assert forall|k: int, j: int| 0 <= k < b.tabs().len() && 0 <= j < b.rows(k).len() implies (#[trigger] b.row(k, j)).terminal_ports@.len() == 0 by { assert(a.rows(k) == b.rows(k)); assert(a.has(b.rows(k)[j])); assert(a.nd(b.rows(k)[j]).terminal_ports@.len() == 0); }
}
