%verbatim
// ------------------------------------------------------------------ from the placed document to the network
/// What placement and ports leave behind.
pub open spec fn laid(d: Document) -> bool {
    &&& d.wf() && fits(d) && placed(d, d.tabs().len() as int) && ports_ok(d, d.tabs().len() as int)
    &&& forall|k: int| 0 <= k < d.tabs().len() ==> (#[trigger] d.rows(k)).len() > 0
}
pub open spec fn port(d: Document, z: NodeId, i: int) -> TerminalPort { d.nd(z).terminal_ports@[i] }
pub open spec fn n_ports(d: Document, z: NodeId) -> int { d.nd(z).terminal_ports@.len() as int }
pub open spec fn port_good(d: Document, z: NodeId, i: int) -> bool { let p = port(d, z, i); p.id == TerminalPortId(z, i as usize) && p.location.ok() && at_side(d, p.location, p.orientation) }
pub open spec fn two_ports(d: Document, z: NodeId, i: int, j: int) -> bool { 0 <= i < n_ports(d, z) && 0 <= j < n_ports(d, z) && !same_pt(port(d, z, i).location, port(d, z, j).location) }
/// Every port of a table or row is on the side of its table.
pub open spec fn shape_good(d: Document, z: NodeId) -> bool {
    &&& d.has(z) && 2 <= n_ports(d, z) <= 4 && forall|i: int| 0 <= i < n_ports(d, z) ==> #[trigger] port_good(d, z, i)
    &&& exists|i: int, j: int| #[trigger] two_ports(d, z, i, j)
}
pub open spec fn all_good(d: Document) -> bool { d.wf() && spaced(d) && forall|z: NodeId| #[trigger] d.is_shape(z) ==> shape_good(d, z) }
pub proof fn lemma_good_table(d: Document, k: int)
    requires laid(d), spaced(d), 0 <= k < d.tabs().len(),
    ensures shape_good(d, d.tabs()[k]),
{
    let z = d.tabs()[k]; let t = d.tab(k).rc();
    assert(roomy_rect(t)); assert(ports_table(d, k)); assert(placed_table(d, k)); lemma_sizes(d, k);
    assert forall|i: int| 0 <= i < n_ports(d, z) implies #[trigger] port_good(d, z, i) by { assert(d.tab(k).terminal_ports@[i].id == TerminalPortId(z, i as usize)); assert(side_of(d, k, port(d, z, i).location, port(d, z, i).orientation)); }
    assert(port_good(d, z, 0) && port_good(d, z, 1));
    assert(port(d, z, 0).orientation != port(d, z, 1).orientation);
    assert(two_ports(d, z, 0, 1));
}
pub proof fn lemma_good_row(d: Document, k: int, j: int)
    requires laid(d), spaced(d), 0 <= k < d.tabs().len(), 0 <= j < d.rows(k).len(),
    ensures shape_good(d, d.rows(k)[j]),
{
    let z = d.rows(k)[j]; let t = d.tab(k).rc(); let r = d.row(k, j).rc();
    assert(roomy_rect(t)); assert(ports_row(d, k, j)); assert(placed_table(d, k)); assert(placed_row(d, k, j)); lemma_sizes(d, k);
    assert(0 <= LINE() * j && LINE() * j + LINE() <= hgt(d, k));
    if j == d.rows(k).len() - 1 { let c = d.rows(k).len() as int; assert(LINE() * j + LINE() == LINE() * c) by (nonlinear_arith) requires j == c - 1; }
    assert(j == 0 ==> LINE() * j == 0);
    assert forall|i: int| 0 <= i < n_ports(d, z) implies #[trigger] port_good(d, z, i) by { assert(d.row(k, j).terminal_ports@[i].id == TerminalPortId(z, i as usize)); assert(side_of(d, k, port(d, z, i).location, port(d, z, i).orientation)); }
    assert(port_good(d, z, 0) && port_good(d, z, 1));
    assert(port(d, z, 0).orientation != port(d, z, 1).orientation);
    assert(two_ports(d, z, 0, 1));
}
pub proof fn lemma_good(d: Document)
    requires laid(d),
    ensures all_good(d),
{
    lemma_spaced(d);
    assert forall|z: NodeId| #[trigger] d.is_shape(z) implies shape_good(d, z) by {
        if exists|k: int| 0 <= k < d.tabs().len() && z == #[trigger] d.tabs()[k] { let k = choose|k: int| 0 <= k < d.tabs().len() && z == #[trigger] d.tabs()[k]; lemma_good_table(d, k); }
        else { let (k, j) = choose|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() && z == #[trigger] d.rows(k)[j]; lemma_good_row(d, k, j); }
    }
}
/// The place straight out of the port is there.
pub open spec fn crossed(d: Document, s: Seq<Point>, p: TerminalPort) -> bool { forall|k: int| #[trigger] side_of(d, k, p.location, p.orientation) ==> holds(s, stub_x(d.tab(k).rc(), p.location, p.orientation), stub_y(d.tab(k).rc(), p.location, p.orientation)) }
pub open spec fn crossed_upto(d: Document, s: Seq<Point>, z: NodeId, m: int) -> bool { forall|i: int| 0 <= i < m ==> crossed(d, s, #[trigger] port(d, z, i)) }
pub open spec fn src(d: Document, e: int) -> NodeId { d.rel(e).source_id }
pub open spec fn tgt(d: Document, e: int) -> NodeId { d.rel(e).target_id }
pub open spec fn crossed_rel(d: Document, s: Seq<Point>, e: int) -> bool { crossed_upto(d, s, src(d, e), n_ports(d, src(d, e))) && crossed_upto(d, s, tgt(d, e), n_ports(d, tgt(d, e))) }
pub proof fn lemma_crossed(d: Document, p: TerminalPort, c: Seq<Point>, r: Seq<Point>)
    requires spaced(d), forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] corners(d, c, k), forall|j: int| 0 <= j < c.len() && seen(d, p, #[trigger] c[j]) ==> cross_of(p, c[j], r),
    ensures crossed(d, r, p),
{
    assert forall|k: int| #[trigger] side_of(d, k, p.location, p.orientation) implies holds(r, stub_x(d.tab(k).rc(), p.location, p.orientation), stub_y(d.tab(k).rc(), p.location, p.orientation)) by {
        let t = d.tab(k).rc(); let o = p.orientation;
        assert(corners(d, c, k));
        let j = choose|j: int| 0 <= j < c.len() && at_pt(#[trigger] c[j], aim_x(t, o), aim_y(t, o));
        lemma_seen(d, k, p, c[j]);
    }
}
/// s is part of t.
pub open spec fn within(s: Seq<Point>, t: Seq<Point>) -> bool { forall|x: int, y: int| #[trigger] holds(s, x, y) ==> holds(t, x, y) }
pub proof fn lemma_within_cat(s: Seq<Point>, t: Seq<Point>)
    ensures within(s, s + t), within(t, s + t), all_ok(s) && all_ok(t) ==> all_ok(s + t),
{
    assert forall|x: int, y: int| #[trigger] holds(s, x, y) implies holds(s + t, x, y) by { let j = choose|j: int| 0 <= j < s.len() && at_pt(#[trigger] s[j], x, y); assert(at_pt((s + t)[j], x, y)); }
    assert forall|x: int, y: int| #[trigger] holds(t, x, y) implies holds(s + t, x, y) by { let j = choose|j: int| 0 <= j < t.len() && at_pt(#[trigger] t[j], x, y); assert(at_pt((s + t)[s.len() + j], x, y)); }
    assert forall|j: int| 0 <= j < (s + t).len() && all_ok(s) && all_ok(t) implies (#[trigger] (s + t)[j]).ok() by { if j < s.len() { assert(s[j].ok()); } else { assert(t[j - s.len()].ok()); } }
}
pub proof fn lemma_crossed_within(d: Document, s: Seq<Point>, t: Seq<Point>)
    requires within(s, t),
    ensures forall|p: TerminalPort| #[trigger] crossed(d, s, p) ==> crossed(d, t, p), forall|z: NodeId, m: int| #[trigger] crossed_upto(d, s, z, m) ==> crossed_upto(d, t, z, m), forall|e: int| #[trigger] crossed_rel(d, s, e) ==> crossed_rel(d, t, e),
{
    assert forall|p: TerminalPort| #[trigger] crossed(d, s, p) implies crossed(d, t, p) by {}
    assert forall|z: NodeId, m: int| #[trigger] crossed_upto(d, s, z, m) implies crossed_upto(d, t, z, m) by { assert forall|i: int| 0 <= i < m implies crossed(d, t, #[trigger] port(d, z, i)) by { assert(crossed(d, s, port(d, z, i))); } }
}
/// The places on the margin of a table survive.
pub open spec fn surviving(d: Document, s: Seq<Point>, r: Seq<Point>) -> bool { forall|j: int| 0 <= j < s.len() && off_all(d, MARGIN() - 2, #[trigger] s[j]) ==> holds(r, s[j].X(), s[j].Y()) }
pub open spec fn rim(t: Rect, p: Point) -> bool { around(t, p) && (p.X() == t.X0() - MARGIN() || p.X() == t.X1() + MARGIN() || p.Y() == t.Y0() - MARGIN() || p.Y() == t.Y1() + MARGIN()) }
pub proof fn lemma_rim(d: Document, s: Seq<Point>, r: Seq<Point>, k: int, x: int, y: int)
    requires spaced(d), surviving(d, s, r), 0 <= k < d.tabs().len(), holds(s, x, y), forall|p: Point| at_pt(p, x, y) ==> #[trigger] rim(d.tab(k).rc(), p),
    ensures holds(r, x, y),
{
    let j = choose|j: int| 0 <= j < s.len() && at_pt(#[trigger] s[j], x, y);
    assert(rim(d.tab(k).rc(), s[j]));
    lemma_around(d, k, s[j]);
    assert(off(d.tab(k).rc(), MARGIN() - 2, s[j]));
    assert forall|l: int| 0 <= l < d.tabs().len() implies off((#[trigger] d.tab(l)).rc(), MARGIN() - 2, s[j]) by { if l == k { } }
    assert(off_all(d, MARGIN() - 2, s[j]));
}
pub proof fn lemma_survive(d: Document, s: Seq<Point>, r: Seq<Point>)
    requires spaced(d), surviving(d, s, r),
    ensures forall|k: int| 0 <= k < d.tabs().len() && corners(d, s, k) ==> #[trigger] corners(d, r, k), forall|e: int| #[trigger] crossed_rel(d, s, e) ==> crossed_rel(d, r, e),
{
    assert forall|k: int| 0 <= k < d.tabs().len() && corners(d, s, k) implies #[trigger] corners(d, r, k) by {
        let t = d.tab(k).rc(); let m = MARGIN();
        assert(roomy_rect(t));
        lemma_rim(d, s, r, k, t.X0() - m, t.Y0() - m); lemma_rim(d, s, r, k, t.X1() + m, t.Y0() - m); lemma_rim(d, s, r, k, t.X1() + m, t.Y1() + m); lemma_rim(d, s, r, k, t.X0() - m, t.Y1() + m);
    }
    assert forall|p: TerminalPort| #[trigger] crossed(d, s, p) implies crossed(d, r, p) by {
        assert forall|k: int| #[trigger] side_of(d, k, p.location, p.orientation) implies holds(r, stub_x(d.tab(k).rc(), p.location, p.orientation), stub_y(d.tab(k).rc(), p.location, p.orientation)) by {
            assert(roomy_rect(d.tab(k).rc()));
            lemma_rim(d, s, r, k, stub_x(d.tab(k).rc(), p.location, p.orientation), stub_y(d.tab(k).rc(), p.location, p.orientation)); }
    }
    assert forall|e: int| #[trigger] crossed_rel(d, s, e) implies crossed_rel(d, r, e) by {
        assert forall|i: int| 0 <= i < n_ports(d, src(d, e)) implies crossed(d, r, #[trigger] port(d, src(d, e), i)) by { assert(crossed(d, s, port(d, src(d, e), i))); }
        assert forall|i: int| 0 <= i < n_ports(d, tgt(d, e)) implies crossed(d, r, #[trigger] port(d, tgt(d, e), i)) by { assert(crossed(d, s, port(d, tgt(d, e), i))); }
    }
}
/// Junctions only.
pub open spec fn plain(g: RouteGraph, d: Document) -> bool { g.uniq() && forall|i: int| 0 <= i < g.n() ==> (#[trigger] g.ori(i)).is_none() && off_all(d, MARGIN() - 2, g.loc(i)) }
pub open spec fn junctions_of(g: RouteGraph, s: Seq<Point>, n: int) -> bool { forall|j: int| 0 <= j < n ==> junction(g, (#[trigger] s[j]).X(), s[j].Y()) }
pub proof fn lemma_junction_grew(g: RouteGraph, h: RouteGraph, x: int, y: int)
    requires g.grew(h), junction(g, x, y),
    ensures junction(h, x, y),
{
    let i = choose|i: int| #[trigger] junction_at(g, x, y, i);
    assert(h.graph.ns@[i] == g.graph.ns@[i]);
    assert(junction_at(h, x, y, i));
}
pub proof fn lemma_add_junction(g: RouteGraph, h: RouteGraph, d: Document, s: Seq<Point>, n: int, r: int)
    requires plain(g, d), junctions_of(g, s, n), 0 <= n < s.len(), g.added(h, r, s[n], None), off_all(d, MARGIN() - 2, s[n]),
    ensures plain(h, d), junctions_of(h, s, n + 1),
{
    assert forall|i: int| 0 <= i < h.n() implies (#[trigger] h.ori(i)).is_none() && off_all(d, MARGIN() - 2, h.loc(i)) by {
        if i < g.n() { assert(h.graph.ns@[i] == g.graph.ns@[i]); assert(g.ori(i).is_none()); } else { assert(i == r); assert forall|k: int| 0 <= k < d.tabs().len() implies off((#[trigger] d.tab(k)).rc(), MARGIN() - 2, h.loc(i)) by { assert(off(d.tab(k).rc(), MARGIN() - 2, s[n])); } }
    }
    assert forall|j: int| 0 <= j < n + 1 implies junction(h, (#[trigger] s[j]).X(), s[j].Y()) by {
        if j < n { lemma_junction_grew(g, h, s[j].X(), s[j].Y()); } else { assert(h.ori(r).is_none()); assert(junction_at(h, s[n].X(), s[n].Y(), r)); }
    }
}
pub proof fn lemma_junctions_all(g: RouteGraph, d: Document, s: Seq<Point>)
    requires junctions_of(g, s, s.len() as int),
    ensures forall|x: int, y: int| #[trigger] holds(s, x, y) ==> junction(g, x, y),
{
    assert forall|x: int, y: int| #[trigger] holds(s, x, y) implies junction(g, x, y) by { let j = choose|j: int| 0 <= j < s.len() && at_pt(#[trigger] s[j], x, y); assert(junction(g, s[j].X(), s[j].Y())); }
}
/// Each port that has a node is where its node is.
pub open spec fn port_kept(g: RouteGraph, d: Document, z: NodeId, i: int) -> bool { g.port_at(port(d, z, i)) }
pub open spec fn ports_kept(g: RouteGraph, d: Document) -> bool { forall|z: NodeId, i: int| d.is_shape(z) && 0 <= i < n_ports(d, z) ==> #[trigger] port_kept(g, d, z, i) }
pub open spec fn known(g: RouteGraph, d: Document, z: NodeId, i: int) -> bool { g.terminal_ports@.contains_key(port(d, z, i).id) }
pub open spec fn known_upto(g: RouteGraph, d: Document, z: NodeId, m: int) -> bool { forall|i: int| 0 <= i < m ==> #[trigger] known(g, d, z, i) }
pub open spec fn known_rel(g: RouteGraph, d: Document, e: int) -> bool { known_upto(g, d, src(d, e), n_ports(d, src(d, e))) && known_upto(g, d, tgt(d, e), n_ports(d, tgt(d, e))) }
pub proof fn lemma_fitting(g: RouteGraph, d: Document, z: NodeId, i: int)
    requires all_good(d), nodes_fine(g, d), d.is_shape(z), 0 <= i < n_ports(d, z),
    ensures g.fitting(port(d, z, i).location, Some(port(d, z, i).orientation)), port(d, z, i).location.ok(),
{
    let p = port(d, z, i);
    assert(shape_good(d, z)); assert(port_good(d, z, i));
    let k = choose|k: int| #[trigger] side_of(d, k, p.location, p.orientation);
    assert(roomy_rect(d.tab(k).rc()));
    assert forall|n: int| 0 <= n < g.n() && same_pt(#[trigger] g.loc(n), p.location) implies g.ori(n) == Some(p.orientation) by {
        assert(node_fine(g, d, n));
        if g.ori(n).is_none() { assert(off(d.tab(k).rc(), MARGIN() - 2, g.loc(n))); }
        else { let w = g.ori(n).unwrap(); let l = choose|l: int| #[trigger] side_of(d, l, g.loc(n), w); lemma_same_side(d, k, l, p.location, g.loc(n), p.orientation, w); }
    }
}
pub proof fn lemma_add_port(g: RouteGraph, h: RouteGraph, d: Document, z: NodeId, i: int, r: RouteNodeId)
    requires all_good(d), nodes_fine(g, d), ports_kept(g, d), d.is_shape(z), 0 <= i < n_ports(d, z),
        g.added(h, r.0.i as int, port(d, z, i).location, Some(port(d, z, i).orientation)), h.terminal_ports@ == g.terminal_ports@.insert(port(d, z, i).id, r),
    ensures nodes_fine(h, d), ports_kept(h, d), known(h, d, z, i), g.grew(h),
        forall|y: NodeId, m: int| #[trigger] known_upto(g, d, y, m) ==> known_upto(h, d, y, m), forall|e: int| #[trigger] known_rel(g, d, e) ==> known_rel(h, d, e),
{
    let p = port(d, z, i); let rr = r.0.i as int;
    assert(shape_good(d, z)); assert(port_good(d, z, i));
    assert forall|n: int| 0 <= n < h.n() implies #[trigger] node_fine(h, d, n) by {
        if n < g.n() { assert(node_fine(g, d, n)); assert(h.graph.ns@[n] == g.graph.ns@[n]); }
        else { assert(n == rr); assert(h.loc(n).ok()); let k = choose|k: int| #[trigger] side_of(d, k, p.location, p.orientation); assert(side_of(d, k, h.loc(n), p.orientation)); assert(at_side(d, h.loc(n), p.orientation)); }
    }
    assert forall|y: NodeId, j: int| d.is_shape(y) && 0 <= j < n_ports(d, y) implies #[trigger] port_kept(h, d, y, j) by {
        assert(port_kept(g, d, y, j));
        assert(shape_good(d, y)); assert(port_good(d, y, j));
        if port(d, y, j).id == p.id { assert(y == z && j == i); }
        else if g.terminal_ports@.contains_key(port(d, y, j).id) { let n = g.terminal_ports@[port(d, y, j).id].0.i as int; assert(h.graph.ns@[n] == g.graph.ns@[n]); }
    }
    assert forall|y: NodeId, m: int| #[trigger] known_upto(g, d, y, m) implies known_upto(h, d, y, m) by { assert forall|j: int| 0 <= j < m implies #[trigger] known(h, d, y, j) by { assert(known(g, d, y, j)); } }
}
pub proof fn lemma_grew_grew(a: RouteGraph, b: RouteGraph, c: RouteGraph)
    requires a.grew(b), b.grew(c),
    ensures a.grew(c),
{
    assert forall|i: int| 0 <= i < a.n() implies #[trigger] c.graph.ns@[i] == a.graph.ns@[i] by { assert(b.graph.ns@[i] == a.graph.ns@[i]); }
}
pub proof fn lemma_plain_fine(g: RouteGraph, d: Document)
    requires plain(g, d),
    ensures nodes_fine(g, d),
{
    assert forall|i: int| 0 <= i < g.n() implies #[trigger] node_fine(g, d, i) by { assert(g.ori(i).is_none()); }
}
/// All is there before routes are sought.
pub open spec fn ready(g: RouteGraph, d: Document) -> bool {
    &&& net_fine(g, d) && ports_kept(g, d) && cornered(g, d) && net_axis(g)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] known_rel(g, d, e)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] stubbed_rel(g, d, e)
}
pub open spec fn stubbed_of(g: RouteGraph, d: Document, z: NodeId) -> bool { forall|i: int| 0 <= i < n_ports(d, z) ==> stubbed(g, d, (#[trigger] port(d, z, i)).location, port(d, z, i).orientation) }
pub open spec fn stubbed_rel(g: RouteGraph, d: Document, e: int) -> bool { stubbed_of(g, d, src(d, e)) && stubbed_of(g, d, tgt(d, e)) }
pub proof fn lemma_same_fine(g: RouteGraph, h: RouteGraph, d: Document)
    requires h.graph.ns == g.graph.ns, nodes_fine(g, d), h.uniq(),
    ensures nodes_fine(h, d),
{
    assert forall|i: int| 0 <= i < h.n() implies #[trigger] node_fine(h, d, i) by { assert(node_fine(g, d, i)); }
}
pub proof fn lemma_axis(g: RouteGraph, d: Document)
    requires net_sound(g, d),
    ensures net_axis(g),
{
    assert forall|e: int| 0 <= e < g.m() implies axis_parallel(g.loc((#[trigger] g.graph.ends@[e]).0.i as int), g.loc(g.graph.ends@[e].1.i as int)) by {
        assert(near_any(g, d, g.graph.ends@[e].0.i as int, g.graph.ends@[e].1.i as int));
        let o = choose|o: Orientation| #[trigger] nearest(g, d, g.graph.ends@[e].0.i as int, g.graph.ends@[e].1.i as int, o);
    }
}
/// f: junctions only; g: with the ports; h: with the connections.
pub proof fn lemma_ready(f: RouteGraph, g: RouteGraph, h: RouteGraph, d: Document, s: Seq<Point>)
    requires all_good(d), junctions_of(f, s, s.len() as int), f.grew(g), nodes_fine(g, d), ports_kept(g, d), h.graph.ns == g.graph.ns, h.terminal_ports == g.terminal_ports, h.uniq(), net_sound(h, d), net_complete(h, d),
        forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] corners(d, s, k), forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] crossed_rel(d, s, e),
        forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] known_rel(g, d, e),
    ensures ready(h, d),
{
    lemma_same_fine(g, h, d); lemma_axis(h, d);
    lemma_junctions_all(f, d, s);
    assert forall|x: int, y: int| #[trigger] holds(s, x, y) implies junction(h, x, y) by { lemma_junction_grew(f, g, x, y); let i = choose|i: int| #[trigger] junction_at(g, x, y, i); assert(junction_at(h, x, y, i)); }
    assert forall|z: NodeId, i: int| d.is_shape(z) && 0 <= i < n_ports(d, z) implies #[trigger] port_kept(h, d, z, i) by { assert(port_kept(g, d, z, i)); }
    assert(cornered(h, d)) by { assert forall|k: int| 0 <= k < d.tabs().len() implies junction(h, (#[trigger] d.tab(k)).rc().X0() - MARGIN(), d.tab(k).rc().Y0() - MARGIN()) && junction(h, d.tab(k).rc().X1() + MARGIN(), d.tab(k).rc().Y0() - MARGIN())
        && junction(h, d.tab(k).rc().X0() - MARGIN(), d.tab(k).rc().Y1() + MARGIN()) by { assert(corners(d, s, k)); } }
    assert forall|z: NodeId| #[trigger] crossed_upto(d, s, z, n_ports(d, z)) implies stubbed_of(h, d, z) by { assert forall|i: int| 0 <= i < n_ports(d, z) implies stubbed(h, d, (#[trigger] port(d, z, i)).location, port(d, z, i).orientation) by { assert(crossed(d, s, port(d, z, i))); } }
    assert forall|e: int| 0 <= e < d.n_rel() implies #[trigger] stubbed_rel(h, d, e) by { assert(crossed_rel(d, s, e)); }
    assert forall|e: int| 0 <= e < d.n_rel() implies #[trigger] known_rel(h, d, e) by { assert(known_rel(g, d, e));
        assert forall|i: int| 0 <= i < n_ports(d, src(d, e)) implies #[trigger] known(h, d, src(d, e), i) by { assert(known(g, d, src(d, e), i)); }
        assert forall|i: int| 0 <= i < n_ports(d, tgt(d, e)) implies #[trigger] known(h, d, tgt(d, e), i) by { assert(known(g, d, tgt(d, e), i)); } }
}
pub proof fn lemma_shape_registered(g: RouteGraph, d: Document, z: NodeId)
    requires ports_kept(g, d), d.is_shape(z), known_upto(g, d, z, n_ports(d, z)),
    ensures registered(g, d.nd(z)),
{
    assert forall|i: int| 0 <= i < d.nd(z).terminal_ports@.len() implies g.terminal_ports@.contains_key((#[trigger] d.nd(z).terminal_ports@[i]).id) && g.port_at(d.nd(z).terminal_ports@[i]) by { assert(known(g, d, z, i)); assert(port_kept(g, d, z, i)); }
}
pub proof fn lemma_stub_here(g: RouteGraph, d: Document, p: Point, q: Point, o: Orientation)
    requires stubbed(g, d, p, o), same_pt(p, q), p.ok(),
    ensures stubbed(g, d, q, o),
{
    assert forall|k: int| #[trigger] side_of(d, k, q, o) implies junction(g, stub_x(d.tab(k).rc(), q, o), stub_y(d.tab(k).rc(), q, o)) by { assert(side_of(d, k, p, o)); }
}
/// Every two ports of the ends of a relation are connected, and there are two.
pub proof fn lemma_reaches(g: RouteGraph, d: Document, e: int)
    requires all_good(d), ready(g, d), 0 <= e < d.n_rel(), g.n() <= usize::MAX,
    ensures registered(g, d.nd(src(d, e))), registered(g, d.nd(tgt(d, e))), reaches(g, d.nd(src(d, e)), d.nd(tgt(d, e))),
{
    let (z, y) = (src(d, e), tgt(d, e)); let (nz, ny) = (d.nd(z), d.nd(y));
    assert(d.rel(e).source_id == z);
    assert(known_rel(g, d, e)); assert(stubbed_rel(g, d, e)); assert(shape_good(d, z)); assert(shape_good(d, y));
    lemma_shape_registered(g, d, z); lemma_shape_registered(g, d, y);
    assert forall|i: int, j: int| #[trigger] pair(g, nz, ny, i, j) implies joined(g, port_node(g, nz, i), port_node(g, ny, j)) by {
        assert(port_good(d, z, i)); assert(port_good(d, y, j)); assert(port_kept(g, d, z, i)); assert(port_kept(g, d, y, j)); assert(known(g, d, z, i)); assert(known(g, d, y, j));
        let (p, q) = (port(d, z, i), port(d, y, j)); let (a, b) = (port_node(g, nz, i).i as int, port_node(g, ny, j).i as int);
        assert(g.loc(a).ok() && g.loc(b).ok());
        let k = choose|k: int| #[trigger] side_of(d, k, p.location, p.orientation); let l = choose|l: int| #[trigger] side_of(d, l, q.location, q.orientation);
        assert(side_of(d, k, g.loc(a), p.orientation)); assert(side_of(d, l, g.loc(b), q.orientation));
        assert(stubbed(g, d, port(d, z, i).location, p.orientation)); assert(stubbed(g, d, port(d, y, j).location, q.orientation));
        lemma_stub_here(g, d, p.location, g.loc(a), p.orientation); lemma_stub_here(g, d, q.location, g.loc(b), q.orientation);
        lemma_ports_joined(g, d, k, a, l, b);
    }
    let (i, j) = choose|i: int, j: int| #[trigger] two_ports(d, z, i, j);
    assert(port_kept(g, d, z, i)); assert(port_kept(g, d, z, j)); assert(known(g, d, z, i)); assert(known(g, d, z, j));
    assert(port_node(g, nz, i) != port_node(g, nz, j));
    assert(pair(g, nz, ny, i, 0) || pair(g, nz, ny, j, 0));
}
// ------------------------------------------------------------------ steps of draw_edge_path
pub open spec fn all_corners(d: Document, s: Seq<Point>) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] corners(d, s, k) }
pub open spec fn all_crossed(d: Document, s: Seq<Point>, n: int) -> bool { forall|e: int| 0 <= e < n ==> #[trigger] crossed_rel(d, s, e) }
pub open spec fn all_known(g: RouteGraph, d: Document, n: int) -> bool { forall|e: int| 0 <= e < n ==> #[trigger] known_rel(g, d, e) }
pub open spec fn all_found(g: RouteGraph, d: Document, ps: Seq<Vec<Point>>, n: int) -> bool { ps.len() >= n && forall|e: int| 0 <= e < n ==> #[trigger] found(g, d, ps, e) }
pub proof fn lemma_next_crossed(d: Document, s: Seq<Point>, e: int)
    requires all_crossed(d, s, e), crossed_upto(d, s, src(d, e), n_ports(d, src(d, e))), crossed_upto(d, s, tgt(d, e), n_ports(d, tgt(d, e))),
    ensures all_crossed(d, s, e + 1),
{ assert forall|i: int| 0 <= i < e + 1 implies #[trigger] crossed_rel(d, s, i) by { if i < e { } } }
pub proof fn lemma_next_known(g: RouteGraph, d: Document, e: int)
    requires all_known(g, d, e), known_upto(g, d, src(d, e), n_ports(d, src(d, e))), known_upto(g, d, tgt(d, e), n_ports(d, tgt(d, e))),
    ensures all_known(g, d, e + 1),
{ assert forall|i: int| 0 <= i < e + 1 implies #[trigger] known_rel(g, d, i) by { if i < e { } } }
pub proof fn lemma_next_found(g: RouteGraph, d: Document, p: Seq<Vec<Point>>, e: int, v: Vec<Point>)
    requires all_found(g, d, p, e), p.len() == e, routed(g, d.nd(src(d, e)), d.nd(tgt(d, e)), v@),
    ensures all_found(g, d, p.push(v), e + 1),
{ assert forall|i: int| 0 <= i < e + 1 implies #[trigger] found(g, d, p.push(v), i) by { if i < e { assert(found(g, d, p, i)); } } }
pub proof fn lemma_each_ok(s: Seq<Point>)
    requires all_ok(s),
    ensures forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).ok(),
{}
pub proof fn lemma_use_good(d: Document)
    requires all_good(d),
    ensures d.wf(), roomy(d), spaced(d),
{}
pub proof fn lemma_rel_shapes(d: Document, e: int)
    requires all_good(d), 0 <= e < d.n_rel(),
    ensures d.is_shape(src(d, e)), d.is_shape(tgt(d, e)), d.has(src(d, e)), d.has(tgt(d, e)), shape_good(d, src(d, e)), shape_good(d, tgt(d, e)),
{
    assert(d.rel(e).source_id == src(d, e)); assert(shape_good(d, src(d, e))); assert(shape_good(d, tgt(d, e)));
}
pub proof fn lemma_port_ok(d: Document, z: NodeId, i: int)
    requires shape_good(d, z), 0 <= i < n_ports(d, z),
    ensures port(d, z, i).location.ok(),
{ assert(port_good(d, z, i)); }
/// What one more port adds.
pub proof fn lemma_cross_step(d: Document, c: Seq<Point>, s: Seq<Point>, r: Seq<Point>, z: NodeId, i: int)
    requires all_good(d), all_ok(s), all_ok(r), all_corners(d, c),
        forall|j: int| 0 <= j < c.len() && seen(d, port(d, z, i), #[trigger] c[j]) ==> cross_of(port(d, z, i), c[j], r),
    ensures all_ok(s + r), crossed_upto(d, s, z, i) ==> crossed_upto(d, s + r, z, i + 1),
        forall|y: NodeId, m: int| #[trigger] crossed_upto(d, s, y, m) ==> crossed_upto(d, s + r, y, m), forall|n: int| #[trigger] all_crossed(d, s, n) ==> all_crossed(d, s + r, n),
{
    lemma_within_cat(s, r); lemma_crossed_within(d, s, s + r); lemma_crossed_within(d, r, s + r); lemma_crossed(d, port(d, z, i), c, r);
    assert forall|n: int| #[trigger] all_crossed(d, s, n) implies all_crossed(d, s + r, n) by { assert forall|e: int| 0 <= e < n implies #[trigger] crossed_rel(d, s + r, e) by { assert(crossed_rel(d, s, e)); } }
    if crossed_upto(d, s, z, i) { assert forall|j: int| 0 <= j < i + 1 implies crossed(d, s + r, #[trigger] port(d, z, j)) by { if j < i { assert(crossed(d, s, port(d, z, j))); } } }
}
pub open spec fn chained(q: Seq<&Point>, a: Seq<Point>, b: Seq<Point>) -> bool { q.len() == a.len() + b.len() && (forall|i: int| 0 <= i < a.len() ==> *#[trigger] q[i] == a[i]) && (forall|i: int| a.len() <= i < q.len() ==> *#[trigger] q[i] == b[i - a.len()]) }
/// The corners and crossings survive.
pub proof fn lemma_kept(d: Document, a: Seq<Point>, b: Seq<Point>, q: Seq<&Point>, r: Seq<Point>)
    requires all_good(d), kept_of(d, q, r), chained(q, a, b), forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] corners(d, a, k), forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] crossed_rel(d, b, e),
    ensures forall|k: int| 0 <= k < d.tabs().len() ==> #[trigger] corners(d, r, k), forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] crossed_rel(d, r, e),
{
    let s = a + b;
    assert forall|j: int| 0 <= j < s.len() && off_all(d, MARGIN() - 2, #[trigger] s[j]) implies holds(r, s[j].X(), s[j].Y()) by { assert(*q[j] == s[j]); }
    lemma_within_cat(a, b); lemma_crossed_within(d, b, s);
    lemma_survive(d, s, r);
    assert forall|k: int| 0 <= k < d.tabs().len() implies #[trigger] corners(d, r, k) by { assert(corners(d, a, k)); assert(corners(d, s, k)); }
    assert forall|e: int| 0 <= e < d.n_rel() implies #[trigger] crossed_rel(d, r, e) by { assert(crossed_rel(d, b, e)); }
}
pub proof fn lemma_kept_any(d: Document, a: Seq<Point>, b: Seq<Point>, r: Seq<Point>)
    requires all_good(d), all_corners(d, a), all_crossed(d, b, d.n_rel() as int), exists|q: Seq<&Point>| chained(q, a, b) && #[trigger] kept_of(d, q, r),
    ensures all_corners(d, r), all_crossed(d, r, d.n_rel() as int),
{
    let q = choose|q: Seq<&Point>| chained(q, a, b) && #[trigger] kept_of(d, q, r);
    lemma_kept(d, a, b, q, r);
}
pub proof fn lemma_ready_now(f: RouteGraph, g: RouteGraph, h: RouteGraph, d: Document, s: Seq<Point>)
    requires all_good(d), junctions_of(f, s, s.len() as int), f.grew(g), nodes_fine(g, d), ports_kept(g, d), h.graph.ns == g.graph.ns, h.terminal_ports == g.terminal_ports, h.uniq(), net_sound(h, d), net_complete(h, d),
        all_corners(d, s), all_crossed(d, s, d.n_rel() as int), all_known(g, d, d.n_rel() as int),
    ensures ready(h, d),
{ lemma_ready(f, g, h, d, s); }
pub proof fn lemma_plain_fits(g: RouteGraph, d: Document, p: Point)
    requires plain(g, d),
    ensures g.fitting(p, None), g.uniq(),
{ assert forall|i: int| 0 <= i < g.n() && same_pt(#[trigger] g.loc(i), p) implies g.ori(i).is_none() by {} }
pub proof fn lemma_plain_new(g: RouteGraph, d: Document)
    requires g.uniq(), g.n() == 0,
    ensures plain(g, d),
{}
pub proof fn lemma_no_ports(g: RouteGraph, d: Document)
    requires g.terminal_ports@ == Map::<TerminalPortId, RouteNodeId>::empty(),
    ensures ports_kept(g, d),
{ assert forall|z: NodeId, i: int| d.is_shape(z) && 0 <= i < n_ports(d, z) implies #[trigger] port_kept(g, d, z, i) by {} }
pub proof fn lemma_fine_uniq(g: RouteGraph, d: Document)
    requires nodes_fine(g, d), all_good(d),
    ensures g.uniq(), outside(g, d),
{ lemma_outside(g, d); }
/// What one more port's node adds.
pub open spec fn port_added(g: RouteGraph, h: RouteGraph, p: TerminalPort) -> bool { exists|r: RouteNodeId| #[trigger] g.added(h, r.0.i as int, p.location, Some(p.orientation)) && h.terminal_ports@ == g.terminal_ports@.insert(p.id, r) }
pub proof fn lemma_port_added(f: RouteGraph, g: RouteGraph, h: RouteGraph, d: Document, z: NodeId, i: int)
    requires all_good(d), nodes_fine(g, d), ports_kept(g, d), d.is_shape(z), 0 <= i < n_ports(d, z), f.grew(g), g.m() == 0, port_added(g, h, port(d, z, i)),
    ensures nodes_fine(h, d), ports_kept(h, d), f.grew(h), h.m() == 0, known_upto(g, d, z, i) ==> known_upto(h, d, z, i + 1),
        forall|y: NodeId, m: int| #[trigger] known_upto(g, d, y, m) ==> known_upto(h, d, y, m), forall|n: int| #[trigger] all_known(g, d, n) ==> all_known(h, d, n),
{
    let p = port(d, z, i);
    let r = choose|r: RouteNodeId| #[trigger] g.added(h, r.0.i as int, p.location, Some(p.orientation)) && h.terminal_ports@ == g.terminal_ports@.insert(p.id, r);
    lemma_add_port(g, h, d, z, i, r); lemma_grew_grew(f, g, h);
    assert forall|n: int| #[trigger] all_known(g, d, n) implies all_known(h, d, n) by { assert forall|e: int| 0 <= e < n implies #[trigger] known_rel(h, d, e) by { assert(known_rel(g, d, e)); } }
    if known_upto(g, d, z, i) { assert(known_upto(h, d, z, i)); }
}
/// Routes are all that changed.
pub open spec fn same_but_routes(a: Document, b: Document) -> bool {
    &&& b.graph.ns == a.graph.ns && b.graph.ends == a.graph.ends && b.body_id == a.body_id && b.n_rel() == a.n_rel()
    &&& forall|e: int| 0 <= e < a.n_rel() ==> (#[trigger] b.rel(e)).source_id == a.rel(e).source_id && b.rel(e).target_id == a.rel(e).target_id
}
pub open spec fn pts_of(d: Document, e: int) -> Seq<Point> { d.rel(e).path_points.unwrap()@ }
pub open spec fn has_route(d: Document, e: int) -> bool { d.rel(e).path_points.is_some() && pts_of(d, e).len() >= 2 }
pub open spec fn rel_ends_ok(d: Document, e: int) -> bool { ends_ok(d.nd(src(d, e)), d.nd(tgt(d, e)), pts_of(d, e)) }
pub open spec fn rel_sides_ok(d: Document, e: int) -> bool { axis_ok(pts_of(d, e)) && sides_ok(d.nd(src(d, e)), d.nd(tgt(d, e)), pts_of(d, e)) }
pub open spec fn rel_clear_ok(d: Document, e: int) -> bool { clear_ok(d, pts_of(d, e)) }
pub open spec fn rel_cheapest(g: RouteGraph, d: Document, e: int) -> bool { routed(g, d.nd(src(d, e)), d.nd(tgt(d, e)), pts_of(d, e)) }
pub open spec fn rel_onward(d: Document, e: int) -> bool { has_route(d, e) && onward_ok(pts_of(d, e)) }
/// After e relations have their routes.
pub open spec fn given(a: Document, b: Document, ps: Seq<Vec<Point>>, e: int) -> bool {
    &&& b.graph.ns == a.graph.ns && b.graph.ends == a.graph.ends && b.body_id == a.body_id && b.n_rel() == a.n_rel()
    &&& forall|i: int| 0 <= i < a.n_rel() ==> (#[trigger] b.rel(i)).source_id == a.rel(i).source_id && b.rel(i).target_id == a.rel(i).target_id
    &&& forall|i: int| 0 <= i < e ==> (#[trigger] b.rel(i)).path_points == Some(ps[i])
}
pub proof fn lemma_give(a: Document, b: Document, c: Document, ps: Seq<Vec<Point>>, i: int)
    requires given(a, b, ps, i), 0 <= i < a.n_rel(), c.graph.ns == b.graph.ns, c.graph.ends == b.graph.ends, c.body_id == b.body_id, c.n_rel() == b.n_rel(),
        c.graph.es@ =~= b.graph.es@.update(i, c.rel(i)), c.rel(i).source_id == b.rel(i).source_id, c.rel(i).target_id == b.rel(i).target_id, c.rel(i).path_points == Some(ps[i]),
    ensures given(a, c, ps, i + 1),
{
    assert forall|k: int| 0 <= k < a.n_rel() implies (#[trigger] c.rel(k)).source_id == a.rel(k).source_id && c.rel(k).target_id == a.rel(k).target_id by { if k != i { assert(c.rel(k) == b.rel(k)); } }
    assert forall|k: int| 0 <= k < i + 1 implies (#[trigger] c.rel(k)).path_points == Some(ps[k]) by { if k != i { assert(c.rel(k) == b.rel(k)); } }
}
pub open spec fn found(g: RouteGraph, d: Document, ps: Seq<Vec<Point>>, e: int) -> bool { routed(g, d.nd(src(d, e)), d.nd(tgt(d, e)), ps[e]@) }
pub proof fn lemma_drawn_rel(g: RouteGraph, a: Document, b: Document, ps: Seq<Vec<Point>>, e: int)
    requires all_good(a), ready(g, a), g.n() <= usize::MAX, given(a, b, ps, a.n_rel() as int), found(g, a, ps, e), 0 <= e < a.n_rel(),
    ensures rel_ends_ok(b, e), rel_sides_ok(b, e), rel_clear_ok(b, e), rel_cheapest(g, b, e), rel_onward(b, e),
{
    hide(routed); hide(ends_ok); hide(axis_ok); hide(sides_ok); hide(clear_ok); hide(onward_ok); hide(registered); hide(reaches); hide(all_good); hide(nodes_fine);
    assert(b.tabs() == a.tabs());
    assert(b.rel(e).path_points == Some(ps[e])); assert(b.rel(e).source_id == a.rel(e).source_id);
    lemma_reaches(g, a, e); lemma_use_good(a);
    lemma_route_ok(g, a, a.nd(src(a, e)), a.nd(tgt(a, e)), ps[e]@);
    assert(clear_ok(b, ps[e]@)) by { reveal(clear_ok); assert forall|l: int| 0 <= l < ps[e]@.len() - 1 implies clear(b, #[trigger] ps[e]@[l], ps[e]@[l + 1]) by { assert(clear(a, ps[e]@[l], ps[e]@[l + 1])); } }
    assert(ps[e]@.len() >= 2) by { reveal(ends_ok); let (i, j) = choose|i: int, j: int| #[trigger] from_to(a.nd(src(a, e)), a.nd(tgt(a, e)), ps[e]@, i, j); }
}
pub proof fn lemma_drawn(g: RouteGraph, a: Document, b: Document, ps: Seq<Vec<Point>>)
    requires all_good(a), ready(g, a), g.n() <= usize::MAX, given(a, b, ps, a.n_rel() as int), all_found(g, a, ps, a.n_rel() as int),
    ensures forall|e: int| 0 <= e < b.n_rel() ==> #[trigger] rel_ends_ok(b, e), forall|e: int| 0 <= e < b.n_rel() ==> #[trigger] rel_sides_ok(b, e), forall|e: int| 0 <= e < b.n_rel() ==> #[trigger] rel_clear_ok(b, e),
        forall|e: int| 0 <= e < b.n_rel() ==> #[trigger] rel_cheapest(g, b, e), forall|e: int| 0 <= e < b.n_rel() ==> #[trigger] rel_onward(b, e), same_but_routes(a, b), net_fine(g, a),
{
    hide(all_good); hide(found); hide(rel_ends_ok); hide(rel_sides_ok); hide(rel_clear_ok); hide(rel_cheapest); hide(rel_onward); hide(net_fine);
    assert(net_fine(g, a)) by { reveal(ready); }
    assert forall|e: int| 0 <= e < b.n_rel() implies #[trigger] rel_ends_ok(b, e) by { assert(found(g, a, ps, e)); lemma_drawn_rel(g, a, b, ps, e); }
    assert forall|e: int| 0 <= e < b.n_rel() implies #[trigger] rel_sides_ok(b, e) by { assert(found(g, a, ps, e)); lemma_drawn_rel(g, a, b, ps, e); }
    assert forall|e: int| 0 <= e < b.n_rel() implies #[trigger] rel_clear_ok(b, e) by { assert(found(g, a, ps, e)); lemma_drawn_rel(g, a, b, ps, e); }
    assert forall|e: int| 0 <= e < b.n_rel() implies #[trigger] rel_cheapest(g, b, e) by { assert(found(g, a, ps, e)); lemma_drawn_rel(g, a, b, ps, e); }
    assert forall|e: int| 0 <= e < b.n_rel() implies #[trigger] rel_onward(b, e) by { assert(found(g, a, ps, e)); lemma_drawn_rel(g, a, b, ps, e); }
}
