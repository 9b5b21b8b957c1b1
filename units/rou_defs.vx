%verbatim
// ------------------------------------------------------------------ what the properties say about routes
pub open spec fn from_to(z: NodeData, y: NodeData, pts: Seq<Point>, i: int, j: int) -> bool {
    &&& pts.len() >= 2 && 0 <= i < z.terminal_ports@.len() && 0 <= j < y.terminal_ports@.len()
    &&& same_pt(pts[0], z.terminal_ports@[i].location) && same_pt(pts[pts.len() - 1], y.terminal_ports@[j].location)
}
/// C06: from a port of z to a port of y.
pub open spec fn ends_ok(z: NodeData, y: NodeData, pts: Seq<Point>) -> bool { exists|i: int, j: int| #[trigger] from_to(z, y, pts, i, j) }
/// C07: horizontal and vertical segments of positive length, out of the first port and into the last one.
pub open spec fn axis_ok(pts: Seq<Point>) -> bool { forall|l: int| 0 <= l < pts.len() - 1 ==> axis_parallel(#[trigger] pts[l], pts[l + 1]) && !same_pt(pts[l], pts[l + 1]) }
pub open spec fn out_in(z: NodeData, y: NodeData, pts: Seq<Point>, i: int, j: int) -> bool {
    from_to(z, y, pts, i, j) && toward(pts[0], pts[1], z.terminal_ports@[i].orientation) && toward(pts[pts.len() - 1], pts[pts.len() - 2], y.terminal_ports@[j].orientation)
}
pub open spec fn sides_ok(z: NodeData, y: NodeData, pts: Seq<Point>) -> bool { exists|i: int, j: int| #[trigger] out_in(z, y, pts, i, j) }
/// C08
pub open spec fn clear_ok(d: Document, pts: Seq<Point>) -> bool { forall|l: int| 0 <= l < pts.len() - 1 ==> clear(d, #[trigger] pts[l], pts[l + 1]) }
/// C10: never back on itself.
pub open spec fn back(a: Point, b: Point, c: Point) -> bool { exists|o: Orientation| #[trigger] toward(a, b, o) && toward(b, c, opp(o)) }
pub open spec fn onward_ok(pts: Seq<Point>) -> bool { forall|l: int| 0 <= l < pts.len() - 2 ==> !back(#[trigger] pts[l], pts[l + 1], pts[l + 2]) }
pub open spec fn nears(g: RouteGraph, d: Document, a: int, b: int) -> bool { let o = way_of(g.loc(a), g.loc(b)); joinable(g, d, a, b, o) && (nearest(g, d, a, b, o) || nearest(g, d, b, a, opp(o))) }
/// A connection in either direction.
pub proof fn lemma_hop(g: RouteGraph, d: Document, u: NodeIndex, v: NodeIndex)
    requires net_sound(g, d), hop(g.graph, u, v),
    ensures nears(g, d, u.i as int, v.i as int),
{
    let k = choose|k: int| #[trigger] g.graph.links(k, u, v);
    let (a, b) = (g.graph.ends@[k].0.i as int, g.graph.ends@[k].1.i as int);
    assert(near_any(g, d, a, b));
    let o = choose|o: Orientation| #[trigger] nearest(g, d, a, b, o);
    assert(opp(opp(o)) == o);
    assert(joinable(g, d, b, a, opp(o))) by { assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), g.loc(b), g.loc(a)) by { assert(!hits(d.tab(l).rc(), g.loc(a), g.loc(b))); } }
    assert(way_of(g.loc(a), g.loc(b)) == o && way_of(g.loc(b), g.loc(a)) == opp(o));
}
/// From one node no two connections lead in the same direction.
pub proof fn lemma_one_per_way(g: RouteGraph, d: Document, x: int, u: int, w: int)
    requires spaced(d), net_fine(g, d), nears(g, d, x, u), nears(g, d, x, w), u != w, way_of(g.loc(x), g.loc(u)) == way_of(g.loc(x), g.loc(w)),
    ensures false,
{
    let (px, pu, pw) = (g.loc(x), g.loc(u), g.loc(w));
    assert(!same_pt(pu, pw)) by { if u < w { assert(!same_pt(g.loc(u), g.loc(w))); } else { assert(!same_pt(g.loc(w), g.loc(u))); } }
    if far(px, pu) < far(px, pw) { lemma_first_only(g, d, x, u, w); } else { lemma_first_only(g, d, x, w, u); }
}
pub proof fn lemma_first_only(g: RouteGraph, d: Document, x: int, u: int, w: int)
    requires spaced(d), net_fine(g, d), nears(g, d, x, u), nears(g, d, x, w), way_of(g.loc(x), g.loc(u)) == way_of(g.loc(x), g.loc(w)), far(g.loc(x), g.loc(u)) < far(g.loc(x), g.loc(w)),
    ensures false,
{
    let (px, pu, pw) = (g.loc(x), g.loc(u), g.loc(w)); let o = way_of(px, pu);
    assert(opp(opp(o)) == o);
    assert(nearest(g, d, w, x, opp(o)));
    assert(node_fine(g, d, u));
    assert(betw(px, pw, pu));
    if g.ori(u).is_none() {
        assert(clear(d, pw, pu)) by { assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), pw, pu) by { assert(!hits(d.tab(l).rc(), px, pw)); } }
        assert(joinable(g, d, w, u, opp(o)));
        assert(far(pw, px) <= far(pw, pu));
        assert(false);
    } else {
        let k = choose|k: int| #[trigger] side_of(d, k, pu, g.ori(u).unwrap());
        let t = d.tab(k).rc();
        assert(roomy_rect(t));
        assert(g.ori(u) == Some(opp(o)));
        lemma_outside(g, d);
        assert(!(t.X0() < g.loc(w).X() < t.X1() && t.Y0() < g.loc(w).Y() < t.Y1()));
        assert(!hits(d.tab(k).rc(), px, pw));
        assert(false);
    }
}
pub proof fn lemma_turn(g: RouteGraph, d: Document, a: int, b: int)
    requires nears(g, d, a, b),
    ensures nears(g, d, b, a), way_of(g.loc(b), g.loc(a)) == opp(way_of(g.loc(a), g.loc(b))),
{
    let o = way_of(g.loc(a), g.loc(b));
    assert(opp(opp(o)) == o);
    assert(joinable(g, d, b, a, opp(o))) by { assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), g.loc(b), g.loc(a)) by { assert(!hits(d.tab(l).rc(), g.loc(a), g.loc(b))); } }
}
pub proof fn lemma_step_facts(g: RouteGraph, d: Document, a: int, b: int)
    requires nears(g, d, a, b),
    ensures axis_parallel(g.loc(a), g.loc(b)), !same_pt(g.loc(a), g.loc(b)), clear(d, g.loc(a), g.loc(b)),
        forall|o: Orientation| g.ori(a) == Some(o) ==> #[trigger] toward(g.loc(a), g.loc(b), o),
        forall|o: Orientation| g.ori(b) == Some(o) ==> #[trigger] toward(g.loc(b), g.loc(a), o),
{
    let o = way_of(g.loc(a), g.loc(b));
    assert(toward(g.loc(a), g.loc(b), o) && toward(g.loc(b), g.loc(a), opp(o)));
}
pub proof fn lemma_no_back(g: RouteGraph, d: Document, u: int, x: int, w: int)
    requires spaced(d), net_fine(g, d), nears(g, d, u, x), nears(g, d, x, w), u != w,
    ensures !back(g.loc(u), g.loc(x), g.loc(w)),
{
    if back(g.loc(u), g.loc(x), g.loc(w)) {
        let o = choose|o: Orientation| #[trigger] toward(g.loc(u), g.loc(x), o) && toward(g.loc(x), g.loc(w), opp(o));
        lemma_turn(g, d, u, x);
        assert(way_of(g.loc(u), g.loc(x)) == o && way_of(g.loc(x), g.loc(w)) == opp(o));
        lemma_one_per_way(g, d, x, u, w);
    }
}
pub open spec fn pos(p: Seq<NodeIndex>, l: int) -> int { p[l].i as int }
pub open spec fn nearing(g: RouteGraph, d: Document, p: Seq<NodeIndex>, l: int) -> bool { nears(g, d, pos(p, l), pos(p, l + 1)) }
pub proof fn lemma_nearing(g: RouteGraph, d: Document, p: Seq<NodeIndex>)
    requires net_sound(g, d), walk(g.graph, p),
    ensures forall|l: int| 0 <= l < p.len() - 1 ==> #[trigger] nearing(g, d, p, l),
{
    assert forall|l: int| 0 <= l < p.len() - 1 implies #[trigger] nearing(g, d, p, l) by { assert(hop(g.graph, p[l], p[l + 1])); lemma_hop(g, d, p[l], p[l + 1]); }
}
/// Along a walk.
pub proof fn lemma_walk_ok(g: RouteGraph, d: Document, p: Seq<NodeIndex>, pts: Seq<Point>)
    requires spaced(d), net_fine(g, d), walk(g.graph, p), no_repeat(p), places(g, p, pts),
    ensures axis_ok(pts), clear_ok(d, pts), onward_ok(pts),
{
    hide(spaced); hide(nodes_fine); hide(net_sound); hide(net_complete); hide(nears); hide(clear); hide(back); hide(walk);
    lemma_nearing(g, d, p);
    assert forall|l: int| 0 <= l < pts.len() - 1 implies axis_parallel(#[trigger] pts[l], pts[l + 1]) && !same_pt(pts[l], pts[l + 1]) && clear(d, pts[l], pts[l + 1]) by {
        assert(nearing(g, d, p, l)); assert(pts[l + 1] == g.loc(pos(p, l + 1))); lemma_step_facts(g, d, pos(p, l), pos(p, l + 1)); }
    assert forall|l: int| 0 <= l < pts.len() - 2 implies !back(#[trigger] pts[l], pts[l + 1], pts[l + 2]) by {
        assert(nearing(g, d, p, l) && nearing(g, d, p, l + 1)); assert(p[l] != p[l + 2]); assert(pts[l + 1] == g.loc(pos(p, l + 1)) && pts[l + 2] == g.loc(pos(p, l + 2)));
        lemma_no_back(g, d, pos(p, l), pos(p, l + 1), pos(p, l + 2)); }
}
/// A walk in the network from a port to another port is a proper route.
pub proof fn lemma_route_ok(g: RouteGraph, d: Document, z: NodeData, y: NodeData, pts: Seq<Point>)
    requires spaced(d), net_fine(g, d), registered(g, z), registered(g, y), routed(g, z, y, pts),
    ensures ends_ok(z, y, pts), axis_ok(pts), sides_ok(z, y, pts), clear_ok(d, pts), onward_ok(pts),
{
    hide(spaced); hide(nodes_fine); hide(net_sound); hide(net_complete); hide(nears); hide(clear); hide(back); hide(minimal); hide(axis_ok); hide(clear_ok); hide(onward_ok); hide(walk); hide(no_repeat); hide(toward);
    let p = choose|p: Seq<NodeIndex>| #[trigger] route(g, z, y, p) && places(g, p, pts);
    let (i, j) = choose|i: int, j: int| #[trigger] pair(g, z, y, i, j) && joins(g.graph, port_node(g, z, i), port_node(g, y, j), p);
    assert(g.terminal_ports@.contains_key(z.terminal_ports@[i].id) && g.port_at(z.terminal_ports@[i]));
    assert(g.terminal_ports@.contains_key(y.terminal_ports@[j].id) && g.port_at(y.terminal_ports@[j]));
    let n = p.len() as int; let m = n - 1;
    assert(n >= 2) by { reveal(walk); }
    assert(pts[0] == g.loc(pos(p, 0)) && pts[m] == g.loc(pos(p, m)));
    assert(pts[1] == g.loc(pos(p, 1)) && pts[m - 1] == g.loc(pos(p, m - 1)));
    assert(from_to(z, y, pts, i, j));
    lemma_nearing(g, d, p);
    assert(nearing(g, d, p, 0) && nearing(g, d, p, m - 1));
    lemma_step_facts(g, d, pos(p, 0), pos(p, 1)); lemma_step_facts(g, d, pos(p, m - 1), pos(p, m));
    assert(out_in(z, y, pts, i, j));
    lemma_walk_ok(g, d, p, pts);
}
