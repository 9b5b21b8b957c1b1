%file layout
%struct RouteCost derives=PartialOrd
%verbatim
impl vstd::std_specs::cmp::PartialOrdSpecImpl<RouteCost> for RouteCost { open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &RouteCost) -> Option<core::cmp::Ordering> { arbitrary() } }
// derive(PartialOrd): the field is compared
impl PartialOrd for RouteCost {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &RouteCost) -> (r: Option<core::cmp::Ordering>) { self.0.partial_cmp(&o.0) }
    fn lt(&self, o: &RouteCost) -> (r: bool) ensures r == (self.0 < o.0) { self.0 < o.0 }
    fn le(&self, o: &RouteCost) -> (r: bool) ensures r == (self.0 <= o.0) { self.0 <= o.0 }
    fn gt(&self, o: &RouteCost) -> (r: bool) ensures r == (self.0 > o.0) { self.0 > o.0 }
    fn ge(&self, o: &RouteCost) -> (r: bool) ensures r == (self.0 >= o.0) { self.0 >= o.0 }
}
// ------------------------------------------------------------------ walks in a graph
pub type Weight = spec_fn(NodeIndex, NodeIndex) -> int;
pub open spec fn hop<N, E>(g: VxGraph<N, E>, a: NodeIndex, b: NodeIndex) -> bool { exists|k: int| #[trigger] g.links(k, a, b) }
pub open spec fn walk<N, E>(g: VxGraph<N, E>, p: Seq<NodeIndex>) -> bool {
    &&& p.len() >= 1 && p[0].i < g.ns@.len()
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> hop(g, #[trigger] p[i], p[i + 1])
}
pub open spec fn joins<N, E>(g: VxGraph<N, E>, s: NodeIndex, t: NodeIndex, p: Seq<NodeIndex>) -> bool { walk(g, p) && p[0] == s && p[p.len() - 1] == t }
pub open spec fn total(w: Weight, p: Seq<NodeIndex>) -> int decreases p.len() { if p.len() <= 1 { 0 } else { total(w, p.drop_last()) + w(p[p.len() - 2], p[p.len() - 1]) } }
pub open spec fn no_repeat(p: Seq<NodeIndex>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }
// ------------------------------------------------------------------ petgraph::algo::astar with a zero estimate (trusted)
/// r is a cheapest walk from s to t, without repetition, and what it costs; or there is none.
pub open spec fn cheapest<N, E>(g: VxGraph<N, E>, w: Weight, s: NodeIndex, t: NodeIndex, r: Option<(RouteCost, Vec<NodeIndex>)>) -> bool {
    match r {
        None => forall|q: Seq<NodeIndex>| !#[trigger] joins(g, s, t, q),
        Some((c, p)) => joins(g, s, t, p@) && no_repeat(p@) && c.0 == total(w, p@) && forall|q: Seq<NodeIndex>| #[trigger] joins(g, s, t, q) ==> c.0 <= total(w, q),
    }
}
pub open spec fn edge_of<N, E>(g: VxGraph<N, E>, e: EdgeRef) -> bool { g.links(e.k.i as int, e.s, e.t) }
pub open spec fn weighs<N, E, C: Fn(EdgeRef) -> RouteCost>(g: VxGraph<N, E>, cost: C, w: Weight) -> bool { forall|e: EdgeRef, c: RouteCost| edge_of(g, e) && #[trigger] cost.ensures((e,), c) ==> c.0 == w(e.s, e.t) }
pub open spec fn aims<G: Fn(NodeIndex) -> bool>(goal: G, t: NodeIndex) -> bool { forall|n: NodeIndex, b: bool| #[trigger] goal.ensures((n,), b) ==> b == (n == t) }
pub open spec fn mark(w: Weight, t: NodeIndex) -> bool { true }
#[verifier::external_body]
pub fn astar<N, E, G: Fn(NodeIndex) -> bool, C: Fn(EdgeRef) -> RouteCost, H: Fn(NodeIndex) -> RouteCost>(g: &VxGraph<N, E>, s: NodeIndex, goal: G, cost: C, estimate: H) -> (r: Option<(RouteCost, Vec<NodeIndex>)>)
    requires g.gwf(), s.i < g.ns@.len(),
        forall|n: NodeIndex| n.i < g.ns@.len() ==> #[trigger] goal.requires((n,)),
        forall|n: NodeIndex| n.i < g.ns@.len() ==> #[trigger] estimate.requires((n,)),
        forall|e: EdgeRef| edge_of(*g, e) ==> #[trigger] cost.requires((e,)),
        forall|n: NodeIndex, c: RouteCost| #[trigger] estimate.ensures((n,), c) ==> c.0 == 0,
    ensures forall|w: Weight, t: NodeIndex| #[trigger] mark(w, t) && weighs(*g, cost, w) && aims(goal, t) ==> cheapest(*g, w, s, t, r),
{ unimplemented!() }
// ------------------------------------------------------------------ routes
/// Cost of a connection: its length in units, rounded down.
pub open spec fn leg(g: RouteGraph, a: NodeIndex, b: NodeIndex) -> int { far(g.loc(a.i as int), g.loc(b.i as int)) / 2 }
pub open spec fn legs(g: RouteGraph) -> Weight { |a: NodeIndex, b: NodeIndex| leg(g, a, b) }
/// Connections are horizontal or vertical.
pub open spec fn net_axis(g: RouteGraph) -> bool { forall|e: int| 0 <= e < g.m() ==> axis_parallel(g.loc((#[trigger] g.graph.ends@[e]).0.i as int), g.loc(g.graph.ends@[e].1.i as int)) }
/// Every port of z has its node.
pub open spec fn registered(g: RouteGraph, z: NodeData) -> bool { forall|i: int| 0 <= i < z.terminal_ports@.len() ==> g.terminal_ports@.contains_key((#[trigger] z.terminal_ports@[i]).id) && g.port_at(z.terminal_ports@[i]) }
pub open spec fn port_node(g: RouteGraph, z: NodeData, i: int) -> NodeIndex { g.terminal_ports@[z.terminal_ports@[i].id].0 }
pub open spec fn pair(g: RouteGraph, z: NodeData, y: NodeData, i: int, j: int) -> bool { 0 <= i < z.terminal_ports@.len() && 0 <= j < y.terminal_ports@.len() && port_node(g, z, i) != port_node(g, y, j) }
/// No cheaper way from any port of z to any other port of y.
pub open spec fn minimal(g: RouteGraph, z: NodeData, y: NodeData, c: int) -> bool {
    forall|i: int, j: int, q: Seq<NodeIndex>| pair(g, z, y, i, j) && #[trigger] joins(g.graph, port_node(g, z, i), port_node(g, y, j), q) ==> c <= total(legs(g), q)
}
pub open spec fn ends_at(g: RouteGraph, z: NodeData, y: NodeData, p: Seq<NodeIndex>) -> bool { exists|i: int, j: int| #[trigger] pair(g, z, y, i, j) && joins(g.graph, port_node(g, z, i), port_node(g, y, j), p) }
pub open spec fn route(g: RouteGraph, z: NodeData, y: NodeData, p: Seq<NodeIndex>) -> bool { ends_at(g, z, y, p) && no_repeat(p) && minimal(g, z, y, total(legs(g), p)) }
pub open spec fn places(g: RouteGraph, p: Seq<NodeIndex>, pts: Seq<Point>) -> bool { pts.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] pts[i] == g.loc(p[i].i as int) }
/// pts are the places along a cheapest route from a port of z to another port of y.
pub open spec fn routed(g: RouteGraph, z: NodeData, y: NodeData, pts: Seq<Point>) -> bool { exists|p: Seq<NodeIndex>| #[trigger] route(g, z, y, p) && places(g, p, pts) }
pub open spec fn CMAX() -> int { 4294967295 }
pub open spec fn joined(g: RouteGraph, a: NodeIndex, b: NodeIndex) -> bool { exists|q: Seq<NodeIndex>| #[trigger] joins(g.graph, a, b, q) && total(legs(g), q) < CMAX() }
/// There is a way from each port of z to each other port of y, and there are two different ports.
pub open spec fn reaches(g: RouteGraph, z: NodeData, y: NodeData) -> bool {
    &&& exists|i: int, j: int| #[trigger] pair(g, z, y, i, j)
    &&& forall|i: int, j: int| #[trigger] pair(g, z, y, i, j) ==> joined(g, port_node(g, z, i), port_node(g, y, j))
}
/// What the pairs before (i, j) come to.
pub open spec fn least(g: RouteGraph, z: NodeData, y: NodeData, i: int, j: int, c: RouteCost, p: Option<Vec<RouteNodeId>>) -> bool {
    &&& p.is_none() ==> c.0 == CMAX() && forall|k: int, l: int| #[trigger] pair(g, z, y, k, l) ==> !before(k, l, i, j)
    &&& p.is_some() ==> ends_at(g, z, y, bare(p.unwrap()@)) && no_repeat(bare(p.unwrap()@)) && c.0 == total(legs(g), bare(p.unwrap()@)) && least_of(g, z, y, i, j, c.0 as int)
}
pub open spec fn before(k: int, l: int, i: int, j: int) -> bool { k < i || k == i && l < j }
pub open spec fn least_of(g: RouteGraph, z: NodeData, y: NodeData, i: int, j: int, c: int) -> bool {
    forall|k: int, l: int, q: Seq<NodeIndex>| pair(g, z, y, k, l) && before(k, l, i, j) && #[trigger] joins(g.graph, port_node(g, z, k), port_node(g, y, l), q) ==> c <= total(legs(g), q)
}
pub open spec fn bare(p: Seq<RouteNodeId>) -> Seq<NodeIndex> { Seq::new(p.len(), |i: int| p[i].0) }
pub proof fn lemma_least_skip(g: RouteGraph, z: NodeData, y: NodeData, i: int, j: int, c: RouteCost, p: Option<Vec<RouteNodeId>>)
    requires least(g, z, y, i, j, c, p), !pair(g, z, y, i, j),
    ensures least(g, z, y, i, j + 1, c, p),
{
    assert forall|k: int, l: int| #[trigger] pair(g, z, y, k, l) && p.is_none() implies !before(k, l, i, j + 1) by { assert(!before(k, l, i, j)); }
    if p.is_some() {
        assert forall|k: int, l: int, q: Seq<NodeIndex>| pair(g, z, y, k, l) && before(k, l, i, j + 1) && #[trigger] joins(g.graph, port_node(g, z, k), port_node(g, y, l), q) implies c.0 <= total(legs(g), q) by { assert(before(k, l, i, j)); }
    }
}
pub proof fn lemma_least_row(g: RouteGraph, z: NodeData, y: NodeData, i: int, c: RouteCost, p: Option<Vec<RouteNodeId>>)
    requires least(g, z, y, i, y.terminal_ports@.len() as int, c, p),
    ensures least(g, z, y, i + 1, 0, c, p),
{
    assert forall|k: int, l: int| #[trigger] pair(g, z, y, k, l) && p.is_none() implies !before(k, l, i + 1, 0) by { assert(!before(k, l, i, y.terminal_ports@.len() as int)); }
    if p.is_some() {
        assert forall|k: int, l: int, q: Seq<NodeIndex>| pair(g, z, y, k, l) && before(k, l, i + 1, 0) && #[trigger] joins(g.graph, port_node(g, z, k), port_node(g, y, l), q) implies c.0 <= total(legs(g), q) by { assert(before(k, l, i, y.terminal_ports@.len() as int)); }
    }
}
/// One more pair: the cheaper one is kept.
pub proof fn lemma_least_step(g: RouteGraph, z: NodeData, y: NodeData, i: int, j: int, c0: RouteCost, p0: Option<Vec<RouteNodeId>>, c: RouteCost, p: Vec<RouteNodeId>, c1: RouteCost, p1: Option<Vec<RouteNodeId>>)
    requires least(g, z, y, i, j, c0, p0), pair(g, z, y, i, j), joins(g.graph, port_node(g, z, i), port_node(g, y, j), bare(p@)), no_repeat(bare(p@)), c.0 == total(legs(g), bare(p@)),
        forall|q: Seq<NodeIndex>| #[trigger] joins(g.graph, port_node(g, z, i), port_node(g, y, j), q) ==> c.0 <= total(legs(g), q),
        c.0 < CMAX(), c.0 < c0.0 ==> c1 == c && p1 == Some(p), c.0 >= c0.0 ==> c1 == c0 && p1 == p0,
    ensures least(g, z, y, i, j + 1, c1, p1),
{
    if c.0 < c0.0 { assert(ends_at(g, z, y, bare(p@))); }
    assert(p1.is_some());
    assert forall|k: int, l: int, q: Seq<NodeIndex>| pair(g, z, y, k, l) && before(k, l, i, j + 1) && #[trigger] joins(g.graph, port_node(g, z, k), port_node(g, y, l), q) implies c1.0 <= total(legs(g), q) by {
        if k == i && l == j { } else { assert(before(k, l, i, j)); if p0.is_none() { assert(pair(g, z, y, k, l)); } }
    }
}
pub proof fn lemma_least_end(g: RouteGraph, z: NodeData, y: NodeData, c: RouteCost, p: Option<Vec<RouteNodeId>>)
    requires least(g, z, y, z.terminal_ports@.len() as int, 0, c, p), reaches(g, z, y),
    ensures p.is_some(), route(g, z, y, bare(p.unwrap()@)),
{
    let n = z.terminal_ports@.len() as int;
    let (i, j) = choose|i: int, j: int| #[trigger] pair(g, z, y, i, j);
    assert(before(i, j, n, 0));
    assert forall|k: int, l: int, q: Seq<NodeIndex>| pair(g, z, y, k, l) && #[trigger] joins(g.graph, port_node(g, z, k), port_node(g, y, l), q) implies c.0 <= total(legs(g), q) by { assert(before(k, l, n, 0)); }
}
pub open spec fn places_ok(g: RouteGraph, p: Seq<RouteNodeId>) -> bool { forall|i: int| 0 <= i < p.len() ==> g.has(#[trigger] p[i]) }
pub proof fn lemma_walk_in<N, E>(g: VxGraph<N, E>, p: Seq<NodeIndex>)
    requires g.gwf(), walk(g, p),
    ensures forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).i < g.ns@.len(),
{
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).i < g.ns@.len() by { if i > 0 { assert(hop(g, p[i - 1], p[i - 1 + 1])); } }
}
pub proof fn lemma_route_in(g: RouteGraph, z: NodeData, y: NodeData, p: Seq<RouteNodeId>)
    requires g.graph.gwf(), route(g, z, y, bare(p)),
    ensures places_ok(g, p),
{
    lemma_walk_in(g.graph, bare(p));
    assert forall|i: int| 0 <= i < p.len() implies g.has(#[trigger] p[i]) by { assert(bare(p)[i] == p[i].0); }
}
