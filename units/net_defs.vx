%verbatim
// ------------------------------------------------------------------ the route network
/// b lies straight in direction o from a.
pub open spec fn toward(a: Point, b: Point, o: Orientation) -> bool {
    match o { Orientation::Up => b.X() == a.X() && b.Y() < a.Y(), Orientation::Down => b.X() == a.X() && b.Y() > a.Y(), Orientation::Left => b.Y() == a.Y() && b.X() < a.X(), Orientation::Right => b.Y() == a.Y() && b.X() > a.X() }
}
pub open spec fn opp(o: Orientation) -> Orientation { match o { Orientation::Up => Orientation::Down, Orientation::Down => Orientation::Up, Orientation::Left => Orientation::Right, Orientation::Right => Orientation::Left } }
pub open spec fn iabs(x: int) -> int { if x >= 0 { x } else { -x } }
/// Distance along the axes, in halves.
pub open spec fn far(a: Point, b: Point) -> int { iabs(a.X() - b.X()) + iabs(a.Y() - b.Y()) }
/// The segment comes more than one unit into the table.
pub open spec fn hits(t: Rect, a: Point, b: Point) -> bool {
    imax(a.X(), b.X()) >= t.X0() + 2 && imin(a.X(), b.X()) <= t.X1() - 2 && imax(a.Y(), b.Y()) >= t.Y0() + 2 && imin(a.Y(), b.Y()) <= t.Y1() - 2
}
pub open spec fn clear(d: Document, a: Point, b: Point) -> bool { forall|k: int| 0 <= k < d.tabs().len() ==> !hits((#[trigger] d.tab(k)).rc(), a, b) }
pub open spec fn connectable(g: RouteGraph, i: int, o: Orientation) -> bool { g.ori(i).is_none() || g.ori(i) == Some(o) }
/// a may be joined to b in direction o.
pub open spec fn joinable(g: RouteGraph, d: Document, a: int, b: int, o: Orientation) -> bool {
    &&& 0 <= a < g.n() && 0 <= b < g.n() && toward(g.loc(a), g.loc(b), o)
    &&& connectable(g, a, o) && connectable(g, b, opp(o)) && clear(d, g.loc(a), g.loc(b))
}
pub open spec fn nearest(g: RouteGraph, d: Document, a: int, b: int, o: Orientation) -> bool {
    joinable(g, d, a, b, o) && forall|c: int| #[trigger] joinable(g, d, a, c, o) ==> far(g.loc(a), g.loc(b)) <= far(g.loc(a), g.loc(c))
}
pub open spec fn linked(g: RouteGraph, a: int, b: int) -> bool { 0 <= a < g.n() && 0 <= b < g.n() && exists|k: int| #[trigger] g.graph.links(k, NodeIndex { i: a as usize }, NodeIndex { i: b as usize }) }
/// No node is inside a table.
pub open spec fn outside(g: RouteGraph, d: Document) -> bool {
    forall|i: int, k: int| 0 <= i < g.n() && 0 <= k < d.tabs().len() ==> !(d.tab(k).rc().X0() < (#[trigger] g.loc(i)).X() < d.tab(k).rc().X1() && (#[trigger] d.tab(k)).rc().Y0() < g.loc(i).Y() < d.tab(k).rc().Y1())
}
pub open spec fn near_any(g: RouteGraph, d: Document, a: int, b: int) -> bool { exists|o: Orientation| #[trigger] nearest(g, d, a, b, o) }
/// Every connection joins a node to its nearest one in some direction.
pub open spec fn net_sound(g: RouteGraph, d: Document) -> bool {
    forall|e: int| 0 <= e < g.m() ==> near_any(g, d, (#[trigger] g.graph.ends@[e]).0.i as int, g.graph.ends@[e].1.i as int)
}
pub open spec fn has_nearest(g: RouteGraph, d: Document, a: int, o: Orientation) -> bool { exists|b: int| #[trigger] nearest(g, d, a, b, o) && linked(g, a, b) }
/// Every node is connected to a nearest one in each direction that has any.
pub open spec fn net_complete(g: RouteGraph, d: Document) -> bool {
    forall|a: int, c: int, o: Orientation| #[trigger] joinable(g, d, a, c, o) ==> has_nearest(g, d, a, o)
}
/// w is the nearest of the first i nodes that a may be joined to in direction o.
pub open spec fn best(g: RouteGraph, d: Document, a: int, i: int, o: Orientation, w: Option<(RouteNodeId, &RouteNodeData)>) -> bool {
    match w {
        None => forall|c: int| c < i ==> !#[trigger] joinable(g, d, a, c, o),
        Some((b, m)) => joinable(g, d, a, b.0.i as int, o) && b.0.i < i && *m == g.graph.ns@[b.0.i as int] && forall|c: int| c < i && #[trigger] joinable(g, d, a, c, o) ==> far(g.loc(a), g.loc(b.0.i as int)) <= far(g.loc(a), g.loc(c)),
    }
}
pub open spec fn closer(g: RouteGraph, a: int, i: int, w: Option<(RouteNodeId, &RouteNodeData)>) -> bool { w.is_none() || far(g.loc(a), g.loc(w.unwrap().0.0.i as int)) > far(g.loc(a), g.loc(i)) }
pub proof fn lemma_best(g: RouteGraph, d: Document, a: int, i: int, o: Orientation, w0: Option<(RouteNodeId, &RouteNodeData)>, w1: Option<(RouteNodeId, &RouteNodeData)>)
    requires best(g, d, a, i, o, w0),
        joinable(g, d, a, i, o) && closer(g, a, i, w0) ==> w1.is_some() && w1.unwrap().0.0.i == i && *w1.unwrap().1 == g.graph.ns@[i],
        !(joinable(g, d, a, i, o) && closer(g, a, i, w0)) ==> w1 == w0,
    ensures best(g, d, a, i + 1, o, w1),
{
    assert forall|c: int| c < i + 1 && #[trigger] joinable(g, d, a, c, o) implies w1.is_some() && far(g.loc(a), g.loc(w1.unwrap().0.0.i as int)) <= far(g.loc(a), g.loc(c)) by { if c < i { assert(joinable(g, d, a, c, o)); } }
}
/// What the collected pairs must be: of every node done, the nearest one in each direction.
pub open spec fn pairs_sound(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> near_any(g, d, (#[trigger] s[j]).0.0.i as int, s[j].1.0.i as int)
}
pub open spec fn pair_for(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>, a: int, o: Orientation) -> bool {
    exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == a && nearest(g, d, a, s[j].1.0.i as int, o)
}
pub open spec fn pairs_complete(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>, n: int) -> bool {
    forall|a: int, c: int, o: Orientation| a < n && #[trigger] joinable(g, d, a, c, o) ==> pair_for(g, d, s, a, o)
}
/// Same places, so the same connections are possible.
pub proof fn lemma_same_nodes(g: RouteGraph, h: RouteGraph, d: Document)
    requires h.graph.ns == g.graph.ns,
    ensures forall|a: int, b: int, o: Orientation| #[trigger] joinable(h, d, a, b, o) == joinable(g, d, a, b, o),
        forall|a: int, b: int, o: Orientation| #[trigger] nearest(h, d, a, b, o) == nearest(g, d, a, b, o),
        h.graph.gwf() && g.uniq() ==> h.uniq(), outside(g, d) ==> outside(h, d),
{
    assert forall|a: int, b: int, o: Orientation| #[trigger] nearest(h, d, a, b, o) == nearest(g, d, a, b, o) by {
        assert(joinable(h, d, a, b, o) == joinable(g, d, a, b, o));
        if nearest(g, d, a, b, o) { assert forall|c: int| #[trigger] joinable(h, d, a, c, o) implies far(h.loc(a), h.loc(b)) <= far(h.loc(a), h.loc(c)) by { assert(joinable(g, d, a, c, o)); } }
        if nearest(h, d, a, b, o) { assert forall|c: int| #[trigger] joinable(g, d, a, c, o) implies far(g.loc(a), g.loc(b)) <= far(g.loc(a), g.loc(c)) by { assert(joinable(h, d, a, c, o)); } }
    }
    assert forall|i: int| 0 <= i < h.n() && g.uniq() implies (#[trigger] h.loc(i)).ok() by { assert(g.loc(i).ok()); }
    assert forall|i: int, j: int| 0 <= i < j < h.n() && g.uniq() implies !same_pt(#[trigger] h.loc(i), #[trigger] h.loc(j)) by { assert(!same_pt(g.loc(i), g.loc(j))); }
    assert forall|i: int, k: int| 0 <= i < h.n() && 0 <= k < d.tabs().len() && outside(g, d) implies !(d.tab(k).rc().X0() < (#[trigger] h.loc(i)).X() < d.tab(k).rc().X1() && (#[trigger] d.tab(k)).rc().Y0() < h.loc(i).Y() < d.tab(k).rc().Y1()) by { assert(g.loc(i) == h.loc(i)); }
}
/// One more node is done.
pub proof fn lemma_pairs(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>, t: Seq<(RouteNodeId, RouteNodeId)>, a: int)
    requires pairs_complete(g, d, s, a), s.len() <= t.len(), forall|j: int| 0 <= j < s.len() ==> s[j] == #[trigger] t[j],
        forall|c: int, o: Orientation| #[trigger] joinable(g, d, a, c, o) ==> pair_for(g, d, t, a, o),
    ensures pairs_complete(g, d, t, a + 1),
{
    assert forall|b: int, c: int, o: Orientation| b < a + 1 && #[trigger] joinable(g, d, b, c, o) implies pair_for(g, d, t, b, o) by {
        if b < a { assert(pair_for(g, d, s, b, o)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == b && nearest(g, d, b, s[j].1.0.i as int, o); assert(t[j] == s[j]); }
    }
}
/// The connections are those of the first n pairs.
pub open spec fn of_pair(h: RouteGraph, e: int, p: (RouteNodeId, RouteNodeId)) -> bool { p.0.0 == h.graph.ends@[e].0 && p.1.0 == h.graph.ends@[e].1 }
pub open spec fn pair_linked(h: RouteGraph, p: (RouteNodeId, RouteNodeId)) -> bool { exists|k: int| #[trigger] h.graph.links(k, p.0.0, p.1.0) }
pub open spec fn from_pairs(h: RouteGraph, s: Seq<(RouteNodeId, RouteNodeId)>, n: int, e: int) -> bool { exists|j: int| 0 <= j < n && of_pair(h, e, #[trigger] s[j]) }
pub open spec fn edges_of(h: RouteGraph, s: Seq<(RouteNodeId, RouteNodeId)>, n: int) -> bool {
    &&& forall|e: int| 0 <= e < h.m() ==> #[trigger] from_pairs(h, s, n, e)
    &&& forall|j: int| 0 <= j < n ==> pair_linked(h, #[trigger] s[j])
}
pub proof fn lemma_edges_of(g: RouteGraph, h: RouteGraph, s: Seq<(RouteNodeId, RouteNodeId)>, n: int)
    requires edges_of(g, s, n), 0 <= n < s.len(), pair_linked(h, s[n]), g.m() <= h.m(),
        forall|k: int| 0 <= k < g.m() ==> #[trigger] h.graph.ends@[k] == g.graph.ends@[k],
        forall|k: int| g.m() <= k < h.m() ==> #[trigger] h.graph.ends@[k] == (s[n].0.0, s[n].1.0),
    ensures edges_of(h, s, n + 1),
{
    assert forall|e: int| 0 <= e < h.m() implies #[trigger] from_pairs(h, s, n + 1, e) by {
        if e < g.m() { assert(from_pairs(g, s, n, e)); let j = choose|j: int| 0 <= j < n && of_pair(g, e, #[trigger] s[j]); assert(h.graph.ends@[e] == g.graph.ends@[e]); assert(of_pair(h, e, s[j])); }
        else { assert(h.graph.ends@[e] == (s[n].0.0, s[n].1.0)); assert(of_pair(h, e, s[n])); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies pair_linked(h, #[trigger] s[j]) by {
        if j < n { assert(pair_linked(g, s[j])); let k = choose|k: int| #[trigger] g.graph.links(k, s[j].0.0, s[j].1.0); assert(h.graph.ends@[k] == g.graph.ends@[k]); assert(h.graph.links(k, s[j].0.0, s[j].1.0)); }
    }
}
/// All nodes were looked at.
pub proof fn lemma_best_all(g: RouteGraph, d: Document, a: int, o: Orientation, w: Option<(RouteNodeId, &RouteNodeData)>)
    requires best(g, d, a, g.n(), o, w),
    ensures w.is_none() ==> forall|c: int| !#[trigger] joinable(g, d, a, c, o), w.is_some() ==> nearest(g, d, a, w.unwrap().0.0.i as int, o) && g.has(w.unwrap().0),
{ }
pub open spec fn in4<T>(s: Seq<T>, x: T) -> bool { s.len() == 4 && (s[0] == x || s[1] == x || s[2] == x || s[3] == x) }
pub open spec fn has_pair(s: Seq<(RouteNodeId, RouteNodeId)>, a: int, b: RouteNodeId) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == a && s[j].1 == b }
pub open spec fn kept(s: Seq<(RouteNodeId, RouteNodeId)>, t: Seq<(RouteNodeId, RouteNodeId)>) -> bool { s.len() <= t.len() && forall|j: int| 0 <= j < s.len() ==> s[j] == #[trigger] t[j] }
pub proof fn lemma_push(s: Seq<(RouteNodeId, RouteNodeId)>, a: RouteNodeId, b: RouteNodeId)
    ensures has_pair(s.push((a, b)), a.0.i as int, b), forall|i: int, z: RouteNodeId| #[trigger] has_pair(s, i, z) ==> has_pair(s.push((a, b)), i, z),
        forall|g: RouteGraph, d: Document, o: Orientation| pairs_sound(g, d, s) && #[trigger] nearest(g, d, a.0.i as int, b.0.i as int, o) ==> pairs_sound(g, d, s.push((a, b))),
{
    let t = s.push((a, b));
    assert(t[s.len() as int] == (a, b));
    assert forall|i: int, z: RouteNodeId| #[trigger] has_pair(s, i, z) implies has_pair(t, i, z) by { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == i && s[j].1 == z; assert(t[j] == s[j]); }
    assert forall|g: RouteGraph, d: Document, o: Orientation| pairs_sound(g, d, s) && #[trigger] nearest(g, d, a.0.i as int, b.0.i as int, o) implies pairs_sound(g, d, t) by {
        assert forall|j: int| 0 <= j < t.len() implies near_any(g, d, (#[trigger] t[j]).0.0.i as int, t[j].1.0.i as int) by { if j < s.len() { assert(t[j] == s[j]); } else { assert(t[j] == (a, b)); } }
    }
}
pub proof fn lemma_pair_for(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>, a: int, o: Orientation, w: Option<(RouteNodeId, &RouteNodeData)>)
    requires best(g, d, a, g.n(), o, w), w.is_some() ==> has_pair(s, a, w.unwrap().0),
    ensures forall|c: int| #[trigger] joinable(g, d, a, c, o) ==> pair_for(g, d, s, a, o),
{
    lemma_best_all(g, d, a, o, w);
    if w.is_some() { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == a && s[j].1 == w.unwrap().0; assert(nearest(g, d, a, s[j].1.0.i as int, o)); }
}
pub proof fn lemma_net(g: RouteGraph, h: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>)
    requires h.graph.ns == g.graph.ns, h.graph.gwf(), pairs_sound(g, d, s), pairs_complete(g, d, s, g.n()),
        edges_of(h, s, s.len() as int),
    ensures net_sound(h, d), net_complete(h, d),
{
    lemma_same_nodes(g, h, d);
    assert forall|e: int| 0 <= e < h.m() implies near_any(h, d, (#[trigger] h.graph.ends@[e]).0.i as int, h.graph.ends@[e].1.i as int) by {
        assert(from_pairs(h, s, s.len() as int, e));
        let j = choose|j: int| 0 <= j < s.len() && of_pair(h, e, #[trigger] s[j]);
        assert(near_any(g, d, s[j].0.0.i as int, s[j].1.0.i as int));
        let o = choose|o: Orientation| #[trigger] nearest(g, d, s[j].0.0.i as int, s[j].1.0.i as int, o);
        assert(nearest(h, d, h.graph.ends@[e].0.i as int, h.graph.ends@[e].1.i as int, o));
    }
    assert forall|a: int, c: int, o: Orientation| #[trigger] joinable(h, d, a, c, o) implies has_nearest(h, d, a, o) by {
        assert(joinable(g, d, a, c, o));
        assert(pair_for(g, d, s, a, o));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.0.i == a && nearest(g, d, a, s[j].1.0.i as int, o);
        assert(pair_linked(h, s[j]));
        let b = s[j].1.0.i as int;
        assert(NodeIndex { i: b as usize } == s[j].1.0 && NodeIndex { i: a as usize } == s[j].0.0);
        assert(nearest(h, d, a, b, o) && linked(h, a, b));
    }
}
pub proof fn lemma_pair_in(g: RouteGraph, d: Document, s: Seq<(RouteNodeId, RouteNodeId)>, j: int)
    requires pairs_sound(g, d, s), 0 <= j < s.len(),
    ensures g.has(s[j].0) && g.has(s[j].1),
{
    assert(near_any(g, d, s[j].0.0.i as int, s[j].1.0.i as int));
    let o = choose|o: Orientation| #[trigger] nearest(g, d, s[j].0.0.i as int, s[j].1.0.i as int, o);
}
