%verbatim
// ------------------------------------------------------------------ ways through the network
pub open spec fn ix(a: int) -> NodeIndex { NodeIndex { i: a as usize } }
/// There is a walk from a to b that costs at most c.
pub open spec fn reach(g: RouteGraph, a: int, b: int, c: int) -> bool { exists|q: Seq<NodeIndex>| #[trigger] joins(g.graph, ix(a), ix(b), q) && total(legs(g), q) <= c }
pub open spec fn both(g: RouteGraph, a: int, b: int, c: int) -> bool { reach(g, a, b, c) && reach(g, b, a, c) }
pub proof fn lemma_total_cat(w: Weight, p: Seq<NodeIndex>, q: Seq<NodeIndex>)
    requires p.len() > 0, q.len() > 0, p[p.len() - 1] == q[0],
    ensures total(w, p + q.drop_first()) == total(w, p) + total(w, q),
    decreases q.len()
{
    let r = p + q.drop_first();
    if q.len() == 1 { assert(r =~= p); assert(total(w, q) == 0); }
    else {
        let q0 = q.drop_last();
        assert(p[p.len() - 1] == q0[0]);
        lemma_total_cat(w, p, q0);
        assert(r.drop_last() =~= p + q0.drop_first());
        assert(r[r.len() - 1] == q[q.len() - 1]);
        assert(r[r.len() - 2] == q[q.len() - 2]) by { if q.len() == 2 { assert(r[r.len() - 2] == p[p.len() - 1]); } }
        assert(r.len() > 1);
    }
}
pub proof fn lemma_cat(g: RouteGraph, a: int, b: int, e: int, c: int, f: int)
    requires reach(g, a, b, c), reach(g, b, e, f),
    ensures reach(g, a, e, c + f),
{
    let p = choose|q: Seq<NodeIndex>| #[trigger] joins(g.graph, ix(a), ix(b), q) && total(legs(g), q) <= c;
    let q = choose|q: Seq<NodeIndex>| #[trigger] joins(g.graph, ix(b), ix(e), q) && total(legs(g), q) <= f;
    let r = p + q.drop_first();
    lemma_total_cat(legs(g), p, q);
    assert forall|i: int| 0 <= i < r.len() - 1 implies hop(g.graph, #[trigger] r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(hop(g.graph, p[i], p[i + 1])); } else { let l = i - (p.len() - 1); assert(hop(g.graph, q[l], q[l + 1])); assert(r[i] == q[l]); assert(r[i + 1] == q[l + 1]); }
    }
    assert(r[r.len() - 1] == ix(e)) by { if q.len() == 1 { assert(r =~= p); } }
    assert(joins(g.graph, ix(a), ix(e), r));
}
pub proof fn lemma_cat2(g: RouteGraph, a: int, b: int, e: int, c: int, f: int)
    requires both(g, a, b, c), both(g, b, e, f),
    ensures both(g, a, e, c + f),
{
    lemma_cat(g, a, b, e, c, f); lemma_cat(g, e, b, a, f, c);
}
pub proof fn lemma_stay(g: RouteGraph, a: int)
    requires 0 <= a < g.n(), g.n() <= usize::MAX,
    ensures both(g, a, a, 0),
{
    let q = seq![ix(a)];
    assert(joins(g.graph, ix(a), ix(a), q) && total(legs(g), q) == 0);
}
pub proof fn lemma_more(g: RouteGraph, a: int, b: int, c: int, f: int)
    requires both(g, a, b, c), c <= f,
    ensures both(g, a, b, f),
{
    lemma_within(g, a, b, c, f); lemma_within(g, b, a, c, f);
}
/// Every node is a junction away from all tables or a port on the side of a table that it faces.
pub open spec fn node_fine(g: RouteGraph, d: Document, i: int) -> bool {
    match g.ori(i) { None => off_all(d, MARGIN() - 2, g.loc(i)), Some(o) => at_side(d, g.loc(i), o) }
}
pub open spec fn nodes_fine(g: RouteGraph, d: Document) -> bool { g.uniq() && forall|i: int| 0 <= i < g.n() ==> #[trigger] node_fine(g, d, i) }
pub open spec fn net_fine(g: RouteGraph, d: Document) -> bool { nodes_fine(g, d) && net_sound(g, d) && net_complete(g, d) }
pub proof fn lemma_outside(g: RouteGraph, d: Document)
    requires spaced(d), nodes_fine(g, d),
    ensures outside(g, d),
{
    assert forall|i: int, k: int| 0 <= i < g.n() && 0 <= k < d.tabs().len() implies !(d.tab(k).rc().X0() < (#[trigger] g.loc(i)).X() < d.tab(k).rc().X1() && (#[trigger] d.tab(k)).rc().Y0() < g.loc(i).Y() < d.tab(k).rc().Y1()) by {
        assert(node_fine(g, d, i));
        if g.ori(i).is_some() { let o = g.ori(i).unwrap(); let l = choose|l: int| #[trigger] side_of(d, l, g.loc(i), o); assert(roomy_rect(d.tab(l).rc())); if l != k { lemma_gap(d, k, l); } }
    }
}
/// a and b may be joined and only junctions are in between.
pub open spec fn free_seg(g: RouteGraph, d: Document, a: int, b: int, o: Orientation) -> bool { joinable(g, d, a, b, o) && forall|p: Point, w: Orientation| betw(g.loc(a), g.loc(b), p) ==> !#[trigger] at_side(d, p, w) }
/// One connection.
pub proof fn lemma_one(g: RouteGraph, a: int, w: int)
    requires linked(g, a, w), g.n() <= usize::MAX,
    ensures reach(g, a, w, far(g.loc(a), g.loc(w)) / 2),
{
    let k = choose|k: int| #[trigger] g.graph.links(k, ix(a), ix(w));
    assert(hop(g.graph, ix(a), ix(w)));
    let q = seq![ix(a), ix(w)];
    assert(q.drop_last() =~= seq![ix(a)]);
    assert(total(legs(g), q) == leg(g, ix(a), ix(w))) by { assert(total(legs(g), q.drop_last()) == 0); }
    assert(joins(g.graph, ix(a), ix(w), q));
}
/// From a node in between on.
pub proof fn lemma_rest(g: RouteGraph, d: Document, a: int, w: int, b: int, o: Orientation)
    requires nodes_fine(g, d), free_seg(g, d, a, b, o), joinable(g, d, a, w, o), w != b, far(g.loc(a), g.loc(w)) <= far(g.loc(a), g.loc(b)),
    ensures free_seg(g, d, w, b, o), far(g.loc(a), g.loc(w)) + far(g.loc(w), g.loc(b)) == far(g.loc(a), g.loc(b)), far(g.loc(w), g.loc(b)) < far(g.loc(a), g.loc(b)),
{
    let (pa, pw, pb) = (g.loc(a), g.loc(w), g.loc(b));
    assert(!same_pt(pw, pb)) by { if w < b { assert(!same_pt(g.loc(w), g.loc(b))); } else { assert(!same_pt(g.loc(b), g.loc(w))); } }
    assert(betw(pa, pb, pw) && toward(pw, pb, o));
    assert(node_fine(g, d, w));
    assert(g.ori(w).is_none()) by { if g.ori(w).is_some() { assert(at_side(d, pw, g.ori(w).unwrap())); } }
    assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), pw, pb) by { assert(!hits(d.tab(l).rc(), pa, pb)); }
    assert forall|p: Point, u: Orientation| betw(pw, pb, p) implies !#[trigger] at_side(d, p, u) by { assert(betw(pa, pb, p)); }
}
/// Then there is a way that is as short as the distance.
pub proof fn lemma_way_line(g: RouteGraph, d: Document, a: int, b: int, o: Orientation)
    requires net_fine(g, d), free_seg(g, d, a, b, o), g.n() <= usize::MAX,
    ensures reach(g, a, b, far(g.loc(a), g.loc(b)) / 2),
    decreases far(g.loc(a), g.loc(b))
{
    hide(joinable); hide(clear); hide(joins); hide(net_sound); hide(linked); hide(total); hide(net_complete); hide(nodes_fine); hide(at_side); hide(reach);
    assert(has_nearest(g, d, a, o)) by { reveal(net_complete); }
    let w = choose|w: int| #[trigger] nearest(g, d, a, w, o) && linked(g, a, w);
    lemma_one(g, a, w);
    if w != b {
        lemma_rest(g, d, a, w, b, o);
        lemma_way_line(g, d, w, b, o);
        lemma_cat(g, a, w, b, far(g.loc(a), g.loc(w)) / 2, far(g.loc(w), g.loc(b)) / 2);
        lemma_within(g, a, b, far(g.loc(a), g.loc(w)) / 2 + far(g.loc(w), g.loc(b)) / 2, far(g.loc(a), g.loc(b)) / 2);
    }
}
pub proof fn lemma_within(g: RouteGraph, a: int, b: int, c: int, f: int)
    requires reach(g, a, b, c), c <= f,
    ensures reach(g, a, b, f),
{
    let p = choose|q: Seq<NodeIndex>| #[trigger] joins(g.graph, ix(a), ix(b), q) && total(legs(g), q) <= c;
    assert(total(legs(g), p) <= f);
}
pub open spec fn SEG() -> int { 4194304 }
pub proof fn lemma_free(g: RouteGraph, d: Document, a: int, b: int, o: Orientation)
    requires net_fine(g, d), free_seg(g, d, a, b, o), g.n() <= usize::MAX,
    ensures both(g, a, b, SEG()),
{
    assert(free_seg(g, d, b, a, opp(o))) by {
        assert(opp(opp(o)) == o);
        assert forall|l: int| 0 <= l < d.tabs().len() implies !hits((#[trigger] d.tab(l)).rc(), g.loc(b), g.loc(a)) by { assert(!hits(d.tab(l).rc(), g.loc(a), g.loc(b))); }
        assert forall|p: Point, u: Orientation| betw(g.loc(b), g.loc(a), p) implies !#[trigger] at_side(d, p, u) by { assert(betw(g.loc(a), g.loc(b), p)); }
    }
    assert(g.loc(a).ok() && g.loc(b).ok());
    lemma_way_line(g, d, a, b, o); lemma_way_line(g, d, b, a, opp(o));
    lemma_within(g, a, b, far(g.loc(a), g.loc(b)) / 2, SEG()); lemma_within(g, b, a, far(g.loc(b), g.loc(a)) / 2, SEG());
}
pub open spec fn way_of(a: Point, b: Point) -> Orientation { if b.X() == a.X() { if b.Y() < a.Y() { Orientation::Up } else { Orientation::Down } } else if b.X() < a.X() { Orientation::Left } else { Orientation::Right } }
/// Two nodes on a clear line.
pub proof fn lemma_ways(g: RouteGraph, d: Document, a: int, b: int)
    requires net_fine(g, d), 0 <= a < g.n(), 0 <= b < g.n(), g.n() <= usize::MAX, axis_parallel(g.loc(a), g.loc(b)), clear(d, g.loc(a), g.loc(b)),
        forall|p: Point, o: Orientation| betw(g.loc(a), g.loc(b), p) ==> !#[trigger] at_side(d, p, o),
        g.ori(a).is_none() || g.ori(a) == Some(way_of(g.loc(a), g.loc(b))), g.ori(b).is_none(),
    ensures both(g, a, b, SEG()),
{
    if a == b { lemma_stay(g, a); lemma_more(g, a, a, 0, SEG()); }
    else {
        assert(!same_pt(g.loc(a), g.loc(b))) by { if a < b { assert(!same_pt(g.loc(a), g.loc(b))); } else { assert(!same_pt(g.loc(b), g.loc(a))); } }
        assert(free_seg(g, d, a, b, way_of(g.loc(a), g.loc(b))));
        lemma_free(g, d, a, b, way_of(g.loc(a), g.loc(b)));
    }
}
/// There is a junction at (x, y).
pub open spec fn junction_at(g: RouteGraph, x: int, y: int, i: int) -> bool { 0 <= i < g.n() && g.ori(i).is_none() && at_pt(g.loc(i), x, y) }
pub open spec fn junction(g: RouteGraph, x: int, y: int) -> bool { exists|i: int| #[trigger] junction_at(g, x, y, i) }
pub open spec fn tl(g: RouteGraph, d: Document, k: int, i: int) -> bool { junction_at(g, d.tab(k).rc().X0() - MARGIN(), d.tab(k).rc().Y0() - MARGIN(), i) }
pub open spec fn cornered(g: RouteGraph, d: Document) -> bool {
    forall|k: int| 0 <= k < d.tabs().len() ==> junction(g, (#[trigger] d.tab(k)).rc().X0() - MARGIN(), d.tab(k).rc().Y0() - MARGIN()) && junction(g, d.tab(k).rc().X1() + MARGIN(), d.tab(k).rc().Y0() - MARGIN())
        && junction(g, d.tab(k).rc().X0() - MARGIN(), d.tab(k).rc().Y1() + MARGIN())
}
pub open spec fn stubbed(g: RouteGraph, d: Document, p: Point, o: Orientation) -> bool { forall|k: int| #[trigger] side_of(d, k, p, o) ==> junction(g, stub_x(d.tab(k).rc(), p, o), stub_y(d.tab(k).rc(), p, o)) }
/// From a port to the corner of its table.
pub proof fn lemma_to_corner(g: RouteGraph, d: Document, k: int, i: int, c: int)
    requires spaced(d), net_fine(g, d), cornered(g, d), g.n() <= usize::MAX, 0 <= i < g.n(), g.ori(i).is_some(), side_of(d, k, g.loc(i), g.ori(i).unwrap()), stubbed(g, d, g.loc(i), g.ori(i).unwrap()), tl(g, d, k, c),
    ensures both(g, i, c, 3 * SEG()),
{
    let t = d.tab(k).rc(); let o = g.ori(i).unwrap();
    assert(roomy_rect(t));
    let s = choose|s: int| #[trigger] junction_at(g, stub_x(t, g.loc(i), o), stub_y(t, g.loc(i), o), s);
    lemma_skirt(d, k, g.loc(i), g.loc(s));
    lemma_ways(g, d, i, s);
    match o {
        Orientation::Left | Orientation::Up => { lemma_skirt(d, k, g.loc(s), g.loc(c)); lemma_ways(g, d, s, c); lemma_cat2(g, i, s, c, SEG(), SEG()); lemma_more(g, i, c, 2 * SEG(), 3 * SEG()); }
        Orientation::Right => {
            let e = choose|e: int| #[trigger] junction_at(g, t.X1() + MARGIN(), t.Y0() - MARGIN(), e);
            lemma_skirt(d, k, g.loc(s), g.loc(e)); lemma_ways(g, d, s, e); lemma_skirt(d, k, g.loc(e), g.loc(c)); lemma_ways(g, d, e, c);
            lemma_cat2(g, i, s, e, SEG(), SEG()); lemma_cat2(g, i, e, c, 2 * SEG(), SEG());
        }
        Orientation::Down => {
            let e = choose|e: int| #[trigger] junction_at(g, t.X0() - MARGIN(), t.Y1() + MARGIN(), e);
            lemma_skirt(d, k, g.loc(s), g.loc(e)); lemma_ways(g, d, s, e); lemma_skirt(d, k, g.loc(e), g.loc(c)); lemma_ways(g, d, e, c);
            lemma_cat2(g, i, s, e, SEG(), SEG()); lemma_cat2(g, i, e, c, 2 * SEG(), SEG());
        }
    }
}
/// From the corner of a table to the one of the first table.
pub proof fn lemma_to_hub(g: RouteGraph, d: Document, k: int, c: int, h: int)
    requires spaced(d), net_fine(g, d), cornered(g, d), g.n() <= usize::MAX, 0 <= k < d.tabs().len(), tl(g, d, k, c), tl(g, d, 0, h),
    ensures both(g, c, h, 2 * SEG()),
{
    let k0 = k - k % NCOL();
    assert(0 <= k0 && k0 / NCOL() == k / NCOL() && k0 % NCOL() == 0 && 0int % NCOL() == 0);
    let (t, t0, th) = (d.tab(k), d.tab(k0), d.tab(0));
    assert(t.rc().Y0() == t0.rc().Y0() && t0.rc().X0() == th.rc().X0());
    let e = choose|e: int| #[trigger] junction_at(g, t0.rc().X0() - MARGIN(), t0.rc().Y0() - MARGIN(), e);
    lemma_corner_open(d, k0); 
    lemma_open(d, g.loc(c), g.loc(e)); lemma_ways(g, d, c, e);
    lemma_open(d, g.loc(e), g.loc(h)); lemma_ways(g, d, e, h);
    lemma_cat2(g, c, e, h, SEG(), SEG());
}
/// Any two ports are connected.
pub proof fn lemma_ports_joined(g: RouteGraph, d: Document, k: int, i: int, l: int, j: int)
    requires spaced(d), net_fine(g, d), cornered(g, d), g.n() <= usize::MAX, 0 <= i < g.n(), g.ori(i).is_some(), side_of(d, k, g.loc(i), g.ori(i).unwrap()), stubbed(g, d, g.loc(i), g.ori(i).unwrap()),
        0 <= j < g.n(), g.ori(j).is_some(), side_of(d, l, g.loc(j), g.ori(j).unwrap()), stubbed(g, d, g.loc(j), g.ori(j).unwrap()),
    ensures joined(g, ix(i), ix(j)),
{
    let (t, u, th) = (d.tab(k), d.tab(l), d.tab(0));
    let c = choose|c: int| #[trigger] junction_at(g, t.rc().X0() - MARGIN(), t.rc().Y0() - MARGIN(), c);
    let e = choose|e: int| #[trigger] junction_at(g, u.rc().X0() - MARGIN(), u.rc().Y0() - MARGIN(), e);
    let h = choose|h: int| #[trigger] junction_at(g, th.rc().X0() - MARGIN(), th.rc().Y0() - MARGIN(), h);
    lemma_to_corner(g, d, k, i, c); lemma_to_corner(g, d, l, j, e); lemma_to_hub(g, d, k, c, h); lemma_to_hub(g, d, l, e, h);
    lemma_cat2(g, i, c, h, 3 * SEG(), 2 * SEG()); lemma_cat2(g, j, e, h, 3 * SEG(), 2 * SEG());
    lemma_cat(g, i, h, j, 5 * SEG(), 5 * SEG());
}
