%file layout
%fn SimpleLayoutEngine::connect_nearest_neighbor_edge_junctions C07 C08 C10
    requires doc.wf(), roomy(*doc), old(self).edge_route_graph.uniq(), old(self).edge_route_graph.m() == 0, outside(old(self).edge_route_graph, *doc),
    ensures final(self).edge_route_graph.uniq(), final(self).edge_route_graph.graph.ns == old(self).edge_route_graph.graph.ns, final(self).edge_route_graph.terminal_ports == old(self).edge_route_graph.terminal_ports,
        net_sound(final(self).edge_route_graph, *doc),  // [C07,C08,C10]
        net_complete(final(self).edge_route_graph, *doc),  // [C10]
%start
    hide(joinable); hide(nearest); hide(best); hide(net_sound); hide(net_complete); hide(pairs_sound); hide(pairs_complete); hide(pair_for); hide(RouteGraph::uniq); hide(outside);
    let ghost g = self.edge_route_graph;
    proof { assert(pairs_complete(g, *doc, Seq::empty(), 0)) by { reveal(pairs_complete); reveal(joinable); } }
%loop 1
    vx_s1@ == doc.tabs(), vx_o1@.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> *(#[trigger] vx_o1@[k]).1 == doc.tab(k),
%loop 1 before
    let mut vx_o1: Vec<(NodeId, &NodeData)> = vx_o1;
%loop 2
    vx_s2@.len() == doc.tabs().len(), forall|k: int| 0 <= k < vx_s2@.len() ==> *(#[trigger] vx_s2@[k]).1 == doc.tab(k),
    vx_o2@.len() == vx_i2, forall|k: int| 0 <= k < vx_i2 ==> grown((#[trigger] vx_o2@[k]).1, doc.tab(k).rc(), -2),
%loop 2 before
    let mut vx_o2: Vec<(NodeId, Rect)> = vx_o2;
%loop 2 start
    proof { assert(roomy_rect(doc.tab(vx_i2 - 1).rc())); }
%loop 3
    self.edge_route_graph == g, vx_s3@.len() == g.n(), forall|j: int| 0 <= j < vx_s3@.len() ==> (#[trigger] vx_s3@[j]).0.i == j,
    shape_rects@.len() == doc.tabs().len(), forall|k: int| 0 <= k < shape_rects@.len() ==> grown((#[trigger] shape_rects@[k]).1, doc.tab(k).rc(), -2),
    pairs_sound(g, *doc, edges@), pairs_complete(g, *doc, edges@, vx_i3 as int),
%loop 3 before
    proof { assert(edges@ =~= Seq::empty()); assert(pairs_sound(g, *doc, edges@)) by { reveal(pairs_sound); } }
%loop 3 start
    let ghost ia = vx_i3 - 1; let ghost e0 = edges@;
%loop 4
    vx_s4@.len() == g.n(), forall|j: int| 0 <= j < vx_s4@.len() ==> (#[trigger] vx_s4@[j]).0.i == j,
    best(g, *doc, ia, vx_i4 as int, Orientation::Up, up), best(g, *doc, ia, vx_i4 as int, Orientation::Down, down),
    best(g, *doc, ia, vx_i4 as int, Orientation::Left, left), best(g, *doc, ia, vx_i4 as int, Orientation::Right, right),
%loop 4 before
    proof { assert(best(g, *doc, ia, 0, Orientation::Up, up) && best(g, *doc, ia, 0, Orientation::Down, down) && best(g, *doc, ia, 0, Orientation::Left, left) && best(g, *doc, ia, 0, Orientation::Right, right)) by { reveal(best); reveal(joinable); } }
%loop 4 start
    let ghost (up0, down0, left0, right0) = (up, down, left, right); let ghost ib = vx_i4 - 1;
    proof { reveal(best); reveal(joinable); reveal(RouteGraph::uniq); assert(g.loc(ia).ok() && g.loc(ib).ok()); }
%closure 1
    -> (r: bool) requires axis_parallel(*p, *q) ensures r == clear(*doc, *p, *q)
%loop 5
    !vx_b5 ==> forall|k: int| 0 <= k < vx_i5 ==> !hits((#[trigger] doc.tab(k)).rc(), *p, *q),
    vx_b5 ==> !clear(*doc, *p, *q),
%loop 5 start
    proof { assert(roomy_rect(doc.tab(vx_i5 - 1).rc())); assert(g.loc(ia) == *p && g.loc(ib) == *q); reveal(outside); }
%loop 4 end
    proof {
        lemma_best(g, *doc, ia, ib, Orientation::Up, up0, up); lemma_best(g, *doc, ia, ib, Orientation::Down, down0, down);
        lemma_best(g, *doc, ia, ib, Orientation::Left, left0, left); lemma_best(g, *doc, ia, ib, Orientation::Right, right0, right);
    }
%loop 6 before
    proof {
        reveal(RouteGraph::uniq);
        lemma_best_all(g, *doc, ia, Orientation::Up, up); lemma_best_all(g, *doc, ia, Orientation::Down, down); lemma_best_all(g, *doc, ia, Orientation::Left, left); lemma_best_all(g, *doc, ia, Orientation::Right, right);
    }
%loop 6
    kept(e0, edges@), pairs_sound(g, *doc, edges@), vx_s6@.len() == 4,
    forall|l: int| 0 <= l < 4 ==> (#[trigger] vx_s6@[l] == up || vx_s6@[l] == down || vx_s6@[l] == left || vx_s6@[l] == right),
    in4(vx_s6@, up) && in4(vx_s6@, down) && in4(vx_s6@, left) && in4(vx_s6@, right),
    forall|l: int| 0 <= l < vx_i6 && (#[trigger] vx_s6@[l]).is_some() ==> has_pair(edges@, ia, vx_s6@[l].unwrap().0),
%loop 6 start
    let ghost e1 = edges@; let ghost w6 = vx_s6@[vx_i6 - 1];
    proof { if w6.is_some() { lemma_push(e1, a, w6.unwrap().0); } }
%loop 3 end
    proof {
        lemma_pair_for(g, *doc, edges@, ia, Orientation::Up, up); lemma_pair_for(g, *doc, edges@, ia, Orientation::Down, down); lemma_pair_for(g, *doc, edges@, ia, Orientation::Left, left); lemma_pair_for(g, *doc, edges@, ia, Orientation::Right, right);
        assert forall|c: int, o: Orientation| #[trigger] joinable(g, *doc, ia, c, o) implies pair_for(g, *doc, edges@, ia, o) by { match o { Orientation::Up => {} Orientation::Down => {} Orientation::Left => {} Orientation::Right => {} } }
        lemma_pairs(g, *doc, e0, edges@, ia);
    }
%loop 7 before
    proof { assert(g.graph.gwf()) by { reveal(RouteGraph::uniq); } assert(edges_of(g, edges@, 0)); assert(pairs_complete(g, *doc, edges@, g.n())); }
%loop 7
    pairs_sound(g, *doc, vx_s7@), pairs_complete(g, *doc, vx_s7@, g.n()),
    self.edge_route_graph.graph.ns == g.graph.ns, self.edge_route_graph.graph.gwf(), self.edge_route_graph.terminal_ports == g.terminal_ports,
    edges_of(self.edge_route_graph, vx_s7@, vx_i7 as int),
%loop 7 start
    let ghost h0 = self.edge_route_graph;
    proof { lemma_pair_in(g, *doc, vx_s7@, vx_i7 - 1); }
%loop 7 end
    proof { lemma_edges_of(h0, self.edge_route_graph, vx_s7@, vx_i7 - 1); }
%loop 7 after
    proof { lemma_net(g, self.edge_route_graph, *doc, vx_s7@); lemma_same_nodes(g, self.edge_route_graph, *doc); }
