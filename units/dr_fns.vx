%file layout
%fn SimpleLayoutEngine::draw_edge_path C06 C07 C08 C09 C10 C15
    requires laid(*old(doc)),
    ensures same_but_routes(*old(doc), *final(doc)),
        net_fine(final(self).edge_route_graph, *old(doc)),  // [C07,C08,C09,C10]
        forall|e: int| 0 <= e < final(doc).n_rel() ==> #[trigger] rel_ends_ok(*final(doc), e),  // [C06]
        forall|e: int| 0 <= e < final(doc).n_rel() ==> #[trigger] rel_sides_ok(*final(doc), e),  // [C07]
        forall|e: int| 0 <= e < final(doc).n_rel() ==> #[trigger] rel_clear_ok(*final(doc), e),  // [C08]
        forall|e: int| 0 <= e < final(doc).n_rel() ==> #[trigger] rel_cheapest(final(self).edge_route_graph, *final(doc), e),  // [C09]
        forall|e: int| 0 <= e < final(doc).n_rel() ==> #[trigger] rel_onward(*final(doc), e),  // [C10]
%start
    hide(laid); hide(all_good); hide(spaced); hide(roomy); hide(nodes_fine); hide(ports_kept); hide(known_rel); hide(known_upto); hide(crossed_rel); hide(crossed_upto); hide(corners); hide(ready); hide(routed); hide(shape_good); hide(all_ok);
    hide(off_all); hide(seen); hide(cross_of); hide(kept_of); hide(plain); hide(junctions_of); hide(RouteGraph::uniq); hide(RouteGraph::grew); hide(RouteGraph::added); hide(RouteGraph::fitting); hide(net_sound); hide(net_complete); hide(net_axis); hide(outside);
    hide(registered); hide(reaches); hide(Document::wf_tree); hide(Document::wf_edges); hide(Document::is_shape);
    hide(rel_ends_ok); hide(rel_sides_ok); hide(rel_clear_ok); hide(rel_cheapest); hide(rel_onward); hide(same_but_routes); hide(net_fine); hide(given); hide(all_found); hide(found); hide(port_added); hide(all_corners); hide(all_crossed); hide(all_known);
    let ghost d = *doc; let ghost mut dm = *doc; let ghost mut f = self.edge_route_graph; let ghost mut ps: Seq<Vec<Point>> = Seq::empty();
    proof { lemma_good(d); lemma_use_good(d); }
%loop 1
    all_ok(crossing_junctions@), vx_s1@.len() == d.n_rel(), forall|e: int| 0 <= e < vx_s1@.len() ==> *(#[trigger] vx_s1@[e]) == d.rel(e),
    all_crossed(d, crossing_junctions@, vx_i1 as int),
%loop 1 before
    proof { assert(all_ok(crossing_junctions@)) by { reveal(all_ok); } assert(all_crossed(d, crossing_junctions@, 0)) by { reveal(all_crossed); } assert(all_corners(d, shape_junctions@)) by { reveal(all_corners); } }
%loop 1 start
    proof { lemma_rel_shapes(d, vx_i1 - 1); }
%loop 2
    vx_s2@.len() == n_ports(d, src(d, vx_i1 - 1)), forall|i: int| 0 <= i < vx_s2@.len() ==> *(#[trigger] vx_s2@[i]) == port(d, src(d, vx_i1 - 1), i),
    all_ok(crossing_junctions@), crossed_upto(d, crossing_junctions@, src(d, vx_i1 - 1), vx_i2 as int),
    all_crossed(d, crossing_junctions@, vx_i1 - 1),
%loop 2 before
    proof { assert(crossed_upto(d, crossing_junctions@, src(d, vx_i1 - 1), 0)) by { reveal(crossed_upto); } }
%loop 2 start
    let ghost s1 = crossing_junctions@;
    proof { lemma_port_ok(d, src(d, vx_i1 - 1), vx_i2 - 1); }
%loop 2 end
    proof { lemma_cross_step(d, shape_junctions@, s1, junctions@, src(d, vx_i1 - 1), vx_i2 - 1); }
%loop 3
    vx_s3@.len() == n_ports(d, tgt(d, vx_i1 - 1)), forall|i: int| 0 <= i < vx_s3@.len() ==> *(#[trigger] vx_s3@[i]) == port(d, tgt(d, vx_i1 - 1), i),
    all_ok(crossing_junctions@), crossed_upto(d, crossing_junctions@, src(d, vx_i1 - 1), n_ports(d, src(d, vx_i1 - 1))), crossed_upto(d, crossing_junctions@, tgt(d, vx_i1 - 1), vx_i3 as int),
    all_crossed(d, crossing_junctions@, vx_i1 - 1),
%loop 3 before
    proof { assert(crossed_upto(d, crossing_junctions@, tgt(d, vx_i1 - 1), 0)) by { reveal(crossed_upto); } }
%loop 3 start
    let ghost s1 = crossing_junctions@;
    proof { lemma_port_ok(d, tgt(d, vx_i1 - 1), vx_i3 - 1); }
%loop 3 end
    proof { lemma_cross_step(d, shape_junctions@, s1, junctions@, tgt(d, vx_i1 - 1), vx_i3 - 1); }
%loop 1 end
    proof { lemma_next_crossed(d, crossing_junctions@, vx_i1 - 1); }
%before remove_overlapped_junction_nodes 1
    proof { lemma_each_ok(shape_junctions@); lemma_each_ok(crossing_junctions@); }
%loop 4
    vx_s4@ == edge_junctions@, plain(self.edge_route_graph, d), junctions_of(self.edge_route_graph, vx_s4@, vx_i4 as int), self.edge_route_graph.m() == 0, self.edge_route_graph.terminal_ports@ == Map::<TerminalPortId, RouteNodeId>::empty(),
%loop 4 before
    proof {
        assert(like_new(*self));  // [C15]
        lemma_plain_new(self.edge_route_graph, d); lemma_no_ports(self.edge_route_graph, d);
        lemma_kept_any(d, shape_junctions@, crossing_junctions@, edge_junctions@);
        assert(junctions_of(self.edge_route_graph, edge_junctions@, 0)) by { reveal(junctions_of); }
    }
%loop 4 start
    let ghost g0 = self.edge_route_graph;
    proof { lemma_plain_fits(g0, d, vx_s4@[vx_i4 - 1]); assert(vx_s4@[vx_i4 - 1].ok()) by { reveal(all_ok); } }
%loop 4 end
    proof {
        let r = choose|r: int| #[trigger] g0.added(self.edge_route_graph, r, vx_s4@[vx_i4 - 1], None);
        lemma_add_junction(g0, self.edge_route_graph, d, vx_s4@, vx_i4 - 1, r);
        assert(self.edge_route_graph.m() == 0) by { reveal(RouteGraph::added); reveal(RouteGraph::grew); }
    }
%loop 4 after
    proof { f = self.edge_route_graph; lemma_plain_fine(f, d); lemma_no_ports(f, d); assert(f.grew(f)) by { reveal(RouteGraph::grew); } assert(all_known(f, d, 0)) by { reveal(all_known); } }
%loop 5
    vx_s5@.len() == d.n_rel(), forall|e: int| 0 <= e < vx_s5@.len() ==> *(#[trigger] vx_s5@[e]) == d.rel(e),
    nodes_fine(self.edge_route_graph, d), ports_kept(self.edge_route_graph, d), f.grew(self.edge_route_graph), self.edge_route_graph.m() == 0, all_known(self.edge_route_graph, d, vx_i5 as int),
%loop 5 start
    proof { lemma_rel_shapes(d, vx_i5 - 1); }
%loop 6
    vx_s6@.len() == n_ports(d, src(d, vx_i5 - 1)), forall|i: int| 0 <= i < vx_s6@.len() ==> *(#[trigger] vx_s6@[i]) == port(d, src(d, vx_i5 - 1), i),
    nodes_fine(self.edge_route_graph, d), ports_kept(self.edge_route_graph, d), f.grew(self.edge_route_graph), self.edge_route_graph.m() == 0, all_known(self.edge_route_graph, d, vx_i5 - 1),
    known_upto(self.edge_route_graph, d, src(d, vx_i5 - 1), vx_i6 as int),
%loop 6 before
    proof { assert(known_upto(self.edge_route_graph, d, src(d, vx_i5 - 1), 0)) by { reveal(known_upto); } }
%loop 6 start
    let ghost g0 = self.edge_route_graph;
    proof { lemma_fitting(g0, d, src(d, vx_i5 - 1), vx_i6 - 1); lemma_fine_uniq(g0, d); }
%loop 6 end
    proof { assert(port_added(g0, self.edge_route_graph, *pt)) by { reveal(port_added); } lemma_port_added(f, g0, self.edge_route_graph, d, src(d, vx_i5 - 1), vx_i6 - 1); }
%loop 7
    vx_s7@.len() == n_ports(d, tgt(d, vx_i5 - 1)), forall|i: int| 0 <= i < vx_s7@.len() ==> *(#[trigger] vx_s7@[i]) == port(d, tgt(d, vx_i5 - 1), i),
    nodes_fine(self.edge_route_graph, d), ports_kept(self.edge_route_graph, d), f.grew(self.edge_route_graph), self.edge_route_graph.m() == 0, all_known(self.edge_route_graph, d, vx_i5 - 1),
    known_upto(self.edge_route_graph, d, src(d, vx_i5 - 1), n_ports(d, src(d, vx_i5 - 1))), known_upto(self.edge_route_graph, d, tgt(d, vx_i5 - 1), vx_i7 as int),
%loop 7 before
    proof { assert(known_upto(self.edge_route_graph, d, tgt(d, vx_i5 - 1), 0)) by { reveal(known_upto); } }
%loop 7 start
    let ghost g0 = self.edge_route_graph;
    proof { lemma_fitting(g0, d, tgt(d, vx_i5 - 1), vx_i7 - 1); lemma_fine_uniq(g0, d); }
%loop 7 end
    proof { assert(port_added(g0, self.edge_route_graph, *pt)) by { reveal(port_added); } lemma_port_added(f, g0, self.edge_route_graph, d, tgt(d, vx_i5 - 1), vx_i7 - 1); }
%loop 5 end
    proof { lemma_next_known(self.edge_route_graph, d, vx_i5 - 1); }
%before connect_nearest_neighbor_edge_junctions 1
    let ghost g5 = self.edge_route_graph;
    proof { lemma_fine_uniq(g5, d); }
%after connect_nearest_neighbor_edge_junctions 1
    proof { lemma_ready_now(f, g5, self.edge_route_graph, d, edge_junctions@); }
%loop 8 before
    proof { assert(all_found(self.edge_route_graph, d, paths@, 0)) by { reveal(all_found); } }
%loop 8
    paths@.len() == vx_i8, vx_s8@.len() == d.n_rel(), forall|e: int| 0 <= e < vx_s8@.len() ==> (#[trigger] vx_s8@[e]).0.i == e,
    all_found(self.edge_route_graph, d, paths@, vx_i8 as int),
%loop 8 start
    let ghost p0 = paths@;
    proof { assert(self.edge_route_graph.n() <= usize::MAX) by { assert(self.edge_route_graph.graph.ns.len() == self.edge_route_graph.n()); } lemma_reaches(self.edge_route_graph, d, vx_i8 - 1); assert(net_axis(self.edge_route_graph) && self.edge_route_graph.uniq()) by { reveal(ready); reveal(net_fine); reveal(nodes_fine); } }
%before push_back 1
    proof { lemma_next_found(self.edge_route_graph, d, p0, vx_i8 - 1, path); }
%loop 8 after
    proof { ps = paths@; }
%loop 9 before
    proof { assert(given(d, *doc, ps, 0)) by { reveal(given); } dm = *doc; }
%loop 9
    dm == *doc, vx_n9 == d.n_rel(), doc.n_rel() == d.n_rel(), given(d, *doc, ps, vx_i9 as int), paths@ == ps.skip(vx_i9 as int), ps.len() == d.n_rel(),
%loop 9 end
    proof { lemma_give(d, dm, *doc, ps, vx_i9 - 1); dm = *doc; }
%end
    proof { assert(self.edge_route_graph.n() <= usize::MAX) by { assert(self.edge_route_graph.graph.ns.len() == self.edge_route_graph.n()); } lemma_drawn(self.edge_route_graph, d, *doc, ps); }
