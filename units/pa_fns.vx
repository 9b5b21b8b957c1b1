%file geometry
%fn Point::distance C09
    ensures self.ok() && other.ok() && axis_parallel(*self, *other) ==> r.grid() && r.h() == far(*self, *other),  // [C09]
%file layout
%fn SimpleLayoutEngine::edge_route_graph
    ensures *r == self.edge_route_graph,
%fn SimpleLayoutEngine::compute_shortest_path C09 C10
    requires self.edge_route_graph.uniq(), net_axis(self.edge_route_graph), self.edge_route_graph.has(start_node), self.edge_route_graph.has(end_node),
        joined(self.edge_route_graph, start_node.0, end_node.0),  // [C10]
    ensures joins(self.edge_route_graph.graph, start_node.0, end_node.0, bare(r.1@)), no_repeat(bare(r.1@)), r.0.0 == total(legs(self.edge_route_graph), bare(r.1@)),
        forall|q: Seq<NodeIndex>| #[trigger] joins(self.edge_route_graph.graph, start_node.0, end_node.0, q) ==> r.0.0 <= total(legs(self.edge_route_graph), q),  // [C09]
%start
    hide(total); hide(no_repeat); hide(walk);
    let ghost g = self.edge_route_graph;
    proof { assert(mark(legs(g), end_node.0)); }
%closure 1
    -> (vx_q: bool) ensures vx_q == ($1 == end_node.0)
%closure 2
    -> (vx_q: RouteCost) requires edge_of(*graph, $1) ensures vx_q.0 == leg(self.edge_route_graph, $1.s, $1.t)
%closure 3
    -> (vx_q: RouteCost) ensures vx_q.0 == 0
%loop 1
    vx_s1@ == path@, vx_o1@.len() == vx_i1, forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_o1@[i]).0 == path@[i],
%loop 1 before
    let mut vx_o1: Vec<RouteNodeId> = vx_o1;
    let ghost fin = path;
    proof { assert(cheapest(g.graph, legs(g), start_node.0, end_node.0, Some((cost, path)))); }
%loop 1 after
    proof { assert(bare(vx_o1@) =~= fin@); }
%fn SimpleLayoutEngine::find_shortest_edges_path C06 C09 C10
    requires doc.wf(), edge_id.0.i < doc.n_rel(), self.edge_route_graph.uniq(), net_axis(self.edge_route_graph),
        registered(self.edge_route_graph, doc.nd(doc.rel(edge_id.0.i as int).source_id)), registered(self.edge_route_graph, doc.nd(doc.rel(edge_id.0.i as int).target_id)),
        reaches(self.edge_route_graph, doc.nd(doc.rel(edge_id.0.i as int).source_id), doc.nd(doc.rel(edge_id.0.i as int).target_id)),  // [C10]
    ensures r.is_some(), routed(self.edge_route_graph, doc.nd(doc.rel(edge_id.0.i as int).source_id), doc.nd(doc.rel(edge_id.0.i as int).target_id), r.unwrap()@),  // [C06,C09]
%start
    hide(least); hide(pair); hide(joins); hide(no_repeat); hide(total); hide(joined); hide(route); hide(Document::wf_tree); hide(reaches); hide(least_of);
    let ghost g = self.edge_route_graph; let ghost z = doc.nd(doc.rel(edge_id.0.i as int).source_id); let ghost y = doc.nd(doc.rel(edge_id.0.i as int).target_id);
%loop 1 before
    proof { reveal(least); reveal(pair); assert(least(g, z, y, 0, 0, cost, path)); }
%loop 1
    *start_node == z, *end_node == y, vx_s1@.len() == z.terminal_ports@.len(), forall|j: int| 0 <= j < vx_s1@.len() ==> *(#[trigger] vx_s1@[j]) == z.terminal_ports@[j],
    least(g, z, y, vx_i1 as int, 0, cost, path),
%loop 2
    vx_s2@.len() == y.terminal_ports@.len(), forall|j: int| 0 <= j < vx_s2@.len() ==> *(#[trigger] vx_s2@[j]) == y.terminal_ports@[j],
    least(g, z, y, vx_i1 - 1, vx_i2 as int, cost, path),
%loop 2 start
    let ghost cost0 = cost; let ghost path0 = path; let ghost i = vx_i1 - 1; let ghost j = vx_i2 - 1;
    proof {
        assert(src.id == z.terminal_ports@[i].id && dst.id == y.terminal_ports@[j].id);
        assert(pair(g, z, y, i, j) == (port_node(g, z, i) != port_node(g, y, j))) by { reveal(pair); }
        if pair(g, z, y, i, j) { assert(joined(g, port_node(g, z, i), port_node(g, y, j))) by { reveal(reaches); } } else { lemma_least_skip(g, z, y, i, j, cost, path); }
    }
%after compute_shortest_path 1
    proof { assert(c.0 < CMAX()) by { reveal(joined); } lemma_least_step(g, z, y, i, j, cost0, path0, c, p, if c.0 < cost0.0 { c } else { cost0 }, if c.0 < cost0.0 { Some(p) } else { path0 }); }
%loop 1 end
    proof { lemma_least_row(g, z, y, vx_i1 - 1, cost, path); }
%loop 1 after
    proof { lemma_least_end(g, z, y, cost, path); }
%loop 3
    vx_s3@ == path@, vx_o3@.len() == vx_i3, forall|l: int| 0 <= l < vx_i3 ==> *(#[trigger] vx_o3@[l]) == g.loc(path@[l].0.i as int),
%loop 3 before
    let mut vx_o3: Vec<&Point> = vx_o3;
    let ghost fin = path;
    proof { lemma_route_in(g, z, y, path@); }
%loop 3 after
    proof { assert forall|s: Seq<Point>| s.len() == vx_o3@.len() && (forall|l: int| 0 <= l < s.len() ==> #[trigger] s[l] == *vx_o3@[l]) implies #[trigger] places(g, bare(fin@), s) by {} }
