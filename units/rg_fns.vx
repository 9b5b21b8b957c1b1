%file layout
%fn RouteNodeData::new C07
    ensures r.location == location, r.orientation == orientation,
%fn RouteNodeData::location C06
    ensures *r == self.location,
%fn RouteNodeData::orientation C07
    ensures r == self.orientation,
%fn RouteNodeData::is_connectable C07
    ensures r == (self.orientation.is_none() || self.orientation == Some(orientation)),
%fn RouteEdgeData::new C09
    ensures r.source_id == source_id, r.target_id == target_id,
%fn RouteEdgeData::source_id C09
    ensures r == self.source_id,
%fn RouteEdgeData::target_id C09
    ensures r == self.target_id,
%fn RouteGraph::new C15
    ensures r.uniq(), r.n() == 0, r.m() == 0, r.graph.es@.len() == 0, r.terminal_ports@ == Map::<TerminalPortId, RouteNodeId>::empty(),
%fn RouteGraph::node_ids C07
    ensures r@.len() == self.n(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).0.i == j,
%loop 1
    vx_o1@.len() == vx_i1, vx_s1@.len() == self.n(), forall|j: int| 0 <= j < vx_s1@.len() ==> (#[trigger] vx_s1@[j]).i == j,
    forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] vx_o1@[j]).0.i == j,
%loop 1 before
    let mut vx_o1: Vec<RouteNodeId> = vx_o1;
%fn RouteGraph::get_node C06 C07
    ensures r.is_some() == self.has(id), r.is_some() ==> *r.unwrap() == self.graph.ns@[id.0.i as int],
%fn RouteGraph::get_terminal_port C06
    ensures r.is_some() == self.terminal_ports@.contains_key(id), r.is_some() ==> r.unwrap() == self.terminal_ports@[id],
%fn RouteGraph::_add_node C06 C07 C10
    requires old(self).uniq(), location.ok(), old(self).fitting(location, orientation),
    ensures old(self).added(*final(self), r.0.i as int, location, orientation), final(self).terminal_ports == old(self).terminal_ports,
        (exists|i: int| 0 <= i < old(self).n() && same_pt(#[trigger] old(self).loc(i), location)) ==> final(self).n() == old(self).n(),
%loop 1
    *self == *old(self), vx_s1@.len() == self.n(), forall|j: int| 0 <= j < vx_s1@.len() ==> (#[trigger] vx_s1@[j]).i == j,
    vx_o1@.len() == vx_i1, forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] vx_o1@[j]).0.i == j && *vx_o1@[j].1 == self.graph.ns@[j],
%loop 1 before
    let mut vx_o1: Vec<(NodeIndex, &RouteNodeData)> = vx_o1;
%loop 2
    *self == *old(self), vx_s2@.len() == self.n(), forall|j: int| 0 <= j < vx_s2@.len() ==> (#[trigger] vx_s2@[j]).0.i == j && *vx_s2@[j].1 == self.graph.ns@[j],
    vx_o2.is_none() ==> forall|j: int| 0 <= j < vx_i2 ==> !same_pt(#[trigger] self.loc(j), location),
    vx_o2.is_some() ==> vx_o2.unwrap().0.i < self.n() && *vx_o2.unwrap().1 == self.graph.ns@[vx_o2.unwrap().0.i as int] && same_pt(self.loc(vx_o2.unwrap().0.i as int), location),
%loop 2 before
    let mut vx_o2: Option<(NodeIndex, &RouteNodeData)> = vx_o2;
%loop 2 start
    proof { assert(self.loc(vx_i2 - 1).ok()); assert(vx_s2@[vx_i2 - 1].0.i == vx_i2 - 1); }
%end
    proof {
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] self.loc(i)).ok() by { if i < old(self).n() { assert(old(self).loc(i).ok()); } }
        assert forall|i: int, j: int| 0 <= i < j < self.n() implies !same_pt(#[trigger] self.loc(i), #[trigger] self.loc(j)) by {
            if j < old(self).n() { assert(!same_pt(old(self).loc(i), old(self).loc(j))); } else { assert(!same_pt(old(self).loc(i), location)); }
        }
    }
%fn RouteGraph::add_node C07 C10
    requires old(self).uniq(), location.ok(), old(self).fitting(location, None),
    ensures old(self).added(*final(self), r.0.i as int, location, None), final(self).terminal_ports == old(self).terminal_ports,
%fn RouteGraph::add_terminal_port C06 C07 C10
    requires old(self).uniq(), terminal_port.location.ok(), old(self).fitting(terminal_port.location, Some(terminal_port.orientation)),
    ensures old(self).added(*final(self), r.0.i as int, terminal_port.location, Some(terminal_port.orientation)),
        final(self).terminal_ports@ == old(self).terminal_ports@.insert(terminal_port.id, r),
%before insert 1
    let ghost g1 = *self;
%end
    proof {
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] self.loc(i)).ok() by { assert(g1.loc(i).ok()); }
        assert forall|i: int, j: int| 0 <= i < j < self.n() implies !same_pt(#[trigger] self.loc(i), #[trigger] self.loc(j)) by { assert(!same_pt(g1.loc(i), g1.loc(j))); }
    }
%fn RouteGraph::add_edge C07 C09
    requires old(self).graph.gwf(), old(self).has(a), old(self).has(b),
    ensures final(self).graph.gwf(), final(self).graph.ns == old(self).graph.ns, final(self).terminal_ports == old(self).terminal_ports,
        exists|k: int| #[trigger] final(self).graph.links(k, a.0, b.0),
        old(self).m() <= final(self).m() <= old(self).m() + 1,
        forall|k: int| 0 <= k < old(self).m() ==> #[trigger] final(self).graph.ends@[k] == old(self).graph.ends@[k],
        forall|k: int| old(self).m() <= k < final(self).m() ==> #[trigger] final(self).graph.ends@[k] == (a.0, b.0),
%loop 1
    self.graph.gwf(), self.has(a), self.has(b), self.graph.ns == old(self).graph.ns, self.terminal_ports == old(self).terminal_ports, vx_s1@ == seq![(a, b)],
    vx_i1 == 0 ==> *self == *old(self),
    vx_i1 == 1 ==> exists|k: int| #[trigger] self.graph.links(k, a.0, b.0),
    old(self).m() <= self.m() <= old(self).m() + vx_i1,
    forall|k: int| 0 <= k < old(self).m() ==> #[trigger] self.graph.ends@[k] == old(self).graph.ends@[k],
    forall|k: int| old(self).m() <= k < self.m() ==> #[trigger] self.graph.ends@[k] == (a.0, b.0),
%loop 1 start
    let ghost g0 = *self;
%loop 2
    *self == g0,
    vx_b2 ==> exists|k: int| #[trigger] self.graph.links(k, a.0, b.0),
%loop 1 end
    proof { if self.m() > g0.m() { assert(self.graph.links(g0.m(), a.0, b.0)); } }
%fn RouteGraph::edge_endpoints C09
    ensures r.is_some() == (edge_id.0.i < self.m()), r.is_some() ==> (r.unwrap().0.0, r.unwrap().1.0) == self.graph.ends@[edge_id.0.i as int],
%fn SimpleLayoutEngine::new C15
    ensures like_new(r),  // [C15]
