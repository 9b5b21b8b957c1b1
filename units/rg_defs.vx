%file layout
%struct RouteNodeId
%struct RouteEdgeId
%struct RouteNodeData
%struct RouteEdgeData
%type _RouteGraph
%struct RouteGraph
%struct SimpleLayoutEngine
%verbatim
impl VxKey for TerminalPortId { type K = TerminalPortId; open spec fn vx_key(&self) -> TerminalPortId { *self } }
// ------------------------------------------------------------------ the route graph
pub open spec fn same_pt(a: Point, b: Point) -> bool { a.X() == b.X() && a.Y() == b.Y() }
impl RouteGraph {
    pub open spec fn n(&self) -> int { self.graph.ns@.len() as int }
    pub open spec fn m(&self) -> int { self.graph.ends@.len() as int }
    pub open spec fn has(&self, i: RouteNodeId) -> bool { i.0.i < self.graph.ns@.len() }
    pub open spec fn loc(&self, i: int) -> Point { self.graph.ns@[i].location }
    pub open spec fn ori(&self, i: int) -> Option<Orientation> { self.graph.ns@[i].orientation }
    /// Every node is at a grid point of its own.
    pub open spec fn uniq(&self) -> bool {
        &&& self.graph.gwf()
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.loc(i)).ok()
        &&& forall|i: int, j: int| 0 <= i < j < self.n() ==> !same_pt(#[trigger] self.loc(i), #[trigger] self.loc(j))
    }
    /// Whatever is already at p faces o as well.
    pub open spec fn fitting(&self, p: Point, o: Option<Orientation>) -> bool { forall|i: int| 0 <= i < self.n() && same_pt(#[trigger] self.loc(i), p) ==> self.ori(i) == o }
    /// Only nodes were added.
    pub open spec fn grew(&self, b: RouteGraph) -> bool {
        &&& b.n() >= self.n() && b.graph.es == self.graph.es && b.graph.ends == self.graph.ends
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] b.graph.ns@[i] == self.graph.ns@[i]
    }
    /// At most one node was added: r, at p and facing o.
    pub open spec fn added(&self, b: RouteGraph, r: int, p: Point, o: Option<Orientation>) -> bool {
        &&& self.grew(b) && b.n() <= self.n() + 1 && 0 <= r < b.n() && (r < self.n() ==> b.n() == self.n())
        &&& b.uniq() && same_pt(b.loc(r), p) && b.ori(r) == o
    }
    /// One node per registered port, at its place and facing like it.
    pub open spec fn port_at(&self, p: TerminalPort) -> bool {
        self.terminal_ports@.contains_key(p.id) ==> self.has(self.terminal_ports@[p.id]) && same_pt(self.loc(self.terminal_ports@[p.id].0.i as int), p.location) && self.ori(self.terminal_ports@[p.id].0.i as int) == Some(p.orientation)
    }
}
/// No trace of anything laid out before (all that an engine stores is its route graph).
pub open spec fn like_new(e: SimpleLayoutEngine) -> bool {
    let SimpleLayoutEngine { edge_route_graph: g } = e;
    let RouteGraph { graph: _, terminal_ports: _ } = g;
    g.n() == 0 && g.m() == 0 && g.graph.es@.len() == 0 && g.terminal_ports@ == Map::<TerminalPortId, RouteNodeId>::empty() && g.graph.gwf()
}
