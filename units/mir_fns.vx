%file color
%struct RGBColor clone displaysafe
%enum NamedColor displaysafe
%enum WebColor clone displaysafe
%fn RGBColor::new
    ensures r.red == red, r.green == green, r.blue == blue,
%file mir
%struct NodeId
%struct EdgeId
%struct TerminalPortId
%struct TerminalPort
%struct NodeData
%struct EdgeData
%struct BodyShape derives=Default
%verbatim
impl BodyShape { pub fn default() -> BodyShape { BodyShape { } } }
%file mir
%struct RecordShape
%struct FieldShape
%struct TextSpan
%struct Badge
%enum FontFamily display safe
%enum FontWeight display safe
%enum FontSize display safe
%enum ShapeKind
%type DocumentGraph
%struct Document
%verbatim
impl NodeData {
    pub open spec fn same_geo(self, o: NodeData) -> bool { self.origin == o.origin && self.size == o.size && self.terminal_ports == o.terminal_ports }
    /// Everything but the place and the ports.
    pub open spec fn same_tree(self, o: NodeData) -> bool { self.kind == o.kind && self.children == o.children }
    pub open spec fn has_rect(self) -> bool { self.origin.is_some() && self.size.is_some() }
    pub open spec fn rc(self) -> Rect { Rect { origin: self.origin.unwrap(), size: self.size.unwrap() } }
}
impl Document {
    pub open spec fn len(&self) -> nat { self.graph.ns@.len() }
    pub open spec fn has(&self, i: NodeId) -> bool { i.0.i < self.graph.ns@.len() }
    pub open spec fn nd(&self, i: NodeId) -> NodeData { self.graph.ns@[i.0.i as int] }
    /// Tables and their rows.
    pub open spec fn tabs(&self) -> Seq<NodeId> { self.nd(self.body_id).children@ }
    pub open spec fn rows(&self, k: int) -> Seq<NodeId> { self.nd(self.tabs()[k]).children@ }
    pub open spec fn tab(&self, k: int) -> NodeData { self.nd(self.tabs()[k]) }
    pub open spec fn row(&self, k: int, j: int) -> NodeData { self.nd(self.rows(k)[j]) }
    pub open spec fn rel(&self, e: int) -> EdgeData { self.graph.es@[e] }
    pub open spec fn n_rel(&self) -> nat { self.graph.es@.len() }
    /// The nodes form a tree: body, tables, rows; no node occurs twice.
    pub open spec fn wf_tree(&self) -> bool {
        &&& self.has(self.body_id) && self.nd(self.body_id).kind is Body
        &&& forall|k: int| 0 <= k < self.tabs().len() ==> self.has(#[trigger] self.tabs()[k]) && self.tab(k).kind is Record
        &&& forall|k: int, l: int| 0 <= k < l < self.tabs().len() ==> #[trigger] self.tabs()[k] != #[trigger] self.tabs()[l]
        &&& forall|k: int, j: int| 0 <= k < self.tabs().len() && 0 <= j < self.rows(k).len() ==> self.has(#[trigger] self.rows(k)[j]) && self.row(k, j).kind is Field && self.row(k, j).children@.len() == 0
        &&& forall|k: int, j: int, l: int, i: int| 0 <= k < self.tabs().len() && 0 <= j < self.rows(k).len() && 0 <= l < self.tabs().len() && 0 <= i < self.rows(l).len() && (k != l || j != i)
                ==> #[trigger] self.rows(k)[j] != #[trigger] self.rows(l)[i]
    }
    /// Nothing is placed yet.
    pub open spec fn fresh(&self) -> bool {
        forall|n: int| 0 <= n < self.len() ==> (#[trigger] self.graph.ns@[n]).terminal_ports@.len() == 0 && self.graph.ns@[n].origin.is_none() && self.graph.ns@[n].size.is_none()
    }
    pub open spec fn is_shape(&self, i: NodeId) -> bool {
        ||| exists|k: int| 0 <= k < self.tabs().len() && i == #[trigger] self.tabs()[k]
        ||| exists|k: int, j: int| 0 <= k < self.tabs().len() && 0 <= j < self.rows(k).len() && i == #[trigger] self.rows(k)[j]
    }
    pub open spec fn wf_edges(&self) -> bool {
        &&& self.graph.gwf()
        &&& forall|e: int| 0 <= e < self.n_rel() ==> (#[trigger] self.rel(e)).source_id.0 == self.graph.ends@[e].0 && self.rel(e).target_id.0 == self.graph.ends@[e].1
                && self.is_shape(self.rel(e).source_id) && self.is_shape(self.rel(e).target_id)
    }
    pub open spec fn wf(&self) -> bool { self.wf_tree() && self.wf_edges() }
}
%fn NodeData::new C01
    ensures r.kind == kind, r.origin.is_none(), r.size.is_none(), r.terminal_ports@.len() == 0, r.children@.len() == 0,
%fn NodeData::kind C01 C03
    ensures *r == self.kind,
%fn NodeData::children C01 C03
    ensures r@ == self.children@,
%fn NodeData::append_child C01
    ensures final(self).children@ == old(self).children@.push(node_id), final(self).kind == old(self).kind, final(self).same_geo(*old(self)),
%fn NodeData::rect C03 C04 C05 C12 C13
    ensures r.is_some() == self.has_rect(), r.is_some() ==> r.unwrap() == self.rc(),
%fn NodeData::terminal_ports C05 C06
    ensures r@.len() == self.terminal_ports@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.terminal_ports@[j],
%fn NodeData::add_terminal_port C05
    ensures final(self).terminal_ports@ == old(self).terminal_ports@.push(TerminalPort { id: TerminalPortId(node_id, old(self).terminal_ports@.len() as usize), location: location, orientation: orientation }),
        final(self).same_tree(*old(self)), final(self).origin == old(self).origin, final(self).size == old(self).size,
%fn EdgeData::new C02
    ensures r.source_id == source_id, r.target_id == target_id, r.path_points == path_points,
%fn EdgeData::source_id C02 C06
    ensures r == self.source_id,
%fn EdgeData::target_id C02 C06
    ensures r == self.target_id,
%fn EdgeData::path_points C06 C12
    ensures r.is_some() == self.path_points.is_some(), r.is_some() ==> r.unwrap()@ == self.path_points.unwrap()@,
%fn EdgeData::set_path_points C06
    ensures final(self).source_id == old(self).source_id, final(self).target_id == old(self).target_id, final(self).path_points == path_points,
%fn TerminalPort::new C05
    ensures r.id == id, r.location == location, r.orientation == orientation,
%fn TerminalPort::id C05 C06
    ensures r == self.id,
%fn TerminalPort::location C05 C06
    ensures *r == self.location,
%fn TerminalPort::orientation C05 C07
    ensures r == self.orientation,
%fn Document::new C01
    ensures r.wf(), r.tabs().len() == 0, r.len() == 1, r.n_rel() == 0, r.fresh(),
%fn Document::body C01 C03
    requires self.has(self.body_id),
    ensures *r == self.nd(self.body_id),
%fn Document::body_mut C01
    requires old(self).has(old(self).body_id),
    ensures *r == old(self).nd(old(self).body_id),
        final(self).graph.ns@ == old(self).graph.ns@.update(old(self).body_id.0.i as int, *final(r)),
        final(self).body_id == old(self).body_id, final(self).graph.es == old(self).graph.es, final(self).graph.ends == old(self).graph.ends,
%fn Document::get_node C01 C03
    ensures r.is_some() == self.has(node_id), r.is_some() ==> *r.unwrap() == self.nd(node_id),
%fn Document::get_node_mut C01 C03
    ensures r.is_some() == old(self).has(node_id),
        r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> *r.unwrap() == old(self).nd(node_id) && final(self).graph.ns@ == old(self).graph.ns@.update(node_id.0.i as int, *final(r.unwrap())),
        final(self).body_id == old(self).body_id, final(self).graph.es == old(self).graph.es, final(self).graph.ends == old(self).graph.ends,
%fn Document::create_record C01
    ensures r.0.i == old(self).len(), final(self).len() == old(self).len() + 1, old(self).fresh() ==> final(self).fresh(),
        forall|n: int| 0 <= n < old(self).len() ==> #[trigger] final(self).graph.ns@[n] == old(self).graph.ns@[n],
        final(self).nd(r).kind == ShapeKind::Record(record), final(self).nd(r).children@.len() == 0, final(self).nd(r).terminal_ports@.len() == 0, final(self).nd(r).origin.is_none(), final(self).nd(r).size.is_none(),
        final(self).body_id == old(self).body_id, final(self).graph.es == old(self).graph.es, final(self).graph.ends == old(self).graph.ends,
%fn Document::create_field C01
    ensures r.0.i == old(self).len(), final(self).len() == old(self).len() + 1, old(self).fresh() ==> final(self).fresh(),
        forall|n: int| 0 <= n < old(self).len() ==> #[trigger] final(self).graph.ns@[n] == old(self).graph.ns@[n],
        final(self).nd(r).kind == ShapeKind::Field(field), final(self).nd(r).children@.len() == 0, final(self).nd(r).terminal_ports@.len() == 0, final(self).nd(r).origin.is_none(), final(self).nd(r).size.is_none(),
        final(self).body_id == old(self).body_id, final(self).graph.es == old(self).graph.es, final(self).graph.ends == old(self).graph.ends,
%fn Document::edge_endpoints C02 C06
    ensures r.is_some() == (edge_id.0.i < self.graph.ends@.len()), r.is_some() ==> r.unwrap().0.0 == self.graph.ends@[edge_id.0.i as int].0 && r.unwrap().1.0 == self.graph.ends@[edge_id.0.i as int].1,
%fn Document::edge C02 C06
    ensures r.is_some() == (edge_id.0.i < self.n_rel()), r.is_some() ==> *r.unwrap() == self.rel(edge_id.0.i as int),
%fn Document::edge_ids C02 C06
    ensures r@.len() == self.n_rel(), forall|e: int| 0 <= e < r@.len() ==> (#[trigger] r@[e]).0.i == e,
%loop 1 before
let mut vx_o1: Vec<EdgeId> = vx_o1;
%loop 1
    vx_o1@.len() == vx_i1, forall|e: int| 0 <= e < vx_i1 ==> (#[trigger] vx_o1@[e]).0.i == e,
%fn Document::edges C02 C06
    ensures r@.len() == self.n_rel(), forall|e: int| 0 <= e < r@.len() ==> *(#[trigger] r@[e]) == self.rel(e),
%mutiter Document::edges_mut C06
    ensures r == self.n_rel(),
=====
    requires vx_k < old(self).n_rel(),
    ensures *r == old(self).rel(vx_k as int), final(self).graph.es@ == old(self).graph.es@.update(vx_k as int, *final(r)),
        final(self).graph.ns == old(self).graph.ns, final(self).graph.ends == old(self).graph.ends, final(self).body_id == old(self).body_id,
%fn Document::add_edge C02
    requires old(self).graph.gwf(), old(self).has(edge.source_id), old(self).has(edge.target_id),
    ensures r.0.i == old(self).n_rel(), final(self).graph.es@ == old(self).graph.es@.push(edge), final(self).graph.ends@ == old(self).graph.ends@.push((edge.source_id.0, edge.target_id.0)),
        final(self).graph.ns == old(self).graph.ns, final(self).body_id == old(self).body_id, final(self).graph.gwf(),
%fn Badge::into_text_span C12
    ensures r.text@ == self.text@,
