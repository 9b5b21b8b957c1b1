%verbatim
// ------------------------------------------------------------------ petgraph (reference implementation, verified; trusted to describe UnGraph)
// Indices are handed out in order and never reused (the repository never removes nodes or edges).
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex { pub i: usize }
impl NodeIndex { pub fn index(self) -> (r: usize) ensures r == self.i { self.i } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct EdgeIndex { pub i: usize }
impl EdgeIndex { pub fn index(self) -> (r: usize) ensures r == self.i { self.i } }
#[derive(Clone, Copy)]
pub struct EdgeRef { pub s: NodeIndex, pub t: NodeIndex, pub k: EdgeIndex }
impl EdgeRef {
    pub fn source(&self) -> (r: NodeIndex) ensures r == self.s { self.s }
    pub fn target(&self) -> (r: NodeIndex) ensures r == self.t { self.t }
    pub fn id(&self) -> (r: EdgeIndex) ensures r == self.k { self.k }
}
pub struct VxGraph<N, E> { pub ns: Vec<N>, pub es: Vec<E>, pub ends: Vec<(NodeIndex, NodeIndex)> }
impl<N, E> VxGraph<N, E> {
    pub open spec fn gwf(&self) -> bool {
        &&& self.es@.len() == self.ends@.len()
        &&& forall|k: int| 0 <= k < self.ends@.len() ==> (#[trigger] self.ends@[k]).0.i < self.ns@.len() && self.ends@[k].1.i < self.ns@.len()
    }
    /// The edge k leads from n to m (edges have no direction).
    pub open spec fn links(&self, k: int, n: NodeIndex, m: NodeIndex) -> bool {
        0 <= k < self.ends@.len() && (self.ends@[k] == (n, m) || self.ends@[k] == (m, n))
    }
    pub fn new_undirected() -> (r: Self) ensures r.gwf(), r.ns@.len() == 0, r.es@.len() == 0, r.ends@.len() == 0 { VxGraph { ns: Vec::new(), es: Vec::new(), ends: Vec::new() } }
    pub fn node_count(&self) -> (r: usize) ensures r == self.ns@.len() { self.ns.len() }
    pub fn node_weight(&self, n: NodeIndex) -> (r: Option<&N>)
        ensures r.is_some() == (n.i < self.ns@.len()), r.is_some() ==> *r.unwrap() == self.ns@[n.i as int]
    { if n.i < self.ns.len() { Some(&self.ns[n.i]) } else { None } }
    pub fn node_weight_mut(&mut self, n: NodeIndex) -> (r: Option<&mut N>)
        ensures r.is_some() == (n.i < old(self).ns@.len()),
            final(self).es == old(self).es, final(self).ends == old(self).ends,
            r.is_none() ==> *final(self) == *old(self),
            r.is_some() ==> *r.unwrap() == old(self).ns@[n.i as int] && final(self).ns@ == old(self).ns@.update(n.i as int, *final(r.unwrap())),
    { if n.i < self.ns.len() { Some(&mut self.ns[n.i]) } else { None } }
    pub fn add_node(&mut self, x: N) -> (r: NodeIndex)
        ensures r.i == old(self).ns@.len(), final(self).ns@ == old(self).ns@.push(x), final(self).es == old(self).es, final(self).ends == old(self).ends, old(self).gwf() ==> final(self).gwf(),
    { let r = NodeIndex { i: self.ns.len() }; self.ns.push(x); r }
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, x: E) -> (r: EdgeIndex)
        requires a.i < old(self).ns@.len(), b.i < old(self).ns@.len(), old(self).gwf(),
        ensures r.i == old(self).es@.len(), final(self).es@ == old(self).es@.push(x), final(self).ends@ == old(self).ends@.push((a, b)), final(self).ns == old(self).ns, final(self).gwf(),
    { let r = EdgeIndex { i: self.es.len() }; self.es.push(x); self.ends.push((a, b)); r }
    pub fn node_indices(&self) -> (r: Vec<NodeIndex>)
        ensures r@.len() == self.ns@.len(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).i == j,
    {
        let mut v: Vec<NodeIndex> = Vec::new(); let n = self.ns.len();
        for k in 0..n invariant v@.len() == k, n == self.ns@.len(), forall|j: int| 0 <= j < k ==> (#[trigger] v@[j]).i == j { v.push(NodeIndex { i: k }); }
        v
    }
    pub fn edge_indices(&self) -> (r: Vec<EdgeIndex>)
        ensures r@.len() == self.es@.len(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).i == j,
    {
        let mut v: Vec<EdgeIndex> = Vec::new(); let n = self.es.len();
        for k in 0..n invariant v@.len() == k, n == self.es@.len(), forall|j: int| 0 <= j < k ==> (#[trigger] v@[j]).i == j { v.push(EdgeIndex { i: k }); }
        v
    }
    pub fn node_weights(&self) -> (r: Vec<&N>)
        ensures r@.len() == self.ns@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.ns@[j],
    { vx_refs(&self.ns) }
    pub fn edge_weights(&self) -> (r: Vec<&E>)
        ensures r@.len() == self.es@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.es@[j],
    { vx_refs(&self.es) }
    pub fn edge_weight(&self, k: EdgeIndex) -> (r: Option<&E>)
        ensures r.is_some() == (k.i < self.es@.len()), r.is_some() ==> *r.unwrap() == self.es@[k.i as int]
    { if k.i < self.es.len() { Some(&self.es[k.i]) } else { None } }
    pub fn edge_endpoints(&self, k: EdgeIndex) -> (r: Option<(NodeIndex, NodeIndex)>)
        ensures r.is_some() == (k.i < self.ends@.len()), r.is_some() ==> r.unwrap() == self.ends@[k.i as int]
    { if k.i < self.ends.len() { Some(self.ends[k.i]) } else { None } }
    pub fn edge_weights_mut__len(&self) -> (r: usize) ensures r == self.es@.len() { self.es.len() }
    pub fn edge_weights_mut__at(&mut self, k: usize) -> (r: &mut E)
        requires k < old(self).es@.len(),
        ensures *r == old(self).es@[k as int], final(self).es@ == old(self).es@.update(k as int, *final(r)), final(self).ns == old(self).ns, final(self).ends == old(self).ends,
    { &mut self.es[k] }
    /// The edges at a node, seen from it.
    pub fn edges(&self, n: NodeIndex) -> (r: Vec<EdgeRef>)
        requires self.gwf(),
        ensures
            forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).s == n && r@[j].k.i < self.ends@.len() && self.links(r@[j].k.i as int, n, r@[j].t),
            forall|k: int, m: NodeIndex| #[trigger] self.links(k, n, m) ==> exists|j: int| 0 <= j < r@.len() && (#[trigger] r@[j]).t == m,
    {
        let mut v: Vec<EdgeRef> = Vec::new(); let c = self.ends.len();
        for k in 0..c
            invariant c == self.ends@.len(),
                forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).s == n && v@[j].k.i < self.ends@.len() && self.links(v@[j].k.i as int, n, v@[j].t),
                forall|q: int, m: NodeIndex| q < k && #[trigger] self.links(q, n, m) ==> exists|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).t == m,
        {
            let (a, b) = self.ends[k];
            let ghost v0 = v@;
            if a == n { let e = EdgeRef { s: n, t: b, k: EdgeIndex { i: k } }; assert(self.links(k as int, n, b)); v.push(e); assert(v@[v@.len() - 1].t == b); }
            else if b == n { let e = EdgeRef { s: n, t: a, k: EdgeIndex { i: k } }; assert(self.links(k as int, n, a)); v.push(e); assert(v@[v@.len() - 1].t == a); }
            assert forall|q: int, m: NodeIndex| q < k + 1 && #[trigger] self.links(q, n, m) implies exists|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).t == m by {
                if q < k { let j = choose|j: int| 0 <= j < v0.len() && (#[trigger] v0[j]).t == m; assert(v@[j].t == m); }
            }
        }
        v
    }
}
// ------------------------------------------------------------------ std::collections::HashMap
pub trait VxKey { type K; spec fn vx_key(&self) -> Self::K; }
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
#[verifier::accept_recursive_types(T)]
pub struct VxMap<Q: VxKey, T> { m: Vec<(Q, T)> }
impl<Q: VxKey, T> VxMap<Q, T> {
    pub uninterp spec fn view(&self) -> Map<Q::K, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Q::K, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Q, x: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k.vx_key(), x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Q) -> (r: Option<&T>) ensures r.is_some() == self@.contains_key(k.vx_key()), r.is_some() ==> *r.unwrap() == self@[k.vx_key()] { unimplemented!() }
}
