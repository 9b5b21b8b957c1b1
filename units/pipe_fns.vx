%verbatim
// ------------------------------------------------------------------ from a module to its routes: the calls every program makes, checked against the contracts alone
pub proof fn lemma_which_entity(es: Seq<ModuleEntry>, i: int, k: int) -> (q: int)
    requires 0 <= k < n_ents(es, i), i <= es.len(),
    ensures 0 <= q < i, es[q] is EntityDefinition, n_ents(es, q) == k,
    decreases i,
{
    if i <= 0 { 0 } else if es[i - 1] is EntityDefinition && n_ents(es, i - 1) == k { i - 1 } else { lemma_which_entity(es, i - 1, k) }
}
/// Every table of a converted module has a row.
pub proof fn lemma_rows(d: Document, es: Seq<ModuleEntry>)
    requires tables_done(d, es, es.len() as int),
    ensures forall|k: int| 0 <= k < d.tabs().len() ==> (#[trigger] d.rows(k)).len() > 0,
{
    assert forall|k: int| 0 <= k < d.tabs().len() implies (#[trigger] d.rows(k)).len() > 0 by { let q = lemma_which_entity(es, es.len() as int, k); assert(mirrors(d, n_ents(es, q), def(es, q))); }
}
pub proof fn lemma_laid(a: Document, b: Document, c: Document, es: Seq<ModuleEntry>)
    requires a.wf(), a.fresh(), fits(a), tables_done(a, es, es.len() as int), same_but_place(a, b), b.wf(), placed(b, b.tabs().len() as int), same_but_ports(b, c), c.wf(), ports_ok(c, c.tabs().len() as int),
    ensures laid(c), same_tree(a, c),
{
    lemma_same_tree(a, b); lemma_same_tree(b, c); lemma_rows(a, es);
    assert forall|k: int| 0 <= k < c.tabs().len() implies #[trigger] placed_table(c, k) by { assert(placed_table(b, k)); assert(c.nd(b.tabs()[k]).same_tree(b.nd(b.tabs()[k]))); assert(c.rows(k) == b.rows(k)); assert(by(c, k) == by(b, k)); }
    assert forall|k: int, j: int| 0 <= k < c.tabs().len() && 0 <= j < c.rows(k).len() implies #[trigger] placed_row(c, k, j) by { assert(c.rows(k) == b.rows(k)); assert(placed_row(b, k, j)); assert(c.nd(b.rows(k)[j]).same_tree(b.nd(b.rows(k)[j]))); assert(by(c, k) == by(b, k)); }
    assert forall|k: int| 0 <= k < c.tabs().len() implies (#[trigger] c.rows(k)).len() > 0 by { assert(c.rows(k) == a.rows(k)); }
    assert forall|n: int| 0 <= n < a.len() implies (#[trigger] c.graph.ns@[n]).same_tree(a.graph.ns@[n]) by { assert(b.graph.ns@[n].same_tree(a.graph.ns@[n])); }
}
pub proof fn lemma_laid_placed(c: Document) requires laid(c) ensures placed(c, c.tabs().len() as int) { }
pub proof fn lemma_net_uniq(g: RouteGraph, d: Document) requires net_fine(g, d) ensures g.uniq() { }
pub proof fn lemma_same_nodes_doc(c: Document, e: Document)
    requires same_but_routes(c, e), c.wf(),
    ensures e.wf(), e.tabs() == c.tabs(), forall|k: int| #[trigger] e.rows(k) == c.rows(k), forall|k: int| #[trigger] e.tab(k) == c.tab(k), forall|k: int, j: int| #[trigger] e.row(k, j) == c.row(k, j),
{
    assert(e.tabs() == c.tabs());
    assert forall|k: int| #[trigger] e.rows(k) == c.rows(k) by {} assert forall|k: int| #[trigger] e.tab(k) == c.tab(k) by {} assert forall|k: int, j: int| #[trigger] e.row(k, j) == c.row(k, j) by {}
    assert(e.wf_tree()) by {
        assert forall|k: int| 0 <= k < e.tabs().len() implies e.has(#[trigger] e.tabs()[k]) && e.tab(k).kind is Record by { assert(c.has(c.tabs()[k])); }
        assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() implies e.has(#[trigger] e.rows(k)[j]) && e.row(k, j).kind is Field && e.row(k, j).children@.len() == 0 by { assert(c.has(c.rows(k)[j])); }
        assert forall|k: int, j: int, l: int, i: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() && 0 <= l < e.tabs().len() && 0 <= i < e.rows(l).len() && (k != l || j != i) implies #[trigger] e.rows(k)[j] != #[trigger] e.rows(l)[i] by { assert(c.rows(k)[j] != c.rows(l)[i]); }
    }
    assert forall|x: int| 0 <= x < e.n_rel() implies (#[trigger] e.rel(x)).source_id.0 == e.graph.ends@[x].0 && e.rel(x).target_id.0 == e.graph.ends@[x].1 && e.is_shape(e.rel(x).source_id) && e.is_shape(e.rel(x).target_id) by {
        assert(c.is_shape(c.rel(x).source_id)); assert(c.is_shape(c.rel(x).target_id)); lemma_shape_too(c, e, c.rel(x).source_id); lemma_shape_too(c, e, c.rel(x).target_id); }
}
pub proof fn lemma_shape_too(c: Document, e: Document, z: NodeId)
    requires e.tabs() == c.tabs(), forall|k: int| #[trigger] e.rows(k) == c.rows(k), c.is_shape(z),
    ensures e.is_shape(z),
{
    if exists|k: int| 0 <= k < c.tabs().len() && z == #[trigger] c.tabs()[k] { let k = choose|k: int| 0 <= k < c.tabs().len() && z == #[trigger] c.tabs()[k]; assert(z == e.tabs()[k]); }
    else { let (k, j) = choose|k: int, j: int| 0 <= k < c.tabs().len() && 0 <= j < c.rows(k).len() && z == #[trigger] c.rows(k)[j]; assert(z == e.rows(k)[j]); }
}
pub proof fn lemma_still(b: Document, c: Document, e: Document, v: Rect)
    requires b.wf(), grid_ok(b), tiled(b), view_ok(b, v), same_but_ports(b, c), c.wf(), ports_ok(c, c.tabs().len() as int), same_but_routes(c, e), placed(c, c.tabs().len() as int),
    ensures placed(e, e.tabs().len() as int), e.wf(), grid_ok(e), tiled(e), view_ok(e, v), ports_ok(e, e.tabs().len() as int),
{
    lemma_same_nodes_doc(c, e); lemma_same_tree(b, c);
    assert forall|k: int| 0 <= k < e.tabs().len() implies (#[trigger] e.tab(k)).has_rect() == b.tab(k).has_rect() && e.tab(k).rc() == b.tab(k).rc() by { assert(c.nd(b.tabs()[k]).origin == b.nd(b.tabs()[k]).origin); }
    assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() implies (#[trigger] e.row(k, j)).has_rect() == b.row(k, j).has_rect() && e.row(k, j).rc() == b.row(k, j).rc() by { assert(c.rows(k) == b.rows(k)); assert(c.nd(b.rows(k)[j]).origin == b.nd(b.rows(k)[j]).origin); }
    assert forall|k: int| 0 <= k < e.tabs().len() implies #[trigger] e.rows(k) == b.rows(k) by { assert(c.rows(k) == b.rows(k)); }

    assert(grid_ok(e));
    assert(tiled(e)) by {
        assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() implies (#[trigger] e.row(k, j)).has_rect() && e.row(k, j).rc().ok() && e.row(k, j).rc().X0() == e.tab(k).rc().X0() && e.row(k, j).rc().W() == e.tab(k).rc().W()
            && e.row(k, j).rc().H() > 0 && e.row(k, j).rc().H() == e.row(k, 0).rc().H() by { assert(b.row(k, j).has_rect()); }
        assert forall|k: int| 0 <= k < e.tabs().len() && e.rows(k).len() > 0 implies (#[trigger] e.row(k, 0)).rc().Y0() == e.tab(k).rc().Y0() && e.row(k, e.rows(k).len() - 1).rc().Y1() == e.tab(k).rc().Y1() by { assert(b.row(k, 0).rc().Y0() == b.tab(k).rc().Y0()); assert(e.row(k, e.rows(k).len() - 1).rc() == b.row(k, b.rows(k).len() - 1).rc()); }
        assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 < j < e.rows(k).len() implies (#[trigger] e.row(k, j)).rc().Y0() == e.row(k, j - 1).rc().Y1() by { assert(b.row(k, j).rc().Y0() == b.row(k, j - 1).rc().Y1()); assert(e.row(k, j - 1).rc() == b.row(k, j - 1).rc()); }
    }
    assert(view_ok(e, v));
    assert forall|k: int| 0 <= k < e.tabs().len() implies #[trigger] placed_table(e, k) by { assert(placed_table(c, k)); lemma_same_by(c, e, k); }
    assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() implies #[trigger] placed_row(e, k, j) by { assert(placed_row(c, k, j)); lemma_same_by(c, e, k); }
    assert forall|k: int| 0 <= k < e.tabs().len() implies #[trigger] ports_table(e, k) by { assert(ports_table(c, k)); }
    assert forall|k: int, j: int| 0 <= k < e.tabs().len() && 0 <= j < e.rows(k).len() implies #[trigger] ports_row(e, k, j) by { assert(ports_row(c, k, j)); assert(c.rows(k) == e.rows(k)); }
}
/// Nothing that was converted is lost on the way.
pub open spec fn edges_kept(doc: Document, es: Seq<ModuleEntry>) -> bool {
    &&& doc.n_rel() == known_rels(es, es.len() as int).len()
    &&& forall|e: int| 0 <= e < doc.n_rel() ==> (#[trigger] doc.rel(e)).source_id == node_of(doc, es, known_rels(es, es.len() as int)[e].0) && doc.rel(e).target_id == node_of(doc, es, known_rels(es, es.len() as int)[e].1)
}
pub proof fn lemma_mirrored(a: Document, b: Document, c: Document, e: Document, es: Seq<ModuleEntry>)
    requires a.wf(), same_but_place(a, b), b.wf(), same_but_ports(b, c), c.wf(), same_but_routes(c, e), tables_done(a, es, es.len() as int), edges_done(a, es, es.len() as int),
    ensures tables_done(e, es, es.len() as int), edges_kept(e, es),
{
    lemma_same_tree(a, b); lemma_same_tree(b, c); lemma_same_nodes_doc(c, e);
    let n = es.len() as int;
    assert forall|k: int| 0 <= k < a.tabs().len() implies #[trigger] e.rows(k) == a.rows(k) by { assert(b.rows(k) == a.rows(k)); assert(c.rows(k) == b.rows(k)); }
    assert forall|x: int| 0 <= x < a.len() implies (#[trigger] e.graph.ns@[x]).same_tree(a.graph.ns@[x]) by { assert(b.graph.ns@[x].same_tree(a.graph.ns@[x])); assert(c.graph.ns@[x].same_tree(b.graph.ns@[x])); }
    assert forall|q: int| 0 <= q < n && (#[trigger] es[q]) is EntityDefinition implies mirrors(e, n_ents(es, q), def(es, q)) by {
        let k = n_ents(es, q); let f = def(es, q);
        assert(mirrors(a, k, f));
        assert(e.rows(k) == a.rows(k));
        assert(a.has(a.rows(k)[0])); assert(e.row(k, 0).same_tree(a.row(k, 0)));
        assert forall|j: int| 0 <= j < f.fields@.len() implies field_row(e.row(k, j + 1), #[trigger] f.fields@[j]) by { assert(field_row(a.row(k, j + 1), f.fields@[j])); assert(a.has(a.rows(k)[j + 1])); assert(e.row(k, j + 1).same_tree(a.row(k, j + 1))); }
    }
    assert(e.n_rel() == a.n_rel());
    assert forall|i: int| 0 <= i < e.n_rel() implies (#[trigger] e.rel(i)).source_id == node_of(e, es, known_rels(es, n)[i].0) && e.rel(i).target_id == node_of(e, es, known_rels(es, n)[i].1) by {
        let r = known_rels(es, n)[i];
        assert(c.rel(i) == a.rel(i)); assert(e.rel(i).source_id == c.rel(i).source_id);
        lemma_known_rel(es, n, i);
        lemma_table_of(es, n, r.0.0); lemma_table_of(es, n, r.1.0);
        assert(e.rows(n_ents(es, r.0.0)) == a.rows(n_ents(es, r.0.0))); assert(e.rows(n_ents(es, r.1.0)) == a.rows(n_ents(es, r.1.0)));
    }
}
pub proof fn lemma_table_of(es: Seq<ModuleEntry>, n: int, q: int)
    requires 0 <= q < n <= es.len(), es[q] is EntityDefinition,
    ensures 0 <= n_ents(es, q) < n_ents(es, n),
    decreases n
{
    lemma_count(es, q);
    if q < n - 1 { lemma_table_of(es, n - 1, q); }
}
pub proof fn lemma_count(es: Seq<ModuleEntry>, i: int)
    ensures n_ents(es, i) >= 0,
    decreases i
{ if i > 0 { lemma_count(es, i - 1); } }
/// Both ends of a known relation are defined.
pub proof fn lemma_known_rel(es: Seq<ModuleEntry>, n: int, i: int)
    requires 0 <= n <= es.len(), 0 <= i < known_rels(es, n).len(),
    ensures ({ let r = known_rels(es, n)[i]; 0 <= r.0.0 < n && 0 <= r.1.0 < n && es[r.0.0] is EntityDefinition && es[r.1.0] is EntityDefinition }),
    decreases n
{
    if n > 0 {
        let m = known_rels(es, n - 1);
        if i < m.len() { lemma_known_rel(es, n - 1, i); assert(known_rels(es, n)[i] == m[i]); }
        else if es[n - 1] is EntityRelation { let r = es[n - 1]->EntityRelation_0; resolve_bounds(es, n - 1, r.start_path.named()); resolve_bounds(es, n - 1, r.end_path.named()); }
    }
}
