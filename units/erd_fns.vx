%include ast_defs.vx
%verbatim
impl VxKey for EntityPath { type K = Named; open spec fn vx_key(&self) -> Named { self.named() } }
pub open spec fn type_keyword(t: EntityFieldType) -> Seq<char> {
    match t { EntityFieldType::Int => "int"@, EntityFieldType::Uuid => "uuid"@, EntityFieldType::Text => "text"@, EntityFieldType::Timestamp => "timestamp"@ }
}
pub open spec fn key_keyword(k: EntityFieldKey) -> Seq<char> { match k { EntityFieldKey::PrimaryKey => "PK"@, EntityFieldKey::ForeginKey => "FK"@ } }
/// The row is the header of the table named `name`.
pub open spec fn header_row(d: NodeData, name: Seq<char>) -> bool {
    d.kind is Field && d.kind->Field_0.title.text@ == name && d.kind->Field_0.subtitle.is_none() && d.kind->Field_0.badge.is_none()
}
/// The row shows the field.
pub open spec fn field_row(d: NodeData, f: EntityField) -> bool {
    &&& d.kind is Field && d.kind->Field_0.title.text@ == f.name@
    &&& d.kind->Field_0.subtitle.is_some() && d.kind->Field_0.subtitle.unwrap().text@ == type_keyword(f.field_type)
    &&& d.kind->Field_0.badge.is_some() == f.field_key.is_some()
    &&& f.field_key.is_some() ==> d.kind->Field_0.badge.unwrap().text@ == key_keyword(f.field_key.unwrap())
}
/// Entities among the first i entries.
pub open spec fn n_ents(es: Seq<ModuleEntry>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { n_ents(es, i - 1) + (if es[i - 1] is EntityDefinition { 1int } else { 0 }) }
}
pub open spec fn def(es: Seq<ModuleEntry>, i: int) -> EntityDefinition { es[i]->EntityDefinition_0 }
/// The k-th table mirrors the definition.
pub open spec fn mirrors(doc: Document, k: int, d: EntityDefinition) -> bool {
    &&& 0 <= k < doc.tabs().len() && doc.rows(k).len() == d.fields@.len() + 1
    &&& header_row(doc.row(k, 0), d.name@)
    &&& forall|j: int| 0 <= j < d.fields@.len() ==> field_row(doc.row(k, j + 1), #[trigger] d.fields@[j])
}
/// The last of the first n fields with that name, or -1.
pub open spec fn last_field(fs: Seq<EntityField>, n: int, f: Seq<char>) -> int decreases n {
    if n <= 0 { -1 } else if fs[n - 1].name@ == f { n - 1 } else { last_field(fs, n - 1, f) }
}
/// What a path names among the first i entries: the entry of the table, and the field (-1: the table itself).
pub open spec fn resolve(es: Seq<ModuleEntry>, i: int, p: Named) -> Option<(int, int)> decreases i {
    if i <= 0 { None }
    else if es[i - 1] is EntityDefinition {
        match p {
            Named::Table(e) => if def(es, i - 1).name@ == e { Some((i - 1, -1)) } else { resolve(es, i - 1, p) },
            Named::Column(e, f) => if def(es, i - 1).name@ == e && last_field(def(es, i - 1).fields@, def(es, i - 1).fields@.len() as int, f) >= 0 {
                Some((i - 1, last_field(def(es, i - 1).fields@, def(es, i - 1).fields@.len() as int, f)))
            } else { resolve(es, i - 1, p) },
        }
    } else { resolve(es, i - 1, p) }
}
pub open spec fn node_of(doc: Document, es: Seq<ModuleEntry>, r: (int, int)) -> NodeId {
    if r.1 < 0 { doc.tabs()[n_ents(es, r.0)] } else { doc.rows(n_ents(es, r.0))[r.1 + 1] }
}
/// The relations among the first i entries whose two ends are known by then, in order.
pub open spec fn known_rels(es: Seq<ModuleEntry>, i: int) -> Seq<((int, int), (int, int))> decreases i {
    if i <= 0 { Seq::empty() }
    else if es[i - 1] is EntityRelation {
        let r = es[i - 1]->EntityRelation_0;
        let (a, b) = (resolve(es, i - 1, r.start_path.named()), resolve(es, i - 1, r.end_path.named()));
        if a.is_some() && b.is_some() { known_rels(es, i - 1).push((a.unwrap(), b.unwrap())) } else { known_rels(es, i - 1) }
    } else { known_rels(es, i - 1) }
}
/// C01 for the first i entries.
pub open spec fn tables_done(doc: Document, es: Seq<ModuleEntry>, i: int) -> bool {
    &&& doc.tabs().len() == n_ents(es, i)
    &&& forall|q: int| 0 <= q < i && (#[trigger] es[q]) is EntityDefinition ==> mirrors(doc, n_ents(es, q), def(es, q))
}
/// C02 for the first i entries.
pub open spec fn edges_done(doc: Document, es: Seq<ModuleEntry>, i: int) -> bool {
    &&& doc.n_rel() == known_rels(es, i).len()
    &&& forall|e: int| 0 <= e < doc.n_rel() ==> (#[trigger] doc.rel(e)).source_id == node_of(doc, es, known_rels(es, i)[e].0) && doc.rel(e).target_id == node_of(doc, es, known_rels(es, i)[e].1)
            && doc.rel(e).path_points.is_none()
}
pub open spec fn paths_done(doc: Document, es: Seq<ModuleEntry>, i: int, m: Map<Named, NodeId>) -> bool {
    forall|p: Named| #[trigger] m.contains_key(p) == resolve(es, i, p).is_some() && (m.contains_key(p) ==> m[p] == node_of(doc, es, resolve(es, i, p).unwrap()))
}
pub proof fn resolve_bounds(es: Seq<ModuleEntry>, i: int, p: Named)
    requires i <= es.len(),
    ensures resolve(es, i, p).is_some() ==> {
        let (q, f) = resolve(es, i, p).unwrap();
        0 <= q < i && es[q] is EntityDefinition && f < def(es, q).fields@.len() && 0 <= n_ents(es, q) < n_ents(es, i) },
    decreases i
{
    n_ents_mono(es, i);
    if i > 0 { resolve_bounds(es, i - 1, p); n_ents_mono(es, i - 1);
        if es[i - 1] is EntityDefinition && p is Column { last_bounds(def(es, i - 1).fields@, def(es, i - 1).fields@.len() as int, p->Column_1); } }
}
pub proof fn last_bounds(fs: Seq<EntityField>, n: int, f: Seq<char>) ensures -1 <= last_field(fs, n, f), n >= 0 ==> last_field(fs, n, f) < n decreases n { if n > 0 { last_bounds(fs, n - 1, f); } }
pub proof fn n_ents_mono(es: Seq<ModuleEntry>, i: int) ensures n_ents(es, i) >= 0, forall|q: int| q <= i ==> #[trigger] n_ents(es, q) <= n_ents(es, i), forall|q: int| 0 <= q < i && (#[trigger] es[q]) is EntityDefinition ==> n_ents(es, q) < n_ents(es, i) decreases i {
    if i > 0 { n_ents_mono(es, i - 1); }
}
pub proof fn known_bounds(es: Seq<ModuleEntry>, i: int)
    requires i <= es.len(),
    ensures forall|e: int| 0 <= e < known_rels(es, i).len() ==> {
        let ((q, f), (r, g)) = #[trigger] known_rels(es, i)[e];
        0 <= q < i && es[q] is EntityDefinition && f < def(es, q).fields@.len() && 0 <= r < i && es[r] is EntityDefinition && g < def(es, r).fields@.len() },
    decreases i
{
    if i > 0 { known_bounds(es, i - 1);
        if es[i - 1] is EntityRelation { let r = es[i - 1]->EntityRelation_0; resolve_bounds(es, i - 1, r.start_path.named()); resolve_bounds(es, i - 1, r.end_path.named()); } }
}
/// d is d0 with a table added at the end: header h, rows fids, record r.
pub open spec fn table_added(d0: Document, d: Document, h: NodeId, fids: Seq<NodeId>, r: NodeId, e: EntityDefinition) -> bool {
    &&& d.body_id == d0.body_id && d.graph.es == d0.graph.es && d.graph.ends == d0.graph.ends && d.len() > d0.len()
    &&& d.nd(d.body_id).kind == d0.nd(d.body_id).kind && d.tabs() == d0.tabs().push(r)
    &&& forall|n: int| 0 <= n < d0.len() && n != d.body_id.0.i ==> #[trigger] d.graph.ns@[n] == d0.graph.ns@[n]
    &&& d.fresh()
    &&& d0.len() <= h.0.i < d.len() && d0.len() <= r.0.i < d.len() && d.nd(r).kind is Record && d.nd(r).children@ == seq![h] + fids
    &&& header_row(d.nd(h), e.name@) && d.nd(h).children@.len() == 0
    &&& fids.len() == e.fields@.len()
    &&& forall|j: int| 0 <= j < fids.len() ==> d0.len() <= (#[trigger] fids[j]).0.i < d.len() && fids[j] != h && d.nd(fids[j]).children@.len() == 0
    &&& forall|j: int| 0 <= j < fids.len() ==> field_row(d.nd(#[trigger] fids[j]), e.fields@[j])
    &&& forall|j: int, l: int| 0 <= j < l < fids.len() ==> #[trigger] fids[j] != #[trigger] fids[l]
}
pub proof fn lemma_table_added(d0: Document, d: Document, h: NodeId, fids: Seq<NodeId>, r: NodeId, es: Seq<ModuleEntry>, i: int)
    requires table_added(d0, d, h, fids, r, def(es, i)), d0.wf(), 0 <= i < es.len(), es[i] is EntityDefinition, tables_done(d0, es, i), edges_done(d0, es, i),
    ensures d.wf(), tables_done(d, es, i + 1), edges_done(d, es, i + 1),
        forall|q: int| 0 <= q < i && #[trigger] es[q] is EntityDefinition ==> d.tabs()[n_ents(es, q)] == d0.tabs()[n_ents(es, q)] && d.rows(n_ents(es, q)) == d0.rows(n_ents(es, q)),
        d.tabs()[n_ents(es, i)] == r, d.rows(n_ents(es, i)) == seq![h] + fids,
{
    n_ents_mono(es, i); n_ents_mono(es, i + 1); known_bounds(es, i);
    let t0 = d0.tabs().len() as int;
    assert(forall|k: int| 0 <= k < t0 ==> #[trigger] d.tabs()[k] == d0.tabs()[k] && d0.tabs()[k] != d0.body_id);
    assert(forall|k: int| 0 <= k < t0 ==> d.tab(k) == d0.tab(k) && #[trigger] d.rows(k) == d0.rows(k));
    assert(forall|k: int, j: int| 0 <= k < t0 && 0 <= j < d0.rows(k).len() ==> #[trigger] d0.rows(k)[j] != d0.body_id);
    assert(forall|k: int, j: int| 0 <= k < t0 && 0 <= j < d0.rows(k).len() ==> d.row(k, j) == d0.row(k, j) && #[trigger] d.rows(k)[j] == d0.rows(k)[j]);
    assert(d.rows(t0) == seq![h] + fids);
    assert(d.rows(t0)[0] == h);
    assert(forall|j: int| 0 < j <= fids.len() ==> #[trigger] d.rows(t0)[j] == fids[j - 1]);
    assert(forall|q: int| 0 <= q < i && (#[trigger] es[q]) is EntityDefinition ==> mirrors(d, n_ents(es, q), def(es, q)));
    assert forall|j: int| 0 <= j < def(es, i).fields@.len() implies field_row(d.row(t0, j + 1), #[trigger] def(es, i).fields@[j]) by { assert(d.rows(t0)[j + 1] == fids[j]); }
    assert(mirrors(d, t0, def(es, i)));
    assert(known_rels(es, i + 1) == known_rels(es, i));
    assert forall|x: NodeId| d0.is_shape(x) implies d.is_shape(x) by {
        if exists|k: int| 0 <= k < t0 && x == #[trigger] d0.tabs()[k] { let k = choose|k: int| 0 <= k < t0 && x == #[trigger] d0.tabs()[k]; assert(d.tabs()[k] == x); }
        else { let (k, j) = choose|k: int, j: int| 0 <= k < t0 && 0 <= j < d0.rows(k).len() && x == #[trigger] d0.rows(k)[j]; assert(d.rows(k)[j] == x); }
    }
    assert(d.wf_edges()) by { assert forall|e: int| 0 <= e < d.n_rel() implies (#[trigger] d.rel(e)).source_id.0 == d.graph.ends@[e].0 && d.rel(e).target_id.0 == d.graph.ends@[e].1 && d.is_shape(d.rel(e).source_id) && d.is_shape(d.rel(e).target_id) by { assert(d.rel(e) == d0.rel(e)); } }
    assert(d.wf_tree());
    let w = known_rels(es, i);
    assert forall|e: int| 0 <= e < d.n_rel() implies (#[trigger] d.rel(e)).source_id == node_of(d, es, w[e].0) && d.rel(e).target_id == node_of(d, es, w[e].1) && d.rel(e).path_points.is_none() by {
        assert(d.rel(e) == d0.rel(e));
        let ((q, f), (r, g)) = w[e];
        assert(mirrors(d0, n_ents(es, q), def(es, q)));
        assert(mirrors(d0, n_ents(es, r), def(es, r)));
    }
}
pub open spec fn paths_added(m0: Map<Named, NodeId>, m: Map<Named, NodeId>, fids: Seq<NodeId>, r: NodeId, e: EntityDefinition) -> bool {
    forall|p: Named| (#[trigger] m.contains_key(p) == (m0.contains_key(p) || (p is Table && p->Table_0 == e.name@) || (p is Column && p->Column_0 == e.name@ && last_field(e.fields@, fids.len() as int, p->Column_1) >= 0)))
        && (m.contains_key(p) ==> m[p] == (
            if p is Table && p->Table_0 == e.name@ { r }
            else if p is Column && p->Column_0 == e.name@ && last_field(e.fields@, fids.len() as int, p->Column_1) >= 0 { fids[last_field(e.fields@, fids.len() as int, p->Column_1)] }
            else { m0[p] }))
}
pub proof fn lemma_paths(d0: Document, d: Document, h: NodeId, fids: Seq<NodeId>, r: NodeId, es: Seq<ModuleEntry>, i: int, m0: Map<Named, NodeId>, m: Map<Named, NodeId>)
    requires table_added(d0, d, h, fids, r, def(es, i)), d0.wf(), 0 <= i < es.len(), es[i] is EntityDefinition, tables_done(d0, es, i), edges_done(d0, es, i), paths_done(d0, es, i, m0), paths_added(m0, m, fids, r, def(es, i)),
    ensures paths_done(d, es, i + 1, m),
{
    lemma_table_added(d0, d, h, fids, r, es, i);
    assert forall|p: Named| #[trigger] m.contains_key(p) == resolve(es, i + 1, p).is_some() && (m.contains_key(p) ==> m[p] == node_of(d, es, resolve(es, i + 1, p).unwrap())) by {
        resolve_bounds(es, i, p);
        resolve_bounds(es, i + 1, p);
        assert(m0.contains_key(p) == resolve(es, i, p).is_some());
        assert(resolve(es, i + 1, p) == (match p {
            Named::Table(e) => if def(es, i).name@ == e { Some((i, -1int)) } else { resolve(es, i, p) },
            Named::Column(e, f) => if def(es, i).name@ == e && last_field(def(es, i).fields@, def(es, i).fields@.len() as int, f) >= 0 { Some((i, last_field(def(es, i).fields@, def(es, i).fields@.len() as int, f))) } else { resolve(es, i, p) },
        }));
        if p is Column { last_bounds(def(es, i).fields@, fids.len() as int, p->Column_1); }
        if m.contains_key(p) {
            let q = resolve(es, i + 1, p).unwrap();
            if q.0 == i {
                if q.1 >= 0 { assert((seq![h] + fids)[q.1 + 1] == fids[q.1]); }
            } else {
                assert(es[q.0] is EntityDefinition);
            }
        }
    }
}
pub proof fn lemma_not_an_entity(d: Document, es: Seq<ModuleEntry>, i: int, m: Map<Named, NodeId>)
    requires 0 <= i < es.len(), es[i] is EntityRelation, tables_done(d, es, i), paths_done(d, es, i, m),
    ensures tables_done(d, es, i + 1), paths_done(d, es, i + 1, m),
{
    assert(n_ents(es, i + 1) == n_ents(es, i));
    assert forall|p: Named| #[trigger] m.contains_key(p) == resolve(es, i + 1, p).is_some() && (m.contains_key(p) ==> m[p] == node_of(d, es, resolve(es, i + 1, p).unwrap())) by { assert(resolve(es, i + 1, p) == resolve(es, i, p)); }
}
/// A known name is a shape of the document.
pub proof fn lemma_known(d: Document, es: Seq<ModuleEntry>, i: int, m: Map<Named, NodeId>, p: Named)
    requires 0 <= i <= es.len(), d.wf(), tables_done(d, es, i), paths_done(d, es, i, m), m.contains_key(p),
    ensures d.is_shape(m[p]), d.has(m[p]), m[p] == node_of(d, es, resolve(es, i, p).unwrap()), resolve(es, i, p).is_some(),
{
    resolve_bounds(es, i, p);
    let (q, f) = resolve(es, i, p).unwrap();
    n_ents_mono(es, q);
    assert(es[q] is EntityDefinition);
    assert(mirrors(d, n_ents(es, q), def(es, q)));
    if f < 0 { assert(d.tabs()[n_ents(es, q)] == m[p]); } else { assert(d.rows(n_ents(es, q))[f + 1] == m[p]); }
}
pub proof fn lemma_edge_added(d0: Document, d: Document, es: Seq<ModuleEntry>, i: int, m: Map<Named, NodeId>, x: EdgeData)
    requires 0 <= i < es.len(), es[i] is EntityRelation, d0.wf(), d0.fresh(), tables_done(d0, es, i), paths_done(d0, es, i, m), edges_done(d0, es, i),
        ({ let r = es[i]->EntityRelation_0; m.contains_key(r.start_path.named()) && m.contains_key(r.end_path.named()) && x.source_id == m[r.start_path.named()] && x.target_id == m[r.end_path.named()] && x.path_points.is_none() }),
        d.graph.es@ == d0.graph.es@.push(x), d.graph.ends@ == d0.graph.ends@.push((x.source_id.0, x.target_id.0)), d.graph.ns == d0.graph.ns, d.body_id == d0.body_id, d.graph.gwf(),
    ensures d.wf(), d.fresh(), tables_done(d, es, i + 1), paths_done(d, es, i + 1, m), edges_done(d, es, i + 1),
{
    let r = es[i]->EntityRelation_0;
    lemma_known(d0, es, i, m, r.start_path.named());
    lemma_known(d0, es, i, m, r.end_path.named());
    assert(forall|k: int| d.rows(k) == d0.rows(k));
    assert(d.tabs() == d0.tabs());
    assert forall|z: NodeId| d0.is_shape(z) implies d.is_shape(z) by {
        if exists|k: int| 0 <= k < d0.tabs().len() && z == #[trigger] d0.tabs()[k] { let k = choose|k: int| 0 <= k < d0.tabs().len() && z == #[trigger] d0.tabs()[k]; assert(d.tabs()[k] == z); }
        else { let (k, j) = choose|k: int, j: int| 0 <= k < d0.tabs().len() && 0 <= j < d0.rows(k).len() && z == #[trigger] d0.rows(k)[j]; assert(d.rows(k)[j] == z); }
    }
    assert(d.wf_tree());
    assert(d.wf_edges()) by { assert forall|e: int| 0 <= e < d.n_rel() implies (#[trigger] d.rel(e)).source_id.0 == d.graph.ends@[e].0 && d.rel(e).target_id.0 == d.graph.ends@[e].1 && d.is_shape(d.rel(e).source_id) && d.is_shape(d.rel(e).target_id) by { if e < d0.n_rel() { assert(d.rel(e) == d0.rel(e)); } } }
    assert(tables_done(d, es, i)) by { assert forall|q: int| 0 <= q < i && (#[trigger] es[q]) is EntityDefinition implies mirrors(d, n_ents(es, q), def(es, q)) by { assert(mirrors(d0, n_ents(es, q), def(es, q))); } }
    assert(paths_done(d, es, i, m)) by {
        assert forall|p: Named| #[trigger] m.contains_key(p) == resolve(es, i, p).is_some() && (m.contains_key(p) ==> m[p] == node_of(d, es, resolve(es, i, p).unwrap())) by { if m.contains_key(p) { lemma_known(d0, es, i, m, p); } }
    }
    lemma_not_an_entity(d, es, i, m);
    let w0 = known_rels(es, i);
    let w = known_rels(es, i + 1);
    assert(w == w0.push((resolve(es, i, r.start_path.named()).unwrap(), resolve(es, i, r.end_path.named()).unwrap())));
    assert forall|e: int| 0 <= e < d.n_rel() implies (#[trigger] d.rel(e)).source_id == node_of(d, es, w[e].0) && d.rel(e).target_id == node_of(d, es, w[e].1) && d.rel(e).path_points.is_none() by {
        if e < d0.n_rel() { assert(d.rel(e) == d0.rel(e)); } else { assert(d.rel(e) == x); }
    }
}
%fn Module::new
%fn Module::name
    ensures r.is_some() == self.name.is_some(), r.is_some() ==> r.unwrap()@ == self.name.unwrap()@,
%fn Module::entries C01
    ensures r@.len() == self.entries@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.entries@[j],
%fn Module::add_entry C01
    ensures final(self).entries@ == old(self).entries@.push(entry),
%fn Module::add_entity_definition C01
    ensures final(self).entries@ == old(self).entries@.push(ModuleEntry::EntityDefinition(definition)),
%fn Module::add_entity_relation C02
    ensures final(self).entries@ == old(self).entries@.push(ModuleEntry::EntityRelation(relation)),
%fn Module::column_type_color
%fn EntityDefinition::new C01
    ensures r.name == name, r.fields@.len() == 0,
%fn EntityDefinition::name C01
    ensures r@ == self.name@,
%fn EntityDefinition::fields C01
    ensures r@.len() == self.fields@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.fields@[j],
%fn EntityDefinition::add_field C01
    ensures final(self).fields@ == old(self).fields@.push(column), final(self).name == old(self).name,
%fn EntityField::new C01
    ensures r.name == name, r.field_type == field_type, r.field_key == field_key,
%fn EntityFieldKey::into_mir C01
    ensures r.text@ == key_keyword(*self),
%fn EntityFieldKey::to_keyword C01
    ensures r@ == key_keyword(*self),
%fn EntityFieldKey::badge_text C01
    ensures r@ == key_keyword(*self),
%fn EntityFieldKey::badge_text_color
%fn EntityFieldKey::badge_bg_color
%fn EntityRelation::new C02
    ensures r.start_path == start_path, r.end_path == end_path,
%fn EntityRelation::start_path C02
    ensures *r == self.start_path,
%fn EntityRelation::end_path C02
    ensures *r == self.end_path,
%fn Module::into_mir C01 C02
    ensures
        r.wf(), r.fresh(),
        tables_done(r, self.entries@, self.entries@.len() as int),  // [C01]
        edges_done(r, self.entries@, self.entries@.len() as int),  // [C02]
%start
    hide(tables_done); hide(edges_done); hide(paths_done); hide(resolve); hide(known_rels); hide(Document::wf_edges); hide(Document::wf_tree); hide(table_added); hide(paths_added); hide(Document::fresh); hide(field_row); hide(header_row);
%loop 1 before
    proof { reveal(tables_done); reveal(edges_done); reveal(paths_done); reveal(resolve); reveal(known_rels); }
%loop 1
    doc.wf(), doc.fresh(),
    tables_done(doc, self.entries@, vx_i1 as int),  // [C01]
    edges_done(doc, self.entries@, vx_i1 as int),  // [C02]
    paths_done(doc, self.entries@, vx_i1 as int, node_paths@),  // [C02]
%loop 1 start
    let ghost es = self.entries@;
    let ghost i0 = vx_i1 as int - 1;
    let ghost doc0 = doc;
    let ghost m0 = node_paths@;
    proof { reveal(Document::wf_edges); reveal(Document::wf_tree); }
    proof { if es[i0] is EntityRelation {
        let r = es[i0]->EntityRelation_0;
        lemma_not_an_entity(doc, es, i0, m0);
        assert(m0.contains_key(r.start_path.named()) == resolve(es, i0, r.start_path.named()).is_some()) by { reveal(paths_done); }
        assert(m0.contains_key(r.end_path.named()) == resolve(es, i0, r.end_path.named()).is_some()) by { reveal(paths_done); }
        if m0.contains_key(r.start_path.named()) && m0.contains_key(r.end_path.named()) { lemma_known(doc, es, i0, m0, r.start_path.named()); lemma_known(doc, es, i0, m0, r.end_path.named()); }
        else { assert(edges_done(doc, es, i0 + 1)) by { reveal(edges_done); reveal(known_rels); } }
    } }
%after add_edge 1
    proof { lemma_edge_added(doc0, doc, es, i0, m0, doc.rel(doc.n_rel() - 1)); }
%loop 2 before
    let mut vx_o2: Vec<NodeId> = vx_o2;
    let ghost doc1 = doc;
%loop 2
    doc.len() == doc1.len() + vx_i2, vx_o2@.len() == vx_i2,
    forall|n: int| 0 <= n < doc1.len() ==> #[trigger] doc.graph.ns@[n] == doc1.graph.ns@[n],
    doc.body_id == doc1.body_id, doc.graph.es == doc1.graph.es, doc.graph.ends == doc1.graph.ends,
    doc.fresh(),
    forall|j: int| 0 <= j < vx_i2 ==> (#[trigger] vx_o2@[j]).0.i == doc1.len() + j && doc.nd(vx_o2@[j]).children@.len() == 0,  // [C01]
    forall|j: int| 0 <= j < vx_i2 ==> field_row(doc.nd(#[trigger] vx_o2@[j]), definition.fields@[j]),  // [C01]
    forall|p: Named| #[trigger] node_paths@.contains_key(p) == (m0.contains_key(p) || (p is Column && p->Column_0 == definition.name@ && last_field(definition.fields@, vx_i2 as int, p->Column_1) >= 0)),  // [C02]
    forall|p: Named| #[trigger] node_paths@.contains_key(p) ==> node_paths@[p] == (
        if p is Column && p->Column_0 == definition.name@ && last_field(definition.fields@, vx_i2 as int, p->Column_1) >= 0 { vx_o2@[last_field(definition.fields@, vx_i2 as int, p->Column_1)] } else { m0[p] }),  // [C02]
%loop 2 start
    let ghost docb = doc;
    let ghost mb = node_paths@;
    let ghost ob = vx_o2@;
%loop 2 end
    proof {
        assert(field_row(doc.nd(vx_o2@[vx_i2 - 1]), definition.fields@[vx_i2 - 1])) by { reveal(field_row); }
        assert(forall|j: int| 0 <= j < vx_i2 - 1 ==> #[trigger] vx_o2@[j] == ob[j] && doc.nd(vx_o2@[j]) == docb.nd(ob[j]));
        assert forall|p: Named| #[trigger] node_paths@.contains_key(p) implies node_paths@[p] == (
            if p is Column && p->Column_0 == definition.name@ && last_field(definition.fields@, vx_i2 as int, p->Column_1) >= 0 { vx_o2@[last_field(definition.fields@, vx_i2 as int, p->Column_1)] } else { m0[p] }) by {
            if p is Column && p->Column_0 == definition.name@ { last_bounds(definition.fields@, vx_i2 - 1, p->Column_1); if last_field(definition.fields@, vx_i2 - 1, p->Column_1) >= 0 { assert(vx_o2@[last_field(definition.fields@, vx_i2 - 1, p->Column_1)] == ob[last_field(definition.fields@, vx_i2 - 1, p->Column_1)]); } }
        }
    }
%after collect 1
    let ghost doc2 = doc;
    let ghost m2 = node_paths@;
%loop 3 before
    let ghost rec0 = *record_node;
%loop 3
    record_node.kind == rec0.kind, record_node.same_geo(rec0),
    record_node.children@ == rec0.children@ + field_ids@.take(vx_i3 as int),
%loop 3 start
    proof { assert(field_ids@.take(vx_i3 as int) =~= field_ids@.take(vx_i3 - 1).push(field_ids@[vx_i3 - 1])); }
%after append_child 3
    proof {
        assert(table_added(doc0, doc, header_node_id, field_ids@, record_id, *definition)) by {
            reveal(table_added);
            let d = doc; let d0 = doc0; let h = header_node_id; let fids = field_ids@; let r = record_id; let e = *definition;
    assert(d.body_id == d0.body_id && d.graph.es == d0.graph.es && d.graph.ends == d0.graph.ends && d.len() > d0.len());
    assert(d.nd(d.body_id).kind == d0.nd(d.body_id).kind);
    assert(d.tabs() == d0.tabs().push(r));
    assert(forall|n: int| 0 <= n < d0.len() && n != d.body_id.0.i ==> #[trigger] d.graph.ns@[n] == d0.graph.ns@[n]);
    assert(d.fresh()) by { reveal(Document::fresh); };
    assert(d0.len() <= h.0.i < d.len() && d0.len() <= r.0.i < d.len() && d.nd(r).kind is Record);
    assert(d.nd(r).children@ == seq![h] + fids);
    assert(header_row(d.nd(h), e.name@)) by { reveal(header_row); };
    assert(d.nd(h).children@.len() == 0);
    assert(fids.len() == e.fields@.len());
    assert(forall|j: int| 0 <= j < fids.len() ==> d0.len() <= (#[trigger] fids[j]).0.i < d.len() && fids[j] != h && d.nd(fids[j]).children@.len() == 0);
    assert(forall|j: int| 0 <= j < fids.len() ==> field_row(d.nd(#[trigger] fids[j]), e.fields@[j]));
        }
        assert(paths_added(m0, node_paths@, field_ids@, record_id, *definition)) by { reveal(paths_added); }
        lemma_table_added(doc0, doc, header_node_id, field_ids@, record_id, es, i0);
        lemma_paths(doc0, doc, header_node_id, field_ids@, record_id, es, i0, m0, node_paths@);
        assert(doc.fresh()) by { reveal(table_added); }
    }
