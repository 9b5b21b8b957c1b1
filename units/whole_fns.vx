%verbatim
/// What rendering asks for.
pub proof fn lemma_complete(g: RouteGraph, e: Document)
    requires placed(e, e.tabs().len() as int), g.uniq(),
        forall|i: int| 0 <= i < e.n_rel() ==> #[trigger] rel_sides_ok(e, i), forall|i: int| 0 <= i < e.n_rel() ==> #[trigger] rel_cheapest(g, e, i), forall|i: int| 0 <= i < e.n_rel() ==> #[trigger] rel_onward(e, i),
    ensures complete(e), on_grid(e),
{
    let n = e.tabs().len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] table_done(e, k) && e.tab(k).rc().ok() by { assert(placed_table(e, k)); }
    assert forall|k: int, j: int| 0 <= k < n && 0 <= j < e.rows(k).len() implies #[trigger] row_done(e, k, j) && row_shape(e.row(k, j).rc()) by { assert(placed_row(e, k, j)); }
    assert forall|i: int| 0 <= i < e.n_rel() implies #[trigger] route_done(e, i) && drawable(route_of(e, i)) by { assert(rel_sides_ok(e, i) && rel_cheapest(g, e, i) && rel_onward(e, i)); lemma_drawable(g, e.nd(src(e, i)), e.nd(tgt(e, i)), route_of(e, i)); }
    assert forall|k: int| 0 <= k < n implies rows_placed(e, k, #[trigger] e.rows(k).len() as int) by { assert forall|j: int| 0 <= j < e.rows(k).len() implies #[trigger] row_done(e, k, j) by {} }
    assert(complete(e));
    assert forall|k: int| 0 <= k < n implies #[trigger] table_fits(e, k) by { assert(table_done(e, k)); }
    assert forall|k: int, j: int| 0 <= k < n && 0 <= j < e.rows(k).len() implies #[trigger] row_fits(e, k, j) by { assert(row_done(e, k, j)); }
    assert forall|i: int| 0 <= i < e.n_rel() implies #[trigger] route_fits(e, i) by { assert(route_done(e, i)); }
}
pub proof fn lemma_drawable(g: RouteGraph, z: NodeData, y: NodeData, p: Seq<Point>)
    requires g.uniq(), routed(g, z, y, p), p.len() >= 2, axis_ok(p), onward_ok(p),
    ensures drawable(p),
{
    let q = choose|q: Seq<NodeIndex>| #[trigger] route(g, z, y, q) && places(g, q, p);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] joint(p, i) by {
        assert(q[i].i < g.n()); assert(p[i] == g.loc(q[i].i as int));
        if i + 1 < p.len() { assert(axis_parallel(p[i], p[i + 1]) && !same_pt(p[i], p[i + 1])); }
        if i + 2 < p.len() {
            let (a, b, c) = (p[i], p[i + 1], p[i + 2]);
            assert(axis_parallel(p[i + 1], p[i + 1 + 1]) && !same_pt(p[i + 1], p[i + 1 + 1]));
            if turns_back(a, b, c) {
                let o = if b.Y() < a.Y() { Orientation::Up } else if b.Y() > a.Y() { Orientation::Down } else if b.X() < a.X() { Orientation::Left } else { Orientation::Right };
                assert(toward(a, b, o) && toward(b, c, opp(o)));
                assert(back(a, b, c));
            }
        }
    }
}
// ------------------------------------------------------------------ C11: the texts of a module
pub open spec fn key_text(k: Option<EntityFieldKey>) -> Seq<Seq<char>> { match k { Some(k) => seq![key_keyword(k)], None => Seq::empty() } }
pub open spec fn field_texts(f: EntityField) -> Seq<Seq<char>> { seq![f.name@, type_keyword(f.field_type)] + key_text(f.field_key) }
pub open spec fn def_texts(d: EntityDefinition, j: int) -> Seq<Seq<char>> decreases j { if j <= 0 { seq![d.name@] } else { def_texts(d, j - 1) + field_texts(d.fields@[j - 1]) } }
/// Name by name as they are defined: entities, and each field with its type and key.
pub open spec fn module_texts(es: Seq<ModuleEntry>, i: int) -> Seq<Seq<char>> decreases i {
    if i <= 0 { Seq::empty() } else { module_texts(es, i - 1) + (if es[i - 1] is EntityDefinition { def_texts(def(es, i - 1), def(es, i - 1).fields@.len() as int) } else { Seq::empty() }) }
}
pub proof fn lemma_def_texts(d: Document, k: int, f: EntityDefinition, j: int)
    requires mirrors(d, k, f), 0 <= j <= f.fields@.len(),
    ensures rows_texts(d, k, j + 1) == def_texts(f, j),
    decreases j
{
    if j == 0 { assert(rows_texts(d, k, 1) =~= rows_texts(d, k, 0) + row_texts(d, k, 0)); assert(row_texts(d, k, 0) =~= seq![f.name@]); assert(rows_texts(d, k, 1) =~= seq![f.name@]); }
    else { lemma_def_texts(d, k, f, j - 1); assert(field_row(d.row(k, j - 1 + 1), f.fields@[j - 1])); assert(row_texts(d, k, j) =~= field_texts(f.fields@[j - 1])); }
}
pub proof fn lemma_module_texts(d: Document, es: Seq<ModuleEntry>, i: int)
    requires tables_done(d, es, es.len() as int), 0 <= i <= es.len(),
    ensures tables_texts(d, n_ents(es, i)) == module_texts(es, i),
    decreases i
{
    if i > 0 {
        lemma_module_texts(d, es, i - 1); lemma_count(es, i - 1);
        if es[i - 1] is EntityDefinition { let k = n_ents(es, i - 1); let f = def(es, i - 1); assert(mirrors(d, k, f)); lemma_def_texts(d, k, f, f.fields@.len() as int); assert(d.rows(k).len() == f.fields@.len() + 1); }
        else { assert(module_texts(es, i) =~= module_texts(es, i - 1)); }
    }
}
pub proof fn lemma_n_tabs(d: Document, es: Seq<ModuleEntry>) requires tables_done(d, es, es.len() as int) ensures d.tabs().len() == n_ents(es, es.len() as int) { }
pub proof fn lemma_nothing_lacks(d: Document, id: NodeId)
    requires complete(d),
    ensures !lacks(d, id),
{
    assert forall|k: int, j: int| 0 <= k < d.tabs().len() && 0 <= j < d.rows(k).len() implies #[trigger] row_done(d, k, j) by { assert(rows_placed(d, k, d.rows(k).len() as int)); }
}
