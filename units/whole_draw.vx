%verbatim
/// The SVG of a module: whatever the engine did before, for every writer.
pub fn vx_draw(engine: &mut SimpleLayoutEngine, module: Module, writer: &mut impl VxWrite) -> (r: (Ghost<Document>, Ghost<Rect>, Result<(), BackendError>))
    requires forall|d: Document| #[trigger] d.wf() && d.fresh() && tables_done(d, module.entries@, module.entries@.len() as int) ==> fits(d),
    ensures r.2 is Err ==> r.2->Err_0 is IoFailure && final(writer).broke(),  // [C10,C13]
        old(writer).solid() ==> r.2 is Ok,  // [C10]
        r.2 is Ok ==> exists|e: El| #[trigger] wrote(old(writer).out(), final(writer).out(), e) && root_safe(e) && says(e.kids, module_texts(module.entries@, module.entries@.len() as int)),  // [C11]
        r.2 is Ok ==> exists|e: El| #[trigger] wrote(old(writer).out(), final(writer).out(), e) && picture(r.0@, r.1@, e),  // [C12]
        view_ok(r.0@, r.1@), tables_done(r.0@, module.entries@, module.entries@.len() as int), edges_kept(r.0@, module.entries@), grid_ok(r.0@),
{
    hide(says); hide(picture); hide(placed); hide(RouteGraph::uniq); hide(rel_ends_ok); hide(rel_sides_ok); hide(rel_clear_ok); hide(rel_cheapest); hide(rel_onward); hide(on_grid); hide(complete); hide(lacks); hide(tables_texts); hide(module_texts); hide(tables_done); hide(edges_kept); hide(grid_ok); hide(tiled); hide(ports_ok); hide(fits); hide(Document::wf_tree); hide(Document::wf_edges); hide(Document::fresh);
    let ghost es = module.entries@;
    let (doc, view_box) = vx_lay_out(engine, module);
    let mut backend = SVGRenderer::new();
    backend.view_box = view_box;
    proof { lemma_complete(engine.edge_route_graph, doc); }
    let r = backend.render(&doc, writer);
    proof {
        lemma_module_texts(doc, es, es.len() as int); lemma_n_tabs(doc, es);
        if r is Err && r->Err_0 is InvalidLayout { lemma_nothing_lacks(doc, r->Err_0->InvalidLayout_0); }
    }
    (Ghost(doc), Ghost(view_box.unwrap()), r)
}
