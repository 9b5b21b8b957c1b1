%verbatim
/// Whatever the engine did before: all of C03 to C10 hold for what it makes of any module that is not too high.
pub fn vx_lay_out(engine: &mut SimpleLayoutEngine, module: Module) -> (r: (Document, Option<Rect>))
    requires forall|d: Document| #[trigger] d.wf() && d.fresh() && tables_done(d, module.entries@, module.entries@.len() as int) ==> fits(d),
    ensures r.0.wf(), r.1.is_some(), view_ok(r.0, r.1.unwrap()), grid_ok(r.0), tiled(r.0), ports_ok(r.0, r.0.tabs().len() as int),
        forall|e: int| 0 <= e < r.0.n_rel() ==> #[trigger] rel_ends_ok(r.0, e), forall|e: int| 0 <= e < r.0.n_rel() ==> #[trigger] rel_sides_ok(r.0, e), forall|e: int| 0 <= e < r.0.n_rel() ==> #[trigger] rel_clear_ok(r.0, e),
        forall|e: int| 0 <= e < r.0.n_rel() ==> #[trigger] rel_cheapest(final(engine).edge_route_graph, r.0, e), forall|e: int| 0 <= e < r.0.n_rel() ==> #[trigger] rel_onward(r.0, e),
        tables_done(r.0, module.entries@, module.entries@.len() as int), edges_kept(r.0, module.entries@), placed(r.0, r.0.tabs().len() as int), final(engine).edge_route_graph.uniq(),
{
    hide(placed); hide(edges_kept); hide(ports_ok); hide(laid); hide(Document::wf_tree); hide(Document::wf_edges); hide(tables_done); hide(edges_done); hide(net_fine); hide(rects_ok); hide(bare_from); hide(Document::fresh); hide(fits); hide(rel_ends_ok); hide(rel_sides_ok); hide(rel_clear_ok); hide(rel_cheapest); hide(rel_onward);
    let ghost es = module.entries@;
    let mut doc = module.into_mir();
    let ghost a = doc;
    let view = engine.place_nodes(&mut doc);
    let ghost b = doc;
    proof { lemma_ready_for_ports(a, b); }
    engine.place_terminal_ports(&mut doc);
    let ghost c = doc;
    proof { lemma_laid(a, b, c, es); }
    engine.draw_edge_path(&mut doc);
    proof { lemma_laid_placed(c); lemma_still(b, c, doc, view.unwrap()); lemma_mirrored(a, b, c, doc, es); lemma_net_uniq(engine.edge_route_graph, c); }
    (doc, view)
}
