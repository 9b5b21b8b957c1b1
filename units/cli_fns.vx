%verbatim
// ------------------------------------------------------------------ C19
/// The text a run is about: none if it cannot be read.
pub open spec fn text_of(w: World) -> Option<Seq<char>> { if arg_list().len() >= 2 { file_text(arg_list()[1]) } else { w.input } }
pub open spec fn text_name() -> Seq<char> { if arg_list().len() >= 2 { arg_list()[1] } else { "(stdin)"@ } }
/// What is guaranteed of the result of parsing a text (units/par_fns.vx).
pub open spec fn parsed(t: Seq<char>, p: ParseResult) -> bool {
    &&& p.0 is Some || p.1@.len() > 0 || p.2@.len() > 0
    &&& forall|k: int| 0 <= k < p.1@.len() ==> in_text((#[trigger] p.1@[k]).sp(), t.len() as int)
    &&& forall|k: int| 0 <= k < p.2@.len() ==> in_text((#[trigger] p.2@[k]).sp(), t.len() as int)
    &&& forall|m: ModV| #[trigger] spells(t, m) ==> (p.0 matches Some(x) && mod_v(x) == m) && p.1@.len() == 0 && p.2@.len() == 0
}
pub open spec fn n_diags(p: ParseResult) -> int { p.1@.len() as int + p.2@.len() as int }
/// The same places.
pub open spec fn same_places<A, B>(a: Seq<Simple<A>>, b: Seq<Simple<B>>, n: int) -> bool { a.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).sp() == b[k].sp() }
pub open spec fn diag_at(p: ParseResult, k: int) -> int { if k < p.1@.len() { p.1@[k].sp().start as int } else { p.2@[k - p.1@.len()].sp().start as int } }
/// The report is about that place of the text. (A line end after the text changes no line and no column.)
pub open spec fn tells(r: Rep, name: Seq<char>, t: Seq<char>, at: int) -> bool { r.name == name && r.at == at && (r.text == t || r.text == t.push('\n')) }
/// The reports b come after a: one for each of the first n diagnostics, in order.
pub open spec fn told(a: Seq<Rep>, b: Seq<Rep>, t: Seq<char>, p: ParseResult, n: int) -> bool {
    b.len() == a.len() + n && b.take(a.len() as int) == a && forall|k: int| 0 <= k < n ==> tells(#[trigger] b[a.len() + k], text_name(), t, diag_at(p, k))
}
/// A layout of the module.
pub open spec fn lays_out(d: Document, v: Rect, m: Module) -> bool {
    &&& d.wf() && view_ok(d, v) && grid_ok(d) && tiled(d) && ports_ok(d, d.tabs().len() as int)
    &&& tables_done(d, m.entries@, m.entries@.len() as int) && edges_kept(d, m.entries@)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] rel_ends_ok(d, e)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] rel_sides_ok(d, e)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] rel_clear_ok(d, e)
    &&& forall|e: int| 0 <= e < d.n_rel() ==> #[trigger] rel_onward(d, e)
}
/// b is a and the drawing of the module.
pub open spec fn drew(a: Seq<u8>, b: Seq<u8>, m: Module) -> bool {
    &&& exists|e: El| #[trigger] wrote(a, b, e) && root_safe(e) && says(e.kids, module_texts(m.entries@, m.entries@.len() as int))
    &&& exists|d: Document, v: Rect, e: El| #[trigger] wrote(a, b, e) && #[trigger] lays_out(d, v, m) && picture(d, v, e)
}
/// Assumed of every module: it is not too high for the coordinates.
pub open spec fn low(m: Module) -> bool { forall|d: Document| #[trigger] d.wf() && d.fresh() && tables_done(d, m.entries@, m.entries@.len() as int) ==> fits(d) }
pub proof fn lemma_shown(a: Seq<u8>, b: Seq<u8>, m: Module, d: Document, v: Rect)
    requires d.tabs().len() == n_ents(m.entries@, m.entries@.len() as int), lays_out(d, v, m),
        exists|e: El| #[trigger] wrote(a, b, e) && root_safe(e) && says(e.kids, tables_texts(d, d.tabs().len() as int)),
        exists|e: El| #[trigger] wrote(a, b, e) && picture(d, v, e),
    ensures drew(a, b, m),
{ lemma_module_texts(d, m.entries@, m.entries@.len() as int); }
pub proof fn lemma_none_told(a: Seq<Rep>, t: Seq<char>, p: ParseResult) ensures told(a, a, t, p, 0) { assert(a.take(a.len() as int) =~= a); }
pub proof fn lemma_told(a: Seq<Rep>, b: Seq<Rep>, t: Seq<char>, p: ParseResult, n: int, r: Rep)
    requires told(a, b, t, p, n), n >= 0, tells(r, text_name(), t, diag_at(p, n)),
    ensures told(a, b.push(r), t, p, n + 1),
{
    let c = b.push(r);
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert forall|k: int| 0 <= k < n + 1 implies tells(#[trigger] c[a.len() + k], text_name(), t, diag_at(p, k)) by { if k < n { assert(c[a.len() + k] == b[a.len() + k]); } }
}
pub proof fn lemma_line_end(t: Seq<char>) ensures t + "\n"@ == t.push('\n') { reveal_strlit("\n"); assert(t + "\n"@ =~= t.push('\n')); }
pub proof fn lemma_draws(d: Document) requires complete(d) ensures forall|i: NodeId| !lacks(d, i) { assert forall|i: NodeId| !lacks(d, i) by { lemma_nothing_lacks(d, i); } }
%file main
%fn main C19 front attr=verifier::rlimit(60)
    ensures
        text_of(*old(vx_w)) is None ==> r is Err && final(vx_w).out == old(vx_w).out && final(vx_w).reports == old(vx_w).reports,  // [C19]
        text_of(*old(vx_w)) matches Some(t) ==> r is Ok && exists|p: ParseResult| #[trigger] parsed(t, p)
            && told(old(vx_w).reports, final(vx_w).reports, t, p, n_diags(p))
            && match p.0 { None => final(vx_w).out == old(vx_w).out, Some(m) => drew(old(vx_w).out, final(vx_w).out, m) },  // [C19]
%start
    hide(says); hide(picture); hide(placed); hide(RouteGraph::uniq); hide(rel_ends_ok); hide(rel_sides_ok); hide(rel_clear_ok); hide(rel_cheapest); hide(rel_onward); hide(on_grid); hide(complete); hide(lacks); hide(tables_texts); hide(module_texts); hide(tables_done); hide(edges_kept); hide(edges_done); hide(grid_ok); hide(tiled); hide(ports_ok); hide(fits); hide(laid); hide(net_fine); hide(rects_ok); hide(bare_from); hide(Document::wf_tree); hide(Document::wf_edges); hide(Document::fresh); hide(spells); hide(drew); hide(lays_out);
    let ghost w0 = *vx_w;
%after parse 1
    let ghost p = (ast, tokenize_errs, parse_errs); let ghost t = src@;
    proof { assert(parsed(t, p)); if p.0 is Some { assume(low(p.0->Some_0)); } }
%loop 1
    vx_s1@ == p.1@, same_places(vx_o1@, p.1@, vx_i1 as int),
%loop 2
    vx_s2@ == p.2@, same_places(vx_o2@, p.2@, vx_i2 as int),
%loop 3
    parsed(t, p), vx_s3@.len() == n_diags(p), forall|k: int| 0 <= k < vx_s3@.len() ==> (#[trigger] vx_s3@[k]).sp().start == diag_at(p, k) && in_text(vx_s3@[k].sp(), t.len() as int),
    filename@ == text_name(), source@ == t.push('\n'), vx_w.out == w0.out, told(w0.reports, vx_w.reports, t, p, vx_i3 as int),
%loop 3 before
    proof { lemma_none_told(w0.reports, t, p); lemma_line_end(t); }
%loop 3 start
    let ghost w1 = *vx_w;
%loop 3 end
    proof { lemma_told(w0.reports, w1.reports, t, p, vx_i3 - 1, vx_w.reports.last()); }
%loop 4
    true,
%closure 1
    -> (vx_q: String) ensures true
%closure 2
    -> (vx_q: String) ensures true
%after into_mir 1
    let ghost es = p.0->Some_0.entries@; let ghost a = doc;
%after place_nodes 1
    let ghost b = doc;
    proof { lemma_ready_for_ports(a, b); }
%after place_terminal_ports 1
    let ghost c = doc;
    proof { lemma_laid(a, b, c, es); }
%after draw_edge_path 1
    proof {
        lemma_laid_placed(c); lemma_still(b, c, doc, view_box.unwrap()); lemma_mirrored(a, b, c, doc, es); lemma_net_uniq(engine.edge_route_graph, c);
        lemma_complete(engine.edge_route_graph, doc); lemma_n_tabs(doc, es); lemma_draws(doc);
        assert(lays_out(doc, view_box.unwrap(), p.0->Some_0)) by { reveal(lays_out); }
    }
%after expect 1
    proof { lemma_shown(w0.out, handle.out(), p.0->Some_0, doc, view_box.unwrap()); }
%file evcxr
%struct SVGOutput
%fn SVGOutput::new C19
    ensures r.svg == svg,
%fn SVGOutput::evcxr_display C19 front
    ensures final(vx_w).out == old(vx_w).out + utf8("EVCXR_BEGIN_CONTENT image/svg+xml\n"@ + self.svg@ + "\nEVCXR_END_CONTENT\n"@),  // [C19]
%fn draw_erd C19 front
    requires doc.wf(), on_grid(*doc), complete(*doc), view_box.is_some() ==> view_box.unwrap().ok(),
    ensures
        exists|e: El| r.svg@ == #[trigger] written(e) && root_safe(e) && says(e.kids, tables_texts(*doc, doc.tabs().len() as int)),  // [C19]
        view_box.is_some() ==> exists|e: El| r.svg@ == #[trigger] written(e) && picture(*doc, view_box.unwrap(), e),  // [C19]
%start
    hide(says); hide(picture); hide(complete); hide(lacks); hide(tables_texts); hide(on_grid);
    proof { lemma_draws(*doc); }
%after expect 1
    proof { assert forall|e: El| #[trigger] wrote(Seq::<u8>::empty(), bytes@, e) implies bytes@ == utf8(written(e)) by { assert(Seq::<u8>::empty() + utf8(written(e)) =~= utf8(written(e))); } }
