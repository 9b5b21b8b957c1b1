%file error
%enum BackendError
%verbatim
#[verifier::external]
impl core::fmt::Debug for BackendError { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
impl VxConv<BackendError> for Error { open spec fn conv(self, r: BackendError) -> bool { r is IoFailure } fn vx_conv(self) -> (r: BackendError) { BackendError::IoFailure(self) } }
impl VxConv<BackendError> for BackendError { open spec fn conv(self, r: BackendError) -> bool { r == self } fn vx_conv(self) -> (r: BackendError) { self } }
%file renderer
%struct SVGRenderer
%enum SVGAnchor
%fn SVGRenderer::new C13
    ensures r.view_box.is_none(), r.edge_route_graph.is_none(),
%fn escape_text C11
    ensures spelled(r@, fixed(text@)),  // [C11]
%start
    proof { lemma_no_text(text@); }
%loop 1
    vx_s1@ == text@, spelled(escaped@, fixed(text@.take(vx_i1 as int))),
%loop 1 start
    let ghost e0 = escaped@; let ghost vx_j = vx_i1 - 1;
%loop 1 end
    proof {
        lemma_fixed(text@, vx_j);
        let u = escaped@.skip(e0.len() as int); let c = text@[vx_j];
        assert(escaped@ =~= e0 + u);
        lemma_tail(e0, escaped@); lemma_glyph(u, c);
        lemma_spell(e0, fixed(text@.take(vx_j)), u, if xml_char(c) { c } else { '\u{FFFD}' });
    }
%end
    proof { assert(text@.take(text@.len() as int) =~= text@); }
%fn SVGAnchor::text_anchor C11
    ensures safe_text(r@),
%start
    proof { vx_lits(); }
%fn SVGRenderer::draw_text C11 C12
    ensures r.el().tag is Text, attr_is(r.el(), "x"@, dec(origin.x)), attr_is(r.el(), "y"@, dec(origin.y)),  // [C12]
        says1(r.el(), seq![span.text@]),  // [C11]
%start
    broadcast use show;
    proof { vx_lits(); lemma_fonts(); }
%end
    proof { lemma_label(vx_ret.el(), span.text@); }
%fn SVGRenderer::draw_edge_connection C10 C12 C13
    requires edge.path_points.is_some() ==> drawable(edge.path_points.unwrap()@),
    ensures r is Err ==> r->Err_0 == BackendError::InvalidLayout(edge.source_id) && edge.path_points.is_none(),  // [C13]
        r is Ok ==> edge.path_points.is_some(),  // [C13]
        r is Ok ==> draws_path(r->Ok_0.0.el(), edge.path_points.unwrap()@) && draws_dot(r->Ok_0.1.el(), edge.path_points.unwrap()@[0]) && draws_dot(r->Ok_0.2.el(), edge.path_points.unwrap()@.last()),  // [C12]
        r is Ok ==> says1(r->Ok_0.0.el(), nil()) && says1(r->Ok_0.1.el(), nil()) && says1(r->Ok_0.2.el(), nil()),  // [C11]
%start
    hide(texts); hide(clean); hide(reads_el); hide(texts1); hide(clean1); hide(says1); hide(points_pic); hide(glued); hide(views); hide(safe_text); hide(attrs_safe); hide(all_safe); hide(path_text); hide(drawable);
    broadcast use show;
    proof { vx_lits(); if edge.path_points.is_some() { lemma_base(edge.path_points.unwrap()@); assert(edge.path_points.unwrap()@.len() >= 2) by { reveal(drawable); } lemma_joint(edge.path_points.unwrap()@, 0); lemma_joint(edge.path_points.unwrap()@, edge.path_points.unwrap()@.len() - 1); } }
%loop 1 after
    proof {
        lemma_glued(views(d@), " "@);  // [C11]
        lemma_path(path_points@, views(d@));  // [C12]
    }
%loop 1
    edge.path_points.is_some(), path_points@ == edge.path_points.unwrap()@, drawable(path_points@), vx_n1 == path_points@.len(), vx_i1 <= vx_n1, path_radius.grid(), path_radius.h() == 12,
    points_pic(path_points@, vx_i1 as int, views(d@)),  // [C12]
    all_safe(views(d@)),  // [C11]
%loop 1 start
    broadcast use show;
    let ghost d0 = d@; let ghost vx_j = vx_i1 - 1;
    proof { lemma_joint(path_points@, vx_j); }
%loop 1 end
    proof {
        assert(d@.take(d0.len() as int) =~= d0);
        let s = views(d@.skip(d0.len() as int));
        assert(s.len() == d@.len() - d0.len() && (s.len() > 0 ==> s[0] == d@[d0.len() as int]@) && (s.len() > 1 ==> s[1] == d@[d0.len() as int + 1]@)) by { reveal(views); }
        lemma_pieces_safe(d0, d@);  // [C11]
        lemma_pieces(path_points@, vx_j, d0, d@);  // [C12]
    }
%end
    proof {
        if vx_ret is Ok {
            lemma_bare(vx_ret->Ok_0.0.el()); lemma_bare(vx_ret->Ok_0.1.el()); lemma_bare(vx_ret->Ok_0.2.el());
        }
    }
%stub SVGRenderer::draw_debug_info C13
%fn SVGRenderer::render C10 C11 C12 C13
    requires doc.wf(), on_grid(*doc), self.view_box.is_some() ==> self.view_box.unwrap().ok(),
    ensures !complete(*doc) ==> r is Err && r->Err_0 is InvalidLayout,  // [C13]
        r is Err && r->Err_0 is InvalidLayout ==> lacks(*doc, r->Err_0->InvalidLayout_0) && final(writer).out() == old(writer).out(),  // [C13]
        r is Err && !(r->Err_0 is InvalidLayout) ==> r->Err_0 is IoFailure && final(writer).broke(),  // [C13]
        old(writer).solid() && r is Err ==> r->Err_0 is InvalidLayout,  // [C13]
        r is Ok && self.edge_route_graph.is_none() ==> exists|e: El| #[trigger] wrote(old(writer).out(), final(writer).out(), e) && root_safe(e) && says(e.kids, tables_texts(*doc, doc.tabs().len() as int)),  // [C11]
        r is Ok && self.edge_route_graph.is_none() && self.view_box.is_some() ==> exists|e: El| #[trigger] wrote(old(writer).out(), final(writer).out(), e) && picture(*doc, self.view_box.unwrap(), e),  // [C12]
%start
    hide(texts); hide(clean); hide(texts1); hide(clean1); hide(says); hide(says1); hide(safe_text); hide(attrs_safe); hide(tables_pic); hide(rows_pic); hide(row_pic); hide(edges_pic); hide(clips_pic); hide(clips_named); hide(picture); hide(on_grid); hide(complete); hide(lacks); hide(rows_texts); hide(tables_texts); hide(row_texts); hide(row_said); hide(drawable); hide(path_text);
    broadcast use show;
    broadcast use lemma_bare_says;
    let ghost mut vx_h = Seq::<El>::empty();
    proof { vx_lits(); lemma_start(*doc, Seq::empty()); }
%loop 1
    doc.wf(), on_grid(*doc), vx_s1@ == doc.tabs(), *writer == *old(writer), border_radius.grid(),
    tables_placed(*doc, vx_i1 as int),  // [C13]
    root_safe(svg_doc.el()), says(svg_doc.el().kids, nil()), says(svg_defs.el().kids, nil()), attrs_safe(svg_defs.el().attrs),  // [C11]
    root_box(svg_doc.el(), self.view_box), svg_doc.el().kids.len() == 1 && svg_doc.el().kids[0].tag is Rect,  // [C12]
    svg_defs.el().tag is Defs, clips_pic(*doc, vx_i1 as int, svg_defs.el().kids), clips_named(vx_i1 as int, svg_defs.el().kids, record_clip_path_id_prefix@),  // [C12]
%loop 1 start
    broadcast use show;
    broadcast use lemma_bare_says;
    let ghost c0 = svg_defs.el().kids; let ghost vx_k = vx_i1 - 1;
    proof { vx_lits(); lemma_table(*doc, vx_k); }
%loop 1 end
    proof {
        lemma_clip_says(svg_defs.el().kids.last());  // [C11]
        assert(svg_defs.el().kids =~= c0.push(svg_defs.el().kids.last()));
        lemma_says(c0, svg_defs.el().kids.last(), nil(), nil()); assert(nil() + nil() =~= nil());  // [C11]
        lemma_clip_step(*doc, vx_k, c0, svg_defs.el().kids.last(), record_clip_path_id_prefix@);  // [C12]
    }
%loop 1 before
    proof {
        let vx_b = svg_doc.el().kids;
        assert(vx_b =~= Seq::<El>::empty().push(vx_b[0])); assert(nil() + nil() =~= nil());
        assert(says1(vx_b[0], nil()));  // [C11]
        lemma_says(Seq::empty(), vx_b[0], nil(), nil());  // [C11]
    }
%loop 1 after
    proof { vx_h = svg_doc.el().kids; }
%loop 2 before
    let ghost vx_c = svg_doc.el().kids[1].kids;
    proof {
        let vx_b = svg_doc.el().kids;
        assert(vx_h.push(vx_b.last()) =~= vx_b);
        lemma_defs(vx_b.last());  // [C11]
        lemma_says(vx_h, vx_b.last(), nil(), nil()); assert(nil() + nil() =~= nil());  // [C11]
        lemma_start(*doc, vx_c); assert(vx_b.skip(2) =~= Seq::empty());
    }
%loop 2
    doc.wf(), on_grid(*doc), vx_s2@ == doc.tabs(), *writer == *old(writer), border_radius.grid(), px.grid(), 0 <= px.h() <= 24,
    tables_placed(*doc, doc.tabs().len() as int), all_rows_placed(*doc, vx_i2 as int),  // [C13]
    root_safe(svg_doc.el()), says(svg_doc.el().kids, tables_texts(*doc, vx_i2 as int)),  // [C11]
    root_box(svg_doc.el(), self.view_box), head(*doc, svg_doc.el().kids), vx_c == svg_doc.el().kids[1].kids, clips_named(doc.tabs().len() as int, vx_c, record_clip_path_id_prefix@),  // [C12]
    tables_pic(*doc, vx_i2 as int, vx_c, svg_doc.el().kids.skip(2)),  // [C12]
%loop 2 start
    broadcast use show;
    broadcast use lemma_bare_says;
    let ghost vx_a = svg_doc.el().kids; let ghost vx_k = vx_i2 - 1;
    proof { vx_lits(); lemma_start(*doc, vx_c); lemma_table(*doc, vx_k); assert(table_done(*doc, vx_k)); }
%loop 3 before
    proof {
        let vx_b = svg_doc.el().kids;
        assert(vx_b =~= vx_a.push(vx_b.last())); assert(vx_b.skip(vx_a.len() as int + 1) =~= Seq::empty()); assert(vx_b.skip(vx_a.len() as int).skip(1) =~= Seq::empty()); assert(vx_b.take(vx_a.len() as int) =~= vx_a);
        assert(tables_texts(*doc, vx_k) + nil() =~= tables_texts(*doc, vx_k));
        assert(says1(vx_b.last(), nil()));  // [C11]
        lemma_says(vx_a, vx_b.last(), tables_texts(*doc, vx_k), nil());  // [C11]
    }
%loop 3
    doc.wf(), on_grid(*doc), 0 <= vx_k < doc.tabs().len(), vx_s3@ == doc.rows(vx_k), *writer == *old(writer), border_radius.grid(), px.grid(), 0 <= px.h() <= 24,
    rows_placed(*doc, vx_k, vx_i3 as int),  // [C13]
    root_safe(svg_doc.el()), says(svg_doc.el().kids, tables_texts(*doc, vx_k) + rows_texts(*doc, vx_k, vx_i3 as int)),  // [C11]
    root_box(svg_doc.el(), self.view_box), head(*doc, svg_doc.el().kids), vx_c == svg_doc.el().kids[1].kids, clips_named(doc.tabs().len() as int, vx_c, record_clip_path_id_prefix@),  // [C12]
    record_clip_path_id@ == record_clip_path_id_prefix@ + nat_shown(vx_k),  // [C12]
    2 <= vx_a.len() < svg_doc.el().kids.len(), svg_doc.el().kids.take(vx_a.len() as int) == vx_a,  // [C12]
    part_pic(*doc, vx_k, vx_i3 as int, vx_c, svg_doc.el().kids.skip(vx_a.len() as int)),  // [C12]
%loop 3 start
    broadcast use show;
    broadcast use lemma_bare_says;
    let ghost vx_r = svg_doc.el().kids; let ghost vx_j = vx_i3 - 1;
    proof { vx_lits(); lemma_row(*doc, vx_k, vx_j); }
%loop 3 end
    proof {
        let vx_b = svg_doc.el().kids; let vx_n = vx_r.len() as int;
        assert(vx_b.take(vx_n) =~= vx_r); assert(vx_b.take(vx_a.len() as int) =~= vx_a);
        assert(row_said(*doc, vx_k, vx_j, vx_b.skip(vx_n))) by { reveal(row_said); }  // [C11]
        lemma_row_said(*doc, vx_k, vx_j, vx_b.skip(vx_n));  // [C11]
        lemma_push_says(vx_r, vx_b, tables_texts(*doc, vx_k) + rows_texts(*doc, vx_k, vx_j), row_texts(*doc, vx_k, vx_j));  // [C11]
        lemma_more_texts(*doc, vx_k, vx_j);
        assert(row_pic(*doc, vx_k, vx_j, vx_c, vx_b.skip(vx_n))) by { reveal(row_pic); lemma_clipped(*doc, vx_k, vx_c, record_clip_path_id_prefix@); }  // [C12]
        lemma_row_step(*doc, vx_k, vx_j, vx_c, vx_a, vx_r, vx_b);  // [C12]
    }
%loop 2 end
    proof {
        lemma_table_step(*doc, vx_k, vx_c, vx_a, svg_doc.el().kids);  // [C12]
        lemma_more_tables(*doc, vx_k);
    }
%loop 4 before
    let ghost vx_t = svg_doc.el().kids;
    proof { assert(vx_t.skip(vx_t.len() as int) =~= Seq::empty()); assert(vx_t.take(vx_t.len() as int) =~= vx_t); }
%loop 4
    doc.wf(), on_grid(*doc), vx_s4@.len() == doc.n_rel(), forall|e: int| 0 <= e < vx_s4@.len() ==> *(#[trigger] vx_s4@[e]) == doc.rel(e), writer.out() == old(writer).out(),
    routes_drawn(*doc, vx_i4 as int),  // [C13]
    root_safe(svg_doc.el()), says(svg_doc.el().kids, tables_texts(*doc, doc.tabs().len() as int)),  // [C11]
    root_box(svg_doc.el(), self.view_box), vx_t.len() <= svg_doc.el().kids.len(), svg_doc.el().kids.take(vx_t.len() as int) == vx_t,  // [C12]
    edges_pic(*doc, vx_i4 as int, svg_doc.el().kids.skip(vx_t.len() as int)),  // [C12]
%loop 4 start
    let ghost vx_r = svg_doc.el().kids; let ghost vx_e = vx_i4 - 1;
    proof { lemma_rel(*doc, vx_e); }
%loop 4 end
    proof {
        let vx_b = svg_doc.el().kids; let vx_n = vx_r.len() as int; let vx_m = vx_t.len() as int;
        assert(vx_b.take(vx_n) =~= vx_r); assert(vx_b.take(vx_m) =~= vx_t);
        let vx_p = vx_b.skip(vx_n);
        assert(vx_p =~= seq![vx_p[0], vx_p[1], vx_p[2]]);
        lemma_edge_says(vx_p[0], vx_p[1], vx_p[2]);  // [C11]
        lemma_push_says(vx_r, vx_b, tables_texts(*doc, doc.tabs().len() as int), nil()); assert(tables_texts(*doc, doc.tabs().len() as int) + nil() =~= tables_texts(*doc, doc.tabs().len() as int));  // [C11]
        lemma_edge_step(*doc, vx_e, vx_m, vx_r, vx_b);  // [C12]
    }
%loop 4 after
    proof {
        assert(complete(*doc)) by { reveal(complete); }  // [C13]
        if self.view_box.is_some() { lemma_picture(*doc, self.view_box.unwrap(), svg_doc.el(), vx_t); }  // [C12]
    }
%end
    proof { if vx_ret is Ok { assert(wrote(old(writer).out(), writer.out(), svg_doc.el())); } }
