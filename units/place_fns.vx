%file layout
%fn SimpleLayoutEngine::place_nodes C03 C04 C15
    requires old(doc).wf(), fits(*old(doc)),
    ensures
        same_but_place(*old(doc), *final(doc)),
        final(doc).wf(),
        grid_ok(*final(doc)),  // [C03]
        tiled(*final(doc)),  // [C03]
        r.is_some() && view_ok(*final(doc), r.unwrap()),  // [C04]
        placed(*final(doc), final(doc).tabs().len() as int),  // [C03,C15]
%start
    hide(by); hide(mh); hide(Document::wf_edges); hide(placed); hide(Document::wf_tree);
    let ghost d0 = *doc;
    let ghost n = d0.tabs().len() as int;
    proof { reveal(Document::wf_tree); }
%loop 1 before
    proof { assert(placed(*doc, 0)) by { reveal(placed); } assert(mh(d0, 0) == 0 && by(d0, 0) == ORG_Y()) by { reveal(mh); reveal(by); } }
%loop 1
    same_but_place(d0, *doc),
    base_y.grid() && base_y.h() == (if vx_i1 == 0 { ORG_Y() } else { by(d0, vx_i1 - 1) }),
    max_height.grid() && max_height.h() == mh(d0, vx_i1 as int),
    placed(*doc, vx_i1 as int),  // [C03,C15]
%loop 1 start
    let ghost k = vx_i1 - 1;
    proof { lemma_same_tree(d0, *doc); lemma_by_step(d0, k); lemma_sizes(d0, k); assert(d0.rows(k) == doc.rows(k)); assert(doc.has(doc.tabs()[k]) && doc.tab(k).kind is Record) by { reveal(Document::wf_tree); } }
    let ghost docA = *doc;
%loop 2 before
    proof { assert(by(docA, k) == by(d0, k)); assert(rect_is(doc.nd(docA.tabs()[k]), col_x(k), by(docA, k), WIDTH(), hgt(docA, k))); lemma_place_table(docA, *doc, k); lemma_same_tree(d0, *doc); }
    let ghost docB = *doc;
%loop 2
    same_but_place(d0, *doc), placed(*doc, k), placed_table(*doc, k),  // [C03,C15]
    forall|j: int| 0 <= j < vx_i2 ==> #[trigger] placed_row(*doc, k, j),  // [C03,C15]
%loop 2 start
    proof { lemma_same_tree(d0, *doc); assert(doc.rows(k) == d0.rows(k)); assert(doc.has(doc.rows(k)[vx_i2 - 1]) && doc.row(k, vx_i2 - 1).kind is Field) by { reveal(Document::wf_tree); } 
        assert(0 <= LINE() * (vx_i2 - 1) && LINE() * (vx_i2 - 1) + LINE() <= hgt(d0, k)); }
    let ghost docC = *doc;
%loop 2 end
    proof { lemma_place_row(docC, *doc, k, vx_i2 - 1); lemma_same_tree(d0, *doc); }
%loop 2 after
    proof { lemma_same_tree(d0, *doc); assert(placed(*doc, k + 1)) by { reveal(placed); } }
%loop 1 after
    proof { lemma_same_tree(d0, *doc); lemma_places(*doc); if n > 0 { lemma_by_step(d0, n - 1); } }
%end
    proof {
        lemma_same_tree(d0, *doc);
        assert(d0.wf_tree()) by { reveal(Document::wf_tree); }
        let v = vx_ret.unwrap(); assert(v.X0() == 0 && v.Y0() == 0); assert(v.ok()); assert(v.W() > 0 && v.H() > 0); assert(doc.tabs() == d0.tabs()); assert(d0.tabs().len() > 0 ==> v.Y1() >= bottom(d0) - ORG_Y() + 100);
        assert(placed(*doc, doc.tabs().len() as int));
        lemma_view_ok(d0, *doc, vx_ret.unwrap());
    }
