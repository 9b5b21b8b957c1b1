%file layout
%fn SimpleLayoutEngine::edge_junction_nodes_around_shapes C10
    requires doc.wf(), roomy(*doc),
    ensures all_ok(r@), forall|k: int| 0 <= k < doc.tabs().len() ==> #[trigger] corners(*doc, r@, k),
%loop 1
    all_ok(junctions@), forall|k: int| 0 <= k < vx_i1 ==> #[trigger] corners(*doc, junctions@, k),
%loop 1 start
    let ghost s0 = junctions@;
%loop 1 end
    proof {
        lemma_holds_more(s0, junctions@);
        let n = s0.len() as int;
        assert(junctions@[n].ok() && junctions@[n + 1].ok() && junctions@[n + 2].ok() && junctions@[n + 3].ok());
        assert(all_ok(junctions@)) by { assert forall|j: int| 0 <= j < junctions@.len() implies (#[trigger] junctions@[j]).ok() by { if j < n { assert(s0[j].ok()); } } }
        assert(corners(*doc, junctions@, vx_i1 - 1));
        assert forall|k: int| 0 <= k < vx_i1 implies #[trigger] corners(*doc, junctions@, k) by { if k < vx_i1 - 1 { assert(corners(*doc, s0, k)); } }
    }
%fn SimpleLayoutEngine::edge_junction_nodes_from_terminal_port C10
    requires doc.wf(), roomy(*doc), terminal_port.location.ok(), all_ok(other_junctions@),
    ensures all_ok(r@),
        forall|j: int| 0 <= j < other_junctions@.len() && seen(*doc, *terminal_port, #[trigger] other_junctions@[j]) ==> cross_of(*terminal_port, other_junctions@[j], r@),
%start
    hide(cross_of); hide(holds);
    let ghost pt = *terminal_port;
%loop 1
    vx_s1@ == doc.tabs(), vx_o1@.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> *(#[trigger] vx_o1@[k]) == doc.tab(k),
%loop 1 before
    let mut vx_o1: Vec<&NodeData> = vx_o1;
%loop 2
    vx_s2@.len() == doc.tabs().len(), forall|k: int| 0 <= k < vx_s2@.len() ==> *(#[trigger] vx_s2@[k]) == doc.tab(k), vx_o2@.len() == vx_i2, forall|k: int| 0 <= k < vx_i2 ==> (#[trigger] vx_o2@[k]) == doc.tab(k).rc(),
%loop 2 before
    let mut vx_o2: Vec<Rect> = vx_o2;
%loop 3
    vx_s3@.len() == doc.tabs().len(), forall|k: int| 0 <= k < vx_s3@.len() ==> (#[trigger] vx_s3@[k]) == doc.tab(k).rc(), grown_all(*doc, vx_o3@, vx_i3 as int, MARGIN()),
%loop 3 before
    let mut vx_o3: Vec<Rect> = vx_o3;
%loop 3 start
    proof { assert(roomy_rect(doc.tab(vx_i3 - 1).rc())); }
%loop 4
    vx_s4@ == shape_rects@, grown_all(*doc, vx_s4@, doc.tabs().len() as int, MARGIN()), min_x.grid() && (min_x.h() == 0 || exists|l: int| 0 <= l < doc.tabs().len() && (#[trigger] doc.tab(l)).rc().X1() + MARGIN() < conn_pt.X() && min_x.h() == doc.tab(l).rc().X1() + MARGIN()),
%loop 4 start
    proof { assert(roomy_rect(doc.tab(vx_i4 - 1).rc())); }
%loop 5 before
    let _: &Vec<Point> = &junctions;
%loop 5
    all_ok(junctions@), vx_s5@ == other_junctions@,
    forall|j: int| 0 <= j < vx_i5 && seen(*doc, pt, #[trigger] other_junctions@[j]) ==> cross_of(pt, other_junctions@[j], junctions@),
%loop 5 start
    let ghost s0 = junctions@; let ghost jj = other_junctions@[vx_i5 - 1];
%loop 5 end
    proof { lemma_cross(pt, s0, junctions@, jj); }
%loop 6
    vx_s6@ == shape_rects@, grown_all(*doc, vx_s6@, doc.tabs().len() as int, MARGIN()), max_x.num() && (max_x.val() > 8388608real || max_x.grid() && exists|l: int| 0 <= l < doc.tabs().len() && (#[trigger] doc.tab(l)).rc().X0() - MARGIN() > conn_pt.X() && max_x.h() == doc.tab(l).rc().X0() - MARGIN()),
%loop 6 start
    proof { assert(roomy_rect(doc.tab(vx_i6 - 1).rc())); }
%loop 7 before
    let _: &Vec<Point> = &junctions;
%loop 7
    all_ok(junctions@), vx_s7@ == other_junctions@,
    forall|j: int| 0 <= j < vx_i7 && seen(*doc, pt, #[trigger] other_junctions@[j]) ==> cross_of(pt, other_junctions@[j], junctions@),
%loop 7 start
    let ghost s0 = junctions@; let ghost jj = other_junctions@[vx_i7 - 1];
%loop 7 end
    proof { lemma_cross(pt, s0, junctions@, jj); }
%loop 8
    vx_s8@ == shape_rects@, grown_all(*doc, vx_s8@, doc.tabs().len() as int, MARGIN()), max_y.num() && (max_y.val() > 8388608real || max_y.grid() && exists|l: int| 0 <= l < doc.tabs().len() && (#[trigger] doc.tab(l)).rc().Y0() - MARGIN() > conn_pt.Y() && max_y.h() == doc.tab(l).rc().Y0() - MARGIN()),
%loop 8 start
    proof { assert(roomy_rect(doc.tab(vx_i8 - 1).rc())); }
%loop 9 before
    let _: &Vec<Point> = &junctions;
%loop 9
    all_ok(junctions@), vx_s9@ == other_junctions@,
    forall|j: int| 0 <= j < vx_i9 && seen(*doc, pt, #[trigger] other_junctions@[j]) ==> cross_of(pt, other_junctions@[j], junctions@),
%loop 9 start
    let ghost s0 = junctions@; let ghost jj = other_junctions@[vx_i9 - 1];
%loop 9 end
    proof { lemma_cross(pt, s0, junctions@, jj); }
%loop 10
    vx_s10@ == shape_rects@, grown_all(*doc, vx_s10@, doc.tabs().len() as int, MARGIN()), min_y.grid() && (min_y.h() == 0 || exists|l: int| 0 <= l < doc.tabs().len() && (#[trigger] doc.tab(l)).rc().Y1() + MARGIN() < conn_pt.Y() && min_y.h() == doc.tab(l).rc().Y1() + MARGIN()),
%loop 10 start
    proof { assert(roomy_rect(doc.tab(vx_i10 - 1).rc())); }
%loop 11 before
    let _: &Vec<Point> = &junctions;
%loop 11
    all_ok(junctions@), vx_s11@ == other_junctions@,
    forall|j: int| 0 <= j < vx_i11 && seen(*doc, pt, #[trigger] other_junctions@[j]) ==> cross_of(pt, other_junctions@[j], junctions@),
%loop 11 start
    let ghost s0 = junctions@; let ghost jj = other_junctions@[vx_i11 - 1];
%loop 11 end
    proof { lemma_cross(pt, s0, junctions@, jj); }
%fn SimpleLayoutEngine::remove_overlapped_junction_nodes C08 C10
    requires doc.wf(), roomy(*doc), forall|j: int| 0 <= j < junctions@.len() ==> (#[trigger] junctions@[j]).ok(),
    ensures all_ok(r@), 
        forall|j: int| 0 <= j < r@.len() ==> off_all(*doc, MARGIN() - 2, #[trigger] r@[j]),
        kept_of(*doc, junctions@, r@),
%loop 1
    vx_s1@ == doc.tabs(), vx_o1@.len() == vx_i1, forall|k: int| 0 <= k < vx_i1 ==> *(#[trigger] vx_o1@[k]) == doc.tab(k),
%loop 1 before
    let mut vx_o1: Vec<&NodeData> = vx_o1;
%loop 2
    vx_s2@.len() == doc.tabs().len(), forall|k: int| 0 <= k < vx_s2@.len() ==> *(#[trigger] vx_s2@[k]) == doc.tab(k), vx_o2@.len() == vx_i2, forall|k: int| 0 <= k < vx_i2 ==> (#[trigger] vx_o2@[k]) == doc.tab(k).rc(),
%loop 2 before
    let mut vx_o2: Vec<Rect> = vx_o2;
%loop 3
    vx_s3@.len() == doc.tabs().len(), forall|k: int| 0 <= k < vx_s3@.len() ==> (#[trigger] vx_s3@[k]) == doc.tab(k).rc(), grown_all(*doc, vx_o3@, vx_i3 as int, MARGIN() - 2),
%loop 3 before
    let mut vx_o3: Vec<Rect> = vx_o3;
%loop 3 start
    proof { assert(roomy_rect(doc.tab(vx_i3 - 1).rc())); }
%loop 4
    vx_s4@ == junctions@, grown_all(*doc, shape_rects@, doc.tabs().len() as int, MARGIN() - 2),
    all_ok(edge_junctions@), forall|j: int| 0 <= j < edge_junctions@.len() ==> off_all(*doc, MARGIN() - 2, #[trigger] edge_junctions@[j]),
    forall|j: int| 0 <= j < vx_i4 && off_all(*doc, MARGIN() - 2, *#[trigger] junctions@[j]) ==> holds(edge_junctions@, junctions@[j].X(), junctions@[j].Y()),
%loop 4 start
    let ghost s0 = edge_junctions@;
%loop 5
    vx_s5@ == shape_rects@, edge_junctions@ == s0, forall|k: int| 0 <= k < vx_i5 ==> off((#[trigger] doc.tab(k)).rc(), MARGIN() - 2, *j),
%loop 5 start
    proof { assert(roomy_rect(doc.tab(vx_i5 - 1).rc())); }
%loop 4 end
    proof { lemma_holds_more(s0, edge_junctions@); assert(at_pt(edge_junctions@[s0.len() as int], j.X(), j.Y())); assert(off_all(*doc, MARGIN() - 2, *j)); }
