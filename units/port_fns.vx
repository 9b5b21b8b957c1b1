%file layout
%fn SimpleLayoutEngine::place_terminal_ports C05 C15
    requires old(doc).wf(), rects_ok(*old(doc)), bare_from(*old(doc), 0),
    ensures
        same_but_ports(*old(doc), *final(doc)),
        final(doc).wf(),
        ports_ok(*final(doc), final(doc).tabs().len() as int),  // [C05,C15]
%start
    hide(Document::wf_tree); hide(Document::wf_edges); hide(ports_ok); hide(bare_from); hide(rects_ok); hide(ports_on); hide(even_rect);
    let ghost d0 = *doc;
    let ghost n = d0.tabs().len() as int;
    proof { reveal(Document::wf_tree); }
%loop 1 before
    proof { assert(ports_ok(d0, 0)) by { reveal(ports_ok); } }
%loop 1
    same_but_ports(d0, *doc), ports_ok(*doc, vx_i1 as int), bare_from(*doc, vx_i1 as int),  // [C05,C15]
%loop 1 start
    let ghost k = vx_i1 - 1;
    let ghost docA = *doc;
    proof { lemma_same_tree(d0, *doc); lemma_rects_same(d0, *doc); assert(d0.rows(k) == doc.rows(k)); assert(doc.has(doc.tabs()[k]) && doc.tab(k).kind is Record) by { reveal(Document::wf_tree); }
        assert(even_rect(doc.tab(k))) by { reveal(rects_ok); } reveal(even_rect); assert(doc.tab(k).terminal_ports@.len() == 0) by { reveal(bare_from); } }
%loop 2 before
    let ghost nd01 = *record_node;
%loop 2
    record_node.same_tree(nd01), record_node.origin == nd01.origin, record_node.size == nd01.size,
    record_node.terminal_ports@.len() == vx_i2,
    forall|j: int| 0 <= j < vx_i2 ==> (#[trigger] record_node.terminal_ports@[j]) == (TerminalPort { id: TerminalPortId(child_id, j as usize), location: Point { x: vx_s2@[j].0, y: vx_s2@[j].1 }, orientation: vx_s2@[j].2 }),  // [C05,C15]
%loop 2 after
    proof { assert(ports_on(*record_node, child_id, true, true)) by { reveal(ports_on); } }
%loop 3 before
    proof { assert(node_ported(docA, *doc, child_id)); lemma_port_table(docA, *doc, k); lemma_same_tree(d0, *doc); lemma_rects_same(d0, *doc); }
%loop 3
    same_but_ports(d0, *doc), ports_ok(*doc, k), ports_table(*doc, k), bare_from(*doc, k + 1),  // [C05,C15]
    forall|j: int| 0 <= j < vx_i3 ==> #[trigger] ports_row(*doc, k, j),  // [C05,C15]
    forall|j: int| vx_i3 <= j < d0.rows(k).len() ==> (#[trigger] doc.row(k, j)).terminal_ports@.len() == 0,
%loop 3 start
    let ghost docB = *doc;
    let ghost i = vx_i3 - 1;
    proof { lemma_same_tree(d0, *doc); lemma_rects_same(d0, *doc); assert(d0.rows(k) == doc.rows(k)); assert(doc.has(doc.rows(k)[i]) && doc.row(k, i).kind is Field) by { reveal(Document::wf_tree); }
        assert(even_rect(doc.row(k, i))) by { reveal(rects_ok); } reveal(even_rect); assert(doc.row(k, i).terminal_ports@.len() == 0); }
%loop 4 before
    let ghost nd02 = *field_node;
%loop 4
    field_node.same_tree(nd02), field_node.origin == nd02.origin, field_node.size == nd02.size,
    field_node.terminal_ports@.len() == vx_i4,
    forall|j: int| 0 <= j < vx_i4 ==> (#[trigger] field_node.terminal_ports@[j]) == (TerminalPort { id: TerminalPortId(field_node_index, j as usize), location: Point { x: vx_s4@[j].0, y: vx_s4@[j].1 }, orientation: vx_s4@[j].2 }),  // [C05,C15]
%loop 4 after
    proof { assert(ports_on(*field_node, field_node_index, true, true)) by { reveal(ports_on); } }
%loop 5 before
    let ghost nd02 = *field_node;
%loop 5
    field_node.same_tree(nd02), field_node.origin == nd02.origin, field_node.size == nd02.size,
    field_node.terminal_ports@.len() == vx_i5,
    forall|j: int| 0 <= j < vx_i5 ==> (#[trigger] field_node.terminal_ports@[j]) == (TerminalPort { id: TerminalPortId(field_node_index, j as usize), location: Point { x: vx_s5@[j].0, y: vx_s5@[j].1 }, orientation: vx_s5@[j].2 }),  // [C05,C15]
%loop 5 after
    proof { assert(ports_on(*field_node, field_node_index, true, false)) by { reveal(ports_on); } }
%loop 6 before
    let ghost nd02 = *field_node;
%loop 6
    field_node.same_tree(nd02), field_node.origin == nd02.origin, field_node.size == nd02.size,
    field_node.terminal_ports@.len() == vx_i6,
    forall|j: int| 0 <= j < vx_i6 ==> (#[trigger] field_node.terminal_ports@[j]) == (TerminalPort { id: TerminalPortId(field_node_index, j as usize), location: Point { x: vx_s6@[j].0, y: vx_s6@[j].1 }, orientation: vx_s6@[j].2 }),  // [C05,C15]
%loop 6 after
    proof { assert(ports_on(*field_node, field_node_index, false, true)) by { reveal(ports_on); } }
%loop 7 before
    let ghost nd02 = *field_node;
%loop 7
    field_node.same_tree(nd02), field_node.origin == nd02.origin, field_node.size == nd02.size,
    field_node.terminal_ports@.len() == vx_i7,
    forall|j: int| 0 <= j < vx_i7 ==> (#[trigger] field_node.terminal_ports@[j]) == (TerminalPort { id: TerminalPortId(field_node_index, j as usize), location: Point { x: vx_s7@[j].0, y: vx_s7@[j].1 }, orientation: vx_s7@[j].2 }),  // [C05,C15]
%loop 7 after
    proof { assert(ports_on(*field_node, field_node_index, false, false)) by { reveal(ports_on); } }
%loop 3 end
    proof { assert(node_ported(docB, *doc, field_node_index)); lemma_port_row(docB, *doc, k, i); lemma_same_tree(d0, *doc); }
%loop 3 after
    proof { lemma_same_tree(d0, *doc); assert(ports_ok(*doc, k + 1)) by { reveal(ports_ok); } }
%loop 1 after
    proof { lemma_same_tree(d0, *doc); }
