%file parser
%fn parse C16 C17 C18
    ensures
        r.0 is Some || r.1@.len() > 0 || r.2@.len() > 0,  // [C17]
        forall|k: int| 0 <= k < r.1@.len() ==> in_text((#[trigger] r.1@[k]).sp(), src@.len() as int),  // [C17]
        forall|k: int| 0 <= k < r.2@.len() ==> in_text((#[trigger] r.2@[k]).sp(), src@.len() as int),  // [C17]
        forall|m: ModV| #[trigger] spells(src@, m) ==> (r.0 matches Some(x) && mod_v(x) == m) && r.1@.len() == 0 && r.2@.len() == 0,  // [C16,C18]
%start
    hide(items); hide(file_at); hide(spells);
    broadcast use b_tks;
    proof { lemma_reads(src@); }
