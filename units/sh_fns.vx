%verbatim
pub open spec fn rest_text(fs: Seq<FieldV>, k: int) -> Seq<char> { fields_text(fs.skip(k)) }
pub proof fn lemma_rest_fields(fs: Seq<FieldV>, k: int) requires 0 <= k < fs.len()
    ensures fields_text(fs.skip(k)) == field_text(fs[k]) + (if k + 1 == fs.len() { seq![' '] } else { seq![';', ' '] }) + fields_text(fs.skip(k + 1))
{ assert(fs.skip(k).drop_first() =~= fs.skip(k + 1)); }
/// What is left of the fields' text at the k-th, the blank behind the last apart.
pub open spec fn pending(fs: Seq<FieldV>, k: int) -> Seq<char> { if k == fs.len() { seq![' '] } else { rest_text(fs, k) } }
pub proof fn lemma_rest_entries(es: Seq<EntryV>, k: int) requires 0 <= k < es.len()
    ensures entries_text(es.skip(k)) == seq![' ', ' ', ' ', ' '] + entry_text(es[k]) + seq!['\n'] + entries_text(es.skip(k + 1))
{ assert(es.skip(k).drop_first() =~= es.skip(k + 1)); }
%file erd
%fn EntityFieldKey::to_keyword C20
    ensures r@ =~= key_text(*self),  // [C20]
%start
    proof { reveal_strlit("PK"); reveal_strlit("FK"); }
%fn EntityFieldType::Display::fmt C20
    ensures puts(*old(f), *final(f), r, type_text(*self)),  // [C20]
%fn EntityField::Display::fmt C20
    ensures puts(*old(f), *final(f), r, field_text(field_v(*self))),  // [C20]
%fn EntityPath::Display::fmt C20
    ensures puts(*old(f), *final(f), r, path_text(named(*self))),  // [C20]
%fn EntityRelation::Display::fmt C20
    ensures puts(*old(f), *final(f), r, entry_text(rel_v(*self))),  // [C20]
%fn EntityDefinition::Display::fmt C20
    ensures puts(*old(f), *final(f), r, entry_text(def_v(*self))),  // [C20]
%start
    let ghost fs = fields_v(self.fields@);
    let ghost vx_t = f.text();
    proof {
        if fs.len() > 0 { assert(entry_text(def_v(*self)) =~= self.name@ + seq![' ', '{', ' '] + fields_text(fs) + seq!['}']); }
        else { assert(entry_text(def_v(*self)) =~= self.name@ + seq![' ', '{'] + seq!['}']); }
    }
%loop 1
    fs == fields_v(self.fields@), fs.len() > 0, f.solid() == old(f).solid(),
    f.text() + pending(fs, vx_i1 as int) =~= vx_t + self.name@ + seq![' ', '{', ' '] + fields_text(fs),
%loop 1 before
    proof { assert(fs.skip(0) =~= fs); }
%loop 1 start
    proof { lemma_rest_fields(fs, vx_i1 - 1); assert(fs.skip(fs.len() as int) =~= Seq::empty()); }
%loop 1 after
    proof { assert(f.text() + seq![' '] =~= vx_t + self.name@ + seq![' ', '{', ' '] + fields_text(fs)); }
%end
    proof { if vx_ret is Ok { if fs.len() > 0 { assert(f.text() =~= vx_t + self.name@ + seq![' ', '{', ' '] + fields_text(fs) + seq!['}']); } else { assert(f.text() =~= vx_t + self.name@ + seq![' ', '{'] + seq!['}']); } } }
%fn ModuleEntry::Display::fmt C20
    ensures puts(*old(f), *final(f), r, entry_text(entry_v(*self))),  // [C20]
%fn Module::Display::fmt C20
    ensures puts(*old(f), *final(f), r, mod_text(mod_v(*self))),  // [C20]
%start
    hide(entry_text);
    let ghost m = mod_v(*self);
    let ghost vx_t = f.text();
%loop 1
    m == mod_v(*self), f.solid() == old(f).solid(),
    f.text() + entries_text(m.entries.skip(vx_i1 as int)) + seq!['}'] =~= vx_t + mod_text(m),
%loop 1 before
    proof { assert(m.entries.skip(0) =~= m.entries); }
%loop 1 start
    proof { lemma_rest_entries(m.entries, vx_i1 - 1); }
%loop 1 after
    proof { assert(m.entries.skip(m.entries.len() as int) =~= Seq::empty()); }
%import par_fns.vx
%verbatim
/// A module whose names are plain, displayed and parsed, is the module again, without errors.
fn vx_round_trip(m: &Module, f: VxFmt) requires plain(mod_v(*m)), f.solid(), f.text() == Seq::<char>::empty()
{
    let mut f = f;
    let shown = m.fmt(&mut f);
    proof { lemma_shown(mod_v(*m)); assert(f.text() =~= mod_text(mod_v(*m))); }
    assert(shown is Ok);  // [C20]
    let (x, lexical, grammatical) = parse(f.as_text());
    assert((x matches Some(y) && mod_v(y) == mod_v(*m)) && lexical@.len() == 0 && grammatical@.len() == 0);  // [C20]
}
