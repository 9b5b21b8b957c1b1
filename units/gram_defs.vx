%verbatim
// ------------------------------------------------------------------ the documented grammar, over tokens
pub struct FieldV { pub name: Seq<char>, pub ty: EntityFieldType, pub key: Option<EntityFieldKey> }
pub enum EntryV { Def(Seq<char>, Seq<FieldV>), Rel(Named, Named) }
/// What a module consists of.
pub struct ModV { pub name: Option<Seq<char>>, pub entries: Seq<EntryV> }
pub open spec fn named(p: EntityPath) -> Named { p.named() }
pub open spec fn field_v(f: EntityField) -> FieldV { FieldV { name: f.name@, ty: f.field_type, key: f.field_key } }
pub open spec fn fields_v(v: Seq<EntityField>) -> Seq<FieldV> { v.map_values(|f: EntityField| field_v(f)) }
pub open spec fn def_v(d: EntityDefinition) -> EntryV { EntryV::Def(d.name@, fields_v(d.fields@)) }
pub open spec fn rel_v(d: EntityRelation) -> EntryV { EntryV::Rel(named(d.start_path), named(d.end_path)) }
pub open spec fn entry_v(e: ModuleEntry) -> EntryV { match e { ModuleEntry::EntityDefinition(d) => def_v(d), ModuleEntry::EntityRelation(r) => rel_v(r) } }
pub open spec fn entries_v(v: Seq<ModuleEntry>) -> Seq<EntryV> { v.map_values(|e: ModuleEntry| entry_v(e)) }
pub open spec fn name_v(n: Option<String>) -> Option<Seq<char>> { match n { Some(x) => Some(x@), None => None } }
pub open spec fn mod_v(m: Module) -> ModV { ModV { name: name_v(m.name), entries: entries_v(m.entries@) } }

pub open spec fn tks(s: Seq<Token>) -> Seq<Tk> { s.map_values(|t: Token| tv(t)) }
pub open spec fn tat(t: Seq<Tk>, i: int, k: Tk) -> bool { 0 <= i < t.len() && t[i] == k }
/// A separator, also what pads: a new line or a semicolon.
pub open spec fn sep(t: Seq<Tk>, i: int) -> bool { tat(t, i, Tk::Newline) || tat(t, i, Tk::Ctrl(';')) }
pub open spec fn pad_end(t: Seq<Tk>, i: int) -> int decreases t.len() - i { if sep(t, i) { pad_end(t, i + 1) } else { i } }
pub open spec fn name_at(t: Seq<Tk>, i: int) -> Out<Seq<char>> { if 0 <= i < t.len() && t[i] is Ident { Out::Ok(t[i]->Ident_0, i + 1) } else { Out::Fail } }
pub open spec fn path_at(t: Seq<Tk>, i: int) -> Out<Named> {
    match name_at(t, i) {
        Out::Ok(e, j) => if tat(t, j, Tk::Ctrl('.')) && name_at(t, j + 1) is Ok { Out::Ok(Named::Column(e, name_at(t, j + 1)->Ok_0), j + 2) } else { Out::Ok(Named::Table(e), j) },
        _ => Out::Fail,
    }
}
pub open spec fn ty_of(k: Tk) -> Option<EntityFieldType> {
    match k { Tk::Int => Some(EntityFieldType::Int), Tk::Uuid => Some(EntityFieldType::Uuid), Tk::Text => Some(EntityFieldType::Text), Tk::Timestamp => Some(EntityFieldType::Timestamp), _ => None }
}
pub open spec fn key_of(k: Tk) -> Option<EntityFieldKey> { match k { Tk::Pk => Some(EntityFieldKey::PrimaryKey), Tk::Fk => Some(EntityFieldKey::ForeginKey), _ => None } }
pub open spec fn field_at(t: Seq<Tk>, i: int) -> Out<FieldV> {
    if 0 <= i && i + 1 < t.len() && t[i] is Ident && ty_of(t[i + 1]) is Some {
        let f = FieldV { name: t[i]->Ident_0, ty: ty_of(t[i + 1])->0, key: None };
        if i + 2 < t.len() && key_of(t[i + 2]) is Some { Out::Ok(FieldV { key: key_of(t[i + 2]), ..f }, i + 3) } else { Out::Ok(f, i + 2) }
    } else { Out::Fail }
}
/// Separator, padding and a field, over and over.
pub open spec fn more_fields(t: Seq<Tk>, i: int) -> Out<Seq<FieldV>> decreases t.len() - i {
    if !sep(t, i) { Out::Ok(Seq::empty(), i) } else {
        match field_at(t, pad_end(t, i + 1)) {
            Out::Ok(f, j) => if i < j <= t.len() { match more_fields(t, j) { Out::Ok(v, k) => Out::Ok(seq![f] + v, k), x => x } } else { Out::Other },
            _ => Out::Ok(Seq::empty(), i),
        }
    }
}
pub open spec fn fields_at(t: Seq<Tk>, i: int) -> Out<Seq<FieldV>> {
    let a = pad_end(t, i);
    match field_at(t, a) {
        Out::Ok(f, j) => match more_fields(t, j) { Out::Ok(v, k) => Out::Ok(seq![f] + v, pad_end(t, k)), x => x },
        _ => Out::Ok(Seq::empty(), pad_end(t, a)),
    }
}
pub open spec fn def_at(t: Seq<Tk>, i: int) -> Out<EntryV> {
    match name_at(t, i) {
        Out::Ok(e, j) => if tat(t, pad_end(t, j), Tk::Ctrl('{')) {
            match fields_at(t, pad_end(t, j) + 1) { Out::Ok(v, k) => if tat(t, k, Tk::Ctrl('}')) { Out::Ok(EntryV::Def(e, v), k + 1) } else { Out::Fail }, _ => Out::Fail }
        } else { Out::Fail },
        _ => Out::Fail,
    }
}
pub open spec fn rel_at(t: Seq<Tk>, i: int) -> Out<EntryV> {
    match path_at(t, i) {
        Out::Ok(a, j) => if tat(t, pad_end(t, j), Tk::Edge) {
            match path_at(t, pad_end(t, pad_end(t, j) + 1)) { Out::Ok(b, k) => Out::Ok(EntryV::Rel(a, b), k), _ => Out::Fail }
        } else { Out::Fail },
        _ => Out::Fail,
    }
}
pub open spec fn entry_at(t: Seq<Tk>, i: int) -> Out<EntryV> { match def_at(t, i) { Out::Ok(e, j) => Out::Ok(e, j), _ => rel_at(t, i) } }
pub open spec fn more_entries(t: Seq<Tk>, i: int) -> Out<Seq<EntryV>> decreases t.len() - i {
    if !sep(t, i) { Out::Ok(Seq::empty(), i) } else {
        match entry_at(t, pad_end(t, i + 1)) {
            Out::Ok(f, j) => if i < j <= t.len() { match more_entries(t, j) { Out::Ok(v, k) => Out::Ok(seq![f] + v, k), x => x } } else { Out::Other },
            _ => Out::Ok(Seq::empty(), i),
        }
    }
}
pub open spec fn entries_at(t: Seq<Tk>, i: int) -> Out<Seq<EntryV>> {
    match entry_at(t, i) {
        Out::Ok(f, j) => match more_entries(t, j) { Out::Ok(v, k) => Out::Ok(seq![f] + v, k), x => x },
        _ => Out::Ok(Seq::empty(), i),
    }
}
/// The optional name of the module with the padding around it.
pub open spec fn title_at(t: Seq<Tk>, i: int) -> (Option<Seq<char>>, int) { match name_at(t, pad_end(t, i)) { Out::Ok(n, j) => (Some(n), pad_end(t, j)), _ => (None, i) } }
pub open spec fn file_at(t: Seq<Tk>, i: int) -> Out<ModV> {
    match headed_at(t, pad_end(t, i)) { Out::Ok(m, k) => if tat(t, k, Tk::Ctrl('}')) { Out::Ok(m, pad_end(t, k + 1)) } else { Out::Fail }, _ => Out::Fail }
}
// ------------------------------------------------------------------ what the parts of the parser do
pub open spec fn is_sep(p: Ps<Token, ()>) -> bool { forall|s: Seq<Token>, i: int| #[trigger] p.run(s, i) == if sep(tks(s), i) { Out::Ok((), i + 1) } else { Out::Fail } }
pub open spec fn is_pad<O>(p: Ps<Token, O>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> (#[trigger] p.run(s, i) matches Out::Ok(o, j) && j == pad_end(tks(s), i)) }
pub open spec fn is_name(p: Ps<Token, String>) -> bool { forall|s: Seq<Token>, i: int| str_out(#[trigger] p.run(s, i)) == name_at(tks(s), i) }
pub open spec fn path_out(o: Out<EntityPath>) -> Out<Named> { match o { Out::Ok(v, j) => Out::Ok(named(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_path(p: Ps<Token, EntityPath>) -> bool { forall|s: Seq<Token>, i: int| path_out(#[trigger] p.run(s, i)) == path_at(tks(s), i) }
pub open spec fn is_type(p: Ps<Token, EntityFieldType>) -> bool {
    forall|s: Seq<Token>, i: int| #[trigger] p.run(s, i) == if 0 <= i < s.len() && ty_of(tks(s)[i]) is Some { Out::Ok(ty_of(tks(s)[i])->0, i + 1) } else { Out::Fail }
}
pub open spec fn is_key(p: Ps<Token, EntityFieldKey>) -> bool {
    forall|s: Seq<Token>, i: int| #[trigger] p.run(s, i) == if 0 <= i < s.len() && key_of(tks(s)[i]) is Some { Out::Ok(key_of(tks(s)[i])->0, i + 1) } else { Out::Fail }
}
pub open spec fn field_out(o: Out<EntityField>) -> Out<FieldV> { match o { Out::Ok(v, j) => Out::Ok(field_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_field(p: Ps<Token, EntityField>) -> bool { forall|s: Seq<Token>, i: int| field_out(#[trigger] p.run(s, i)) == field_at(tks(s), i) }
pub open spec fn fields_out(o: Out<Seq<EntityField>>) -> Out<Seq<FieldV>> { match o { Out::Ok(v, j) => Out::Ok(fields_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
/// A separator, padding and a field.
pub open spec fn is_next_field(p: Ps<Token, EntityField>) -> bool {
    forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> field_out(#[trigger] p.run(s, i)) == if sep(tks(s), i) { field_at(tks(s), pad_end(tks(s), i + 1)) } else { Out::Fail }
}
pub open spec fn is_fields(p: Ps<Token, Vec<EntityField>>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> fields_out(vec_out(#[trigger] p.run(s, i))) == fields_at(tks(s), i) }
pub open spec fn def_out(o: Out<EntityDefinition>) -> Out<EntryV> { match o { Out::Ok(v, j) => Out::Ok(def_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_def(p: Ps<Token, EntityDefinition>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> def_out(#[trigger] p.run(s, i)) == def_at(tks(s), i) }
pub open spec fn rel_out(o: Out<EntityRelation>) -> Out<EntryV> { match o { Out::Ok(v, j) => Out::Ok(rel_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_rel(p: Ps<Token, EntityRelation>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> rel_out(#[trigger] p.run(s, i)) == rel_at(tks(s), i) }
pub open spec fn entry_out(o: Out<ModuleEntry>) -> Out<EntryV> { match o { Out::Ok(v, j) => Out::Ok(entry_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_entry(p: Ps<Token, ModuleEntry>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> entry_out(#[trigger] p.run(s, i)) == entry_at(tks(s), i) }
pub open spec fn is_next_entry(p: Ps<Token, ModuleEntry>) -> bool {
    forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> entry_out(#[trigger] p.run(s, i)) == if sep(tks(s), i) { entry_at(tks(s), pad_end(tks(s), i + 1)) } else { Out::Fail }
}
pub open spec fn entries_out(o: Out<Seq<ModuleEntry>>) -> Out<Seq<EntryV>> { match o { Out::Ok(v, j) => Out::Ok(entries_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_entries(p: Ps<Token, Vec<ModuleEntry>>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> entries_out(vec_out(#[trigger] p.run(s, i))) == entries_at(tks(s), i) }
pub open spec fn mod_out(o: Out<Module>) -> Out<ModV> { match o { Out::Ok(v, j) => Out::Ok(mod_v(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_file(p: Ps<Token, Module>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> mod_out(#[trigger] p.run(s, i)) == file_at(tks(s), i) }
/// Up to the name of the module, and up to its entries.
pub open spec fn is_titled(p: Ps<Token, Option<String>>) -> bool {
    forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> (match #[trigger] p.run(s, i) { Out::Ok(n, j) => Out::Ok(name_v(n), j), Out::Fail => Out::Fail, Out::Other => Out::Other })
        == titled_at(tks(s), i)
}
pub open spec fn titled_at(t: Seq<Tk>, i: int) -> Out<Option<Seq<char>>> {
    let a = pad_end(t, i);
    if tat(t, a, Tk::Erd) { Out::Ok(title_at(t, pad_end(t, a + 1)).0, title_at(t, pad_end(t, a + 1)).1) } else { Out::Fail }
}
pub open spec fn head_out(o: Out<(Option<String>, Vec<ModuleEntry>)>) -> Out<ModV> { match o { Out::Ok(v, j) => Out::Ok(ModV { name: name_v(v.0), entries: entries_v(v.1@) }, j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn headed_at(t: Seq<Tk>, i: int) -> Out<ModV> {
    match titled_at(t, i) {
        Out::Ok(n, b) => if tat(t, b, Tk::Ctrl('{')) {
            match entries_at(t, pad_end(t, b + 1)) { Out::Ok(v, k) => Out::Ok(ModV { name: n, entries: v }, pad_end(t, k)), _ => Out::Fail }
        } else { Out::Fail },
        _ => Out::Fail,
    }
}
pub open spec fn is_headed(p: Ps<Token, (Option<String>, Vec<ModuleEntry>)>) -> bool { forall|s: Seq<Token>, i: int| 0 <= i <= s.len() ==> head_out(#[trigger] p.run(s, i)) == headed_at(tks(s), i) }
// ------------------------------------------------------------------ positions
pub broadcast proof fn b_pad_end(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> i <= #[trigger] pad_end(t, i) <= t.len() && !sep(t, pad_end(t, i)) decreases t.len() - i { if sep(t, i) { b_pad_end(t, i + 1); } }
pub broadcast proof fn b_more_fields(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] more_fields(t, i) matches Out::Ok(v, j) && i <= j <= t.len()) decreases t.len() - i
{ broadcast use b_pad_end; if 0 <= i <= t.len() && sep(t, i) { match field_at(t, pad_end(t, i + 1)) { Out::Ok(f, j) => { b_more_fields(t, j); } _ => {} } } }
pub broadcast proof fn b_fields_at(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] fields_at(t, i) matches Out::Ok(v, j) && i <= j <= t.len())
{ broadcast use b_pad_end, b_more_fields; }
pub broadcast proof fn b_entry_at(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] entry_at(t, i) matches Out::Ok(v, j) ==> i < j <= t.len()) && !(entry_at(t, i) is Other)
{ broadcast use b_pad_end, b_fields_at; }
pub broadcast proof fn b_more_entries(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] more_entries(t, i) matches Out::Ok(v, j) && i <= j <= t.len()) decreases t.len() - i
{ broadcast use b_pad_end, b_entry_at; if 0 <= i <= t.len() && sep(t, i) { match entry_at(t, pad_end(t, i + 1)) { Out::Ok(f, j) => { b_more_entries(t, j); } _ => {} } } }
pub broadcast proof fn b_entries_at(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] entries_at(t, i) matches Out::Ok(v, j) && i <= j <= t.len())
{ broadcast use b_entry_at, b_more_entries; }
pub broadcast proof fn b_titled_at(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] titled_at(t, i) matches Out::Ok(v, j) ==> i <= j <= t.len()) && !(titled_at(t, i) is Other)
{ broadcast use b_pad_end; }
pub broadcast proof fn b_headed_at(t: Seq<Tk>, i: int) ensures 0 <= i <= t.len() ==> (#[trigger] headed_at(t, i) matches Out::Ok(v, j) ==> i <= j <= t.len()) && !(headed_at(t, i) is Other)
{ broadcast use b_pad_end, b_titled_at, b_entries_at; }
// ------------------------------------------------------------------ repetition
pub broadcast proof fn b_rep_sep(p: Ps<Token, ()>, s: Seq<Token>, i: int) requires is_sep(p), 0 <= i <= s.len()
    ensures (#[trigger] rep(p, s, i)) matches Out::Ok(v, j) && j == pad_end(tks(s), i) decreases s.len() - i
{ if sep(tks(s), i) { b_rep_sep(p, s, i + 1); } }
pub broadcast proof fn b_rep_field(p: Ps<Token, EntityField>, s: Seq<Token>, i: int) requires is_next_field(p), 0 <= i <= s.len()
    ensures fields_out(#[trigger] rep(p, s, i)) == more_fields(tks(s), i) decreases s.len() - i
{
    broadcast use b_pad_end;
    match p.run(s, i) {
        Out::Ok(o, j) => { b_rep_field(p, s, j); match rep(p, s, j) { Out::Ok(v, _) => { assert(fields_v(seq![o] + v) =~= seq![field_v(o)] + fields_v(v)); } _ => {} } }
        _ => { assert(fields_v(Seq::empty()) =~= Seq::empty()); }
    }
}
pub broadcast proof fn b_rep_entry(p: Ps<Token, ModuleEntry>, s: Seq<Token>, i: int) requires is_next_entry(p), 0 <= i <= s.len()
    ensures entries_out(#[trigger] rep(p, s, i)) == more_entries(tks(s), i) decreases s.len() - i
{
    broadcast use b_pad_end, b_entry_at;
    match p.run(s, i) {
        Out::Ok(o, j) => { b_rep_entry(p, s, j); match rep(p, s, j) { Out::Ok(v, _) => { assert(entries_v(seq![o] + v) =~= seq![entry_v(o)] + entries_v(v)); } _ => {} } }
        _ => { assert(entries_v(Seq::empty()) =~= Seq::empty()); }
    }
}
pub broadcast proof fn b_fields_cons(o: EntityField, v: Seq<EntityField>) ensures fields_v(#[trigger] (seq![o] + v)) == seq![field_v(o)] + fields_v(v) { assert(fields_v(seq![o] + v) =~= seq![field_v(o)] + fields_v(v)); }
pub broadcast proof fn b_entries_cons(o: ModuleEntry, v: Seq<ModuleEntry>) ensures entries_v(#[trigger] (seq![o] + v)) == seq![entry_v(o)] + entries_v(v) { assert(entries_v(seq![o] + v) =~= seq![entry_v(o)] + entries_v(v)); }
pub broadcast proof fn b_fields_nil(v: Seq<EntityField>) ensures v.len() == 0 ==> #[trigger] fields_v(v) == Seq::<FieldV>::empty() { if v.len() == 0 { assert(fields_v(v) =~= Seq::<FieldV>::empty()); } }
pub broadcast proof fn b_entries_nil(v: Seq<ModuleEntry>) ensures v.len() == 0 ==> #[trigger] entries_v(v) == Seq::<EntryV>::empty() { if v.len() == 0 { assert(entries_v(v) =~= Seq::<EntryV>::empty()); } }
