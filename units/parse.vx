%unit parse
%include p_core.vx
%file parser
%type Span
%enum Token noeq
%include ast_defs.vx
%include p_parse.vx
%file parser
%type ParseResult
%include lex_defs.vx
%include gram_defs.vx
%include spell_defs.vx
%file erd
%fn Module::new C16
    ensures r.name == name, r.entries@.len() == 0,
%fn Module::add_entry C16
    ensures final(self).entries@ == old(self).entries@.push(entry), final(self).name == old(self).name,
%fn EntityDefinition::new C16
    ensures r.name == name, r.fields@.len() == 0,
%fn EntityDefinition::add_field C16
    ensures final(self).fields@ == old(self).fields@.push(column), final(self).name == old(self).name,
%fn EntityField::new C16
    ensures r.name == name, r.field_type == field_type, r.field_key == field_key,
%fn EntityRelation::new C16
    ensures r.start_path == start_path, r.end_path == end_path,
%file parser
%fn tokenizer C16 C17 C18 attr=verifier::rlimit(60) attr=verifier::spinoff_prover
    ensures
        is_items(r),  // [C16,C18]
        forall|s: Seq<char>, v: Vec<(Token, Span)>| #[trigger] r.may(s, v) ==> forall|k: int| 0 <= k < v@.len() ==> in_text((#[trigger] v@[k]).1, s.len() as int),  // [C17]
%start
    proof {
        assert(is_ctrl_text("{};."@)) by { reveal_strlit("{};."); let t = "{};."@; assert(t[0] == '{' && t[1] == '}' && t[2] == ';' && t[3] == '.'); }
        assert(is_blank_text(" \t"@)) by { reveal_strlit(" \t"); let t = " \t"@; assert(t[0] == ' ' && t[1] == '\t'); }
        assert(is_lit1("\n"@, '\n')) by { reveal_strlit("\n"); lemma_lit1("\n"@); }
        assert(is_lit1("`"@, '`')) by { reveal_strlit("`"); lemma_lit1("`"@); }
        assert(is_lit2("\r\n"@, '\r', '\n')) by { reveal_strlit("\r\n"); lemma_lit2("\r\n"@); }
        assert(is_lit2("//"@, '/', '/')) by { reveal_strlit("//"); lemma_lit2("//"@); }
        assert("o--o"@.len() == 4) by { reveal_strlit("o--o"); }
    }
%closure 1
    -> (vx_q: Token) ensures vx_q == Token::Ctrl($1)
%closure 2
    -> (vx_q: bool) ensures vx_q == (hex_digit(*$1) >= 0)
%closure 3
    -> (vx_q: char)
        requires $1@.len() == 4, forall|k: int| 0 <= k < $1@.len() ==> hex_digit(#[trigger] $1@[k]) >= 0, char_code(hex_val($1@)) || $3.open(), $3.at() == $2,
        ensures char_code(hex_val($1@)) ==> vx_q as int == hex_val($1@)
%closure 4
    -> (vx_q: Token) ensures vx_q == Token::Ident($1)
%closure 5 : &char
    -> (vx_q: bool) ensures vx_q == (*$1 != '\\' && *$1 != '`')
%closure 6
    -> (vx_q: Token) ensures vx_q == Token::Ident($1)
%closure 7 : &char
    -> (vx_q: bool) ensures vx_q == (*$1 != '\n')
%closure 8
    -> (vx_q: (Token, Span)) ensures vx_q == ($1, $2)
%let escape
    proof { assert(is_escape(escape)) by { broadcast use {ax_run_may, b_rep_hex}; } }  // [C16]
%let quoted_ident
    proof { assert(is_quoted(quoted_ident)) by { broadcast use {b_rep_qchar, b_qchars}; } }  // [C16]
%let newline
    proof { assert(is_newline(newline)); }  // [C16,C18]
%let ctrl
    proof { assert(is_ctrl(ctrl)); }  // [C16]
%let keyword
    proof { assert(is_keyword(keyword)); }  // [C16]
%let token
    proof { assert(is_token(token)) by { broadcast use b_token_at; } }  // [C16,C18]
%let spaces
    proof { assert(is_blanks(spaces)) by { broadcast use b_rep_blank; } }  // [C16,C18]
%let comment
    proof { assert(is_comment(comment)) by { broadcast use {b_rep_line, b_blanks, b_line_end}; } }  // [C18]
%end
    proof { broadcast use {b_rep_comment, b_rep_item, b_comments, b_blanks, b_token_at}; assert(is_items(vx_ret)); }  // [C16,C18]
%fn erd_module_parser C16 C17 C18 sliced attr=verifier::rlimit(60) attr=verifier::spinoff_prover
    ensures is_file(r),  // [C16,C18]
%start
    hide(is_titled); hide(is_headed); hide(titled_at); hide(headed_at); hide(file_at); hide(is_path); hide(is_type); hide(is_key); hide(is_field); hide(is_fields); hide(is_def); hide(is_rel); hide(is_entry); hide(is_entries); hide(is_file); hide(is_next_field); hide(is_next_entry); hide(fields_at); hide(entries_at); hide(def_at); hide(rel_at); hide(entry_at);
%closure 1
    -> (vx_q: Result<String, Simple<Token>>) ensures match vx_q { Ok(x) => $2 is Ident && $2->Ident_0 == x, Err(e) => !($2 is Ident) && e.sp() == $1 }
%closure 2
    -> (vx_q: EntityPath) ensures vx_q == match $1.1 { Some(f) => EntityPath::Field($1.0, f), None => EntityPath::Entity($1.0) }
%closure 3
    -> (vx_q: EntityField) ensures vx_q.name == $1.0.0, vx_q.field_type == $1.0.1, vx_q.field_key == $1.1
%closure 4
    -> (vx_q: Vec<EntityField>) ensures match $1 { Some(v) => vx_q == v, None => vx_q@.len() == 0 }
%closure 5
    -> (vx_q: EntityDefinition) ensures vx_q.name == $1.0, vx_q.fields@ == $1.1@
%loop 1
    definition.name == name, definition.fields@ == vx_s1@.take(vx_i1 as int), vx_s1 == vx_c0.1, name == vx_c0.0,
%loop 1 start
    proof { assert(vx_s1@.take(vx_i1 as int) =~= vx_s1@.take(vx_i1 - 1).push(vx_s1@[vx_i1 - 1])); }
%loop 1 after
    proof { assert(vx_s1@.take(vx_i1 as int) =~= vx_s1@); }
%closure 6
    -> (vx_q: EntityRelation) ensures vx_q.start_path == $1.0, vx_q.end_path == $1.1
%closure 7
    -> (vx_q: ModuleEntry) ensures vx_q == ModuleEntry::EntityDefinition($1)
%closure 8
    -> (vx_q: ModuleEntry) ensures vx_q == ModuleEntry::EntityRelation($1)
%closure 9
    -> (vx_q: Vec<ModuleEntry>) ensures match $1 { Some(v) => vx_q == v, None => vx_q@.len() == 0 }
%closure 10
    -> (vx_q: Module) ensures vx_q.name == $1.0, vx_q.entries@ == $1.1@
%loop 2
    module.name == name, module.entries@ == vx_s2@.take(vx_i2 as int), vx_s2 == vx_c0.1, name == vx_c0.0,
%loop 2 start
    proof { assert(vx_s2@.take(vx_i2 as int) =~= vx_s2@.take(vx_i2 - 1).push(vx_s2@[vx_i2 - 1])); }
%loop 2 after
    proof { assert(vx_s2@.take(vx_i2 as int) =~= vx_s2@); }
%let ident
    proof { assert(is_name(ident)); }  // [C16]
%let separator
    proof { assert(is_sep(separator)); }  // [C16,C18]
%let pad
    proof { assert(is_pad(pad)) by { broadcast use b_rep_sep; } }  // [C16,C18]
%let entity_field_type
    proof { assert(is_type(entity_field_type)) by { reveal(is_type); } }  // [C16]
%let entity_field_key
    proof { assert(is_key(entity_field_key)) by { reveal(is_key); } }  // [C16]
%let entity
    proof { assert(is_path(entity)) by { reveal(is_path); } }  // [C16]
%let entity_field
    proof { assert(is_field(entity_field)) by { reveal(is_field); reveal(is_type); reveal(is_key); } }  // [C16]
%let entity_fields
    proof { assert(is_fields(entity_fields)) by { broadcast use {b_rep_field, b_pad_end, b_more_fields, b_fields_cons, b_fields_nil}; reveal(is_fields); reveal(is_field); reveal(is_next_field); reveal(fields_at); } }  // [C16,C18]
%let entity_definition
    proof { assert(is_def(entity_definition)) by { broadcast use {b_pad_end, b_fields_at}; reveal(is_def); reveal(is_fields); reveal(def_at); } }  // [C16,C18]
%let relation
    proof { assert(is_rel(relation)) by { broadcast use b_pad_end; reveal(is_rel); reveal(is_path); reveal(rel_at); } }  // [C16,C18]
%let module_entry
    proof { assert(is_entry(module_entry)) by { reveal(is_entry); reveal(is_def); reveal(is_rel); reveal(entry_at); reveal(def_at); } }  // [C16]
%let module_entries
    proof { assert(is_entries(module_entries)) by { broadcast use {b_rep_entry, b_pad_end, b_more_entries, b_entry_at, b_entries_cons, b_entries_nil}; reveal(is_entry); reveal(is_entries); reveal(is_next_entry); reveal(entries_at); } }  // [C16,C18]
%let vx_q3
    proof { assert(is_titled(vx_q3)) by { broadcast use b_pad_end; reveal(is_titled); reveal(titled_at); } }  // [C16,C18]
%let vx_q5
    proof { assert(is_headed(vx_q5)) by { broadcast use {b_pad_end, b_titled_at, b_entries_at}; reveal(is_titled); reveal(is_headed); reveal(headed_at); reveal(is_entries); } }  // [C16,C18]
%end
    proof { assert(is_file(vx_ret)) by { broadcast use {b_pad_end, b_headed_at}; reveal(is_file); reveal(is_headed); reveal(file_at); } }  // [C16,C18]
%include par_fns.vx
