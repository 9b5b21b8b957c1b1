%verbatim
// ------------------------------------------------------------------ how texts spell tokens, by the documented lexical grammar
/// Between tokens: blanks and, up to the end of the line, a comment.
pub open spec fn spacing(s: Seq<char>, i: int, j: int) -> bool { exists|m: int| #[trigger] gap_via(s, i, j, m) }
pub open spec fn gap_via(s: Seq<char>, i: int, j: int, m: int) -> bool {
    &&& 0 <= i <= m <= j <= s.len()
    &&& forall|k: int| i <= k < m ==> blank(#[trigger] s[k])
    &&& (m == j || (m + 2 <= j && s[m] == '/' && s[m + 1] == '/' && (j == s.len() || s[j] == '\n') && forall|k: int| m + 2 <= k < j ==> #[trigger] s[k] != '\n'))
}
/// One character of a quoted name: itself, or by an escape.
pub open spec fn spells_char(s: Seq<char>, i: int, k: int, c: char) -> bool {
    &&& 0 <= i < k <= s.len()
    &&& (k == i + 1 && s[i] == c && c != '`' && c != '\\')
        || (k == i + 2 && s[i] == '\\' && escape(s[i + 1]) == Some(c))
        || (k == i + 6 && s[i] == '\\' && s[i + 1] == 'u' && hex4(s, i + 2) && hex4_val(s, i + 2) == c as int)
}
pub open spec fn spells_chars(s: Seq<char>, i: int, j: int, n: Seq<char>) -> bool decreases n.len() {
    if n.len() == 0 { i == j } else { exists|k: int| #[trigger] spells_char(s, i, k, n[0]) && spells_chars(s, k, j, n.drop_first()) }
}
pub open spec fn is_word(w: Seq<char>) -> bool { w.len() > 0 && id_start(w[0]) && forall|k: int| 0 <= k < w.len() ==> id_part(#[trigger] w[k]) }
pub open spec fn keyword_of(t: Tk) -> Option<Seq<char>> {
    match t { Tk::Erd => Some("erd"@), Tk::Int => Some("int"@), Tk::Uuid => Some("uuid"@), Tk::Text => Some("text"@), Tk::Timestamp => Some("timestamp"@), Tk::Pk => Some("PK"@), Tk::Fk => Some("FK"@), _ => None }
}
pub open spec fn is_keyword_text(w: Seq<char>) -> bool { w == "erd"@ || w == "int"@ || w == "uuid"@ || w == "text"@ || w == "timestamp"@ || w == "PK"@ || w == "FK"@ }
pub open spec fn name_of(t: Tk) -> Option<Seq<char>> { match t { Tk::Ident(n) => Some(n), _ => None } }
/// The characters i..j are a word; no other letter, digit or underscore follows.
pub open spec fn word_is(s: Seq<char>, i: int, j: int, w: Seq<char>) -> bool { 0 <= i < j <= s.len() && s.subrange(i, j) == w && is_word(w) && !(j < s.len() && id_part(s[j])) }
pub open spec fn spells_token(s: Seq<char>, i: int, j: int, t: Tk) -> bool {
    &&& 0 <= i < j <= s.len()
    &&& match t {
        Tk::Edge => j == i + 4 && s[i] == 'o' && s[i + 1] == '-' && s[i + 2] == '-' && s[i + 3] == 'o',
        Tk::Ctrl(c) => j == i + 1 && s[i] == c && (c == '{' || c == '}' || c == ';' || c == '.'),
        Tk::Newline => (j == i + 1 && s[i] == '\n') || (j == i + 2 && s[i] == '\r' && s[i + 1] == '\n'),
        Tk::Ident(n) => (word_is(s, i, j, n) && !is_keyword_text(n)) || (i + 2 <= j && s[i] == '`' && s[j - 1] == '`' && spells_chars(s, i + 1, j - 1, n)),
        _ => keyword_of(t) is Some && word_is(s, i, j, keyword_of(t)->0),
    }
}
/// The text from i on spells the tokens.
pub open spec fn spells_tokens(s: Seq<char>, i: int, ts: Seq<Tk>) -> bool decreases ts.len() {
    if ts.len() == 0 { spacing(s, i, s.len() as int) } else { exists|j: int, k: int| spacing(s, i, j) && #[trigger] spells_token(s, j, k, ts[0]) && spells_tokens(s, k, ts.drop_first()) }
}
// ------------------------------------------------------------------ how tokens spell modules, by the documented grammar
/// Any number of separators.
pub open spec fn pads(t: Seq<Tk>, i: int, j: int) -> bool { 0 <= i <= j <= t.len() && forall|k: int| i <= k < j ==> #[trigger] sep(t, k) }
pub open spec fn spells_field(t: Seq<Tk>, i: int, j: int, f: FieldV) -> bool {
    &&& tat(t, i, Tk::Ident(f.name)) && i + 1 < t.len() && ty_of(t[i + 1]) == Some(f.ty)
    &&& match f.key { None => j == i + 2, Some(k) => j == i + 3 && i + 2 < t.len() && key_of(t[i + 2]) == Some(k) }
}
/// More fields, each after a separator and padding.
pub open spec fn spells_more_fields(t: Seq<Tk>, i: int, j: int, fs: Seq<FieldV>) -> bool decreases fs.len() {
    if fs.len() == 0 { i == j } else { sep(t, i) && exists|k: int, l: int| pads(t, i + 1, k) && #[trigger] spells_field(t, k, l, fs[0]) && spells_more_fields(t, l, j, fs.drop_first()) }
}
pub open spec fn spells_fields(t: Seq<Tk>, i: int, j: int, fs: Seq<FieldV>) -> bool {
    if fs.len() == 0 { pads(t, i, j) } else { exists|a: int, l: int, b: int| pads(t, i, a) && #[trigger] spells_field(t, a, l, fs[0]) && spells_more_fields(t, l, b, fs.drop_first()) && #[trigger] pads(t, b, j) }
}
pub open spec fn spells_path(t: Seq<Tk>, i: int, j: int, p: Named) -> bool {
    match p {
        Named::Table(n) => tat(t, i, Tk::Ident(n)) && j == i + 1,
        Named::Column(n, f) => tat(t, i, Tk::Ident(n)) && tat(t, i + 1, Tk::Ctrl('.')) && tat(t, i + 2, Tk::Ident(f)) && j == i + 3,
    }
}
pub open spec fn spells_entry(t: Seq<Tk>, i: int, j: int, e: EntryV) -> bool {
    match e {
        EntryV::Def(n, fs) => tat(t, i, Tk::Ident(n)) && exists|a: int, b: int| #[trigger] pads(t, i + 1, a) && tat(t, a, Tk::Ctrl('{')) && #[trigger] spells_fields(t, a + 1, b, fs) && tat(t, b, Tk::Ctrl('}')) && j == b + 1,
        EntryV::Rel(x, y) => exists|a: int, b: int, c: int| #[trigger] spells_path(t, i, a, x) && #[trigger] pads(t, a, b) && tat(t, b, Tk::Edge) && #[trigger] pads(t, b + 1, c) && spells_path(t, c, j, y),
    }
}
pub open spec fn spells_more_entries(t: Seq<Tk>, i: int, j: int, es: Seq<EntryV>) -> bool decreases es.len() {
    if es.len() == 0 { i == j } else { sep(t, i) && exists|k: int, l: int| pads(t, i + 1, k) && #[trigger] spells_entry(t, k, l, es[0]) && spells_more_entries(t, l, j, es.drop_first()) }
}
pub open spec fn spells_entries(t: Seq<Tk>, i: int, j: int, es: Seq<EntryV>) -> bool {
    if es.len() == 0 { i == j } else { exists|l: int| #[trigger] spells_entry(t, i, l, es[0]) && spells_more_entries(t, l, j, es.drop_first()) }
}
pub open spec fn spells_title(t: Seq<Tk>, i: int, j: int, n: Option<Seq<char>>) -> bool { match n { None => i == j, Some(x) => tat(t, i, Tk::Ident(x)) && pads(t, i + 1, j) } }
pub open spec fn spells_module(t: Seq<Tk>, m: ModV) -> bool { exists|a: int, b: int, c: int, d: int, e: int, f: int| spells_module_via(t, m, a, b, c, d, e, f) }
#[verifier::opaque]
pub open spec fn spells_module_via(t: Seq<Tk>, m: ModV, a: int, b: int, c: int, d: int, e: int, f: int) -> bool {
    &&& pads(t, 0, a) && tat(t, a, Tk::Erd)
    &&& pads(t, a + 1, b) && spells_title(t, b, c, m.name) && tat(t, c, Tk::Ctrl('{'))
    &&& pads(t, c + 1, d) && spells_entries(t, d, e, m.entries)
    &&& pads(t, e, f) && tat(t, f, Tk::Ctrl('}')) && pads(t, f + 1, t.len() as int)
}
/// The text spells the module.
pub open spec fn spells(s: Seq<char>, m: ModV) -> bool { exists|ts: Seq<Tk>| #[trigger] spells_tokens(s, 0, ts) && spells_module(ts, m) }
// ------------------------------------------------------------------ spelled texts are read as what they spell: tokens
pub proof fn lemma_blanks(s: Seq<char>, i: int, m: int) requires 0 <= i <= m <= s.len(), forall|k: int| i <= k < m ==> blank(#[trigger] s[k]), !(m < s.len() && blank(s[m])) ensures blanks(s, i) == m decreases m - i
{ if i < m { assert(blank(s[i])); lemma_blanks(s, i + 1, m); } }
pub proof fn lemma_line(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> #[trigger] s[k] != '\n', j == s.len() || s[j] == '\n' ensures line_end(s, i) == j decreases j - i
{ if i < j { lemma_line(s, i + 1, j); } }
/// Where the gap before a token or the end ends.
pub proof fn lemma_spacing(s: Seq<char>, i: int, j: int) requires spacing(s, i, j), !(j < s.len() && blank(s[j])), !(at(s, j, '/') && at(s, j + 1, '/'))
    ensures blanks(s, comments(s, i)) == j, comments(s, blanks(s, i)) == j
{
    let m = choose|m: int| #[trigger] gap_via(s, i, j, m);
    lemma_blanks(s, j, j);
    assert(!comment_at(s, j));
    assert(comments(s, j) == j);
    if m == j {
        lemma_blanks(s, i, j);
    } else {
        lemma_blanks(s, i, m);
        lemma_blanks(s, m, m);
        lemma_line(s, m + 2, j);
        assert(comment_end(s, i) == j && comment_end(s, m) == j);
    }
}
pub proof fn lemma_word(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> id_part(#[trigger] s[k]), !(j < s.len() && id_part(s[j])) ensures word_end(s, i) == j decreases j - i
{ if i < j { assert(id_part(s[i])); lemma_word(s, i + 1, j); } }
pub proof fn lemma_chars(s: Seq<char>, i: int, j: int, n: Seq<char>) requires spells_chars(s, i, j, n), 0 <= i, at(s, j, '`') ensures i <= j, qchars(s, i) == Out::<Seq<char>>::Ok(n, j) decreases n.len()
{
    if n.len() == 0 {
        assert(n =~= Seq::empty());
    } else {
        let k = choose|k: int| #[trigger] spells_char(s, i, k, n[0]) && spells_chars(s, k, j, n.drop_first());
        lemma_chars(s, k, j, n.drop_first());
        assert(qchar(s, i) == Out::<char>::Ok(n[0], k));
        assert(seq![n[0]] + n.drop_first() =~= n);
    }
}
pub proof fn lemma_keywords(t: Tk) ensures keyword_of(t) matches Some(w) ==> word_tk(w) == t
{
    reveal_strlit("erd"); reveal_strlit("int"); reveal_strlit("uuid"); reveal_strlit("text"); reveal_strlit("timestamp"); reveal_strlit("PK"); reveal_strlit("FK");
    assert("erd"@[0] == 'e' && "int"@[0] == 'i' && "uuid"@[0] == 'u' && "text"@[0] == 't' && "timestamp"@[0] == 't' && "PK"@[0] == 'P' && "FK"@[0] == 'F');
    assert("text"@.len() == 4 && "timestamp"@.len() == 9);
}
/// A spelled token is read, if what follows it cannot continue it.
pub proof fn lemma_token(s: Seq<char>, i: int, j: int, t: Tk) requires spells_token(s, i, j, t), !at(s, j, '-') ensures token_at(s, i) == Out::<Tk>::Ok(t, j), !blank(s[i]), s[i] != '/', s[i] != '-'
{
    reveal_strlit("o--o");
    let e = "o--o"@;
    assert(e.len() == 4 && e[0] == 'o' && e[1] == '-' && e[2] == '-' && e[3] == 'o');
    assert(starts(s, i, e) ==> s[i + 0] == e[0] && s[i + 1] == e[1]);
    lemma_keywords(t);
    if t == Tk::Edge { assert(starts(s, i, e)); }
    let word: Option<Seq<char>> = match t { Tk::Ident(n) => if word_is(s, i, j, n) && !is_keyword_text(n) { Some(n) } else { None }, _ => keyword_of(t) };
    if let Some(w) = word {
        assert(s.subrange(i, j)[0] == s[i]);
        assert forall|k: int| i <= k < j implies id_part(#[trigger] s[k]) by { assert(w[k - i] == s[k]); }
        lemma_word(s, i + 1, j);
        assert(word_tk(w) == t);
        if starts(s, i, e) { assert(s[i + 1] == '-'); if i + 1 < j { assert(id_part(s[i + 1])); } assert(false); }
    } else if let Tk::Ident(n) = t {
        lemma_chars(s, i + 1, j - 1, n);
    }
}
pub proof fn lemma_tokens(s: Seq<char>, i: int, ts: Seq<Tk>) requires spells_tokens(s, i, ts)
    ensures 0 <= i <= s.len(), !at(s, i, '-'), items(s, i) == Out::<Seq<Tk>>::Ok(ts, if ts.len() == 0 { i } else { s.len() as int }),
        ts.len() == 0 ==> blanks(s, comments(s, i)) == s.len(),
        ts.len() > 0 ==> item_at(s, i) is Ok && item_at(s, blanks(s, comments(s, i))) == item_at(s, i),
    decreases ts.len()
{
    if ts.len() == 0 {
        let m = choose|m: int| #[trigger] gap_via(s, i, s.len() as int, m);
        lemma_spacing(s, i, s.len() as int);
        assert(ts =~= Seq::empty());
    } else {
        let rest = ts.drop_first();
        let (j, k) = choose|j: int, k: int| spacing(s, i, j) && #[trigger] spells_token(s, j, k, ts[0]) && spells_tokens(s, k, rest);
        lemma_tokens(s, k, rest);
        lemma_token(s, j, k, ts[0]);
        let m = choose|m: int| #[trigger] gap_via(s, i, j, m);
        lemma_spacing(s, i, j);
        assert(gap_via(s, j, j, j));
        lemma_spacing(s, j, j);
        let k2 = blanks(s, comments(s, k));
        broadcast use b_blanks, b_comments;
        assert(item_at(s, i) == Out::<Tk>::Ok(ts[0], k2));
        assert(item_at(s, j) == item_at(s, i));
        if rest.len() == 0 {
            assert(k2 == s.len());
            lemma_blanks(s, k2, k2);
            assert(comments(s, k2) == k2);
            assert(items(s, k2) == Out::<Seq<Tk>>::Ok(Seq::empty(), k2));
        } else {
            broadcast use b_token_at;
            match item_at(s, k2) { Out::Ok(c, n) => { assert(k2 < n <= s.len() && k < n); } _ => {} }
            assert(items(s, k2) == items(s, k));
        }
        assert(seq![ts[0]] + rest =~= ts);
    }
}
// ------------------------------------------------------------------ and modules
pub proof fn lemma_pads(t: Seq<Tk>, i: int, j: int) requires pads(t, i, j), !sep(t, j) ensures pad_end(t, i) == j decreases j - i
{ if i < j { assert(sep(t, i)); lemma_pads(t, i + 1, j); } }
pub open spec fn closes(t: Seq<Tk>, i: int) -> bool { 0 <= i <= t.len() && tat(t, pad_end(t, i), Tk::Ctrl('}')) }
pub proof fn lemma_field(t: Seq<Tk>, i: int, j: int, f: FieldV) requires spells_field(t, i, j, f), sep(t, j) || closes(t, j) ensures field_at(t, i) == Out::<FieldV>::Ok(f, j), i < j <= t.len() { }
pub proof fn lemma_more_fields(t: Seq<Tk>, i: int, j: int, fs: Seq<FieldV>) requires spells_more_fields(t, i, j, fs), closes(t, j), 0 <= i ensures more_fields(t, i) == Out::<Seq<FieldV>>::Ok(fs, j), sep(t, i) || closes(t, i) decreases fs.len()
{
    if fs.len() == 0 { assert(fs =~= Seq::empty()); }
    else {
        let (k, l) = choose|k: int, l: int| pads(t, i + 1, k) && #[trigger] spells_field(t, k, l, fs[0]) && spells_more_fields(t, l, j, fs.drop_first());
        lemma_more_fields(t, l, j, fs.drop_first());
        lemma_field(t, k, l, fs[0]);
        lemma_pads(t, i + 1, k);
        assert(seq![fs[0]] + fs.drop_first() =~= fs);
    }
}
pub proof fn lemma_fields(t: Seq<Tk>, i: int, j: int, fs: Seq<FieldV>) requires spells_fields(t, i, j, fs), tat(t, j, Tk::Ctrl('}')), 0 <= i ensures fields_at(t, i) == Out::<Seq<FieldV>>::Ok(fs, j)
{
    if fs.len() == 0 { lemma_pads(t, i, j); assert(fs =~= Seq::empty()); assert(pad_end(t, j) == j); }
    else {
        let (a, l, b) = choose|a: int, l: int, b: int| pads(t, i, a) && #[trigger] spells_field(t, a, l, fs[0]) && spells_more_fields(t, l, b, fs.drop_first()) && #[trigger] pads(t, b, j);
        lemma_pads(t, b, j);
        lemma_more_fields(t, l, b, fs.drop_first());
        lemma_field(t, a, l, fs[0]);
        lemma_pads(t, i, a);
        assert(seq![fs[0]] + fs.drop_first() =~= fs);
    }
}
pub proof fn lemma_entry(t: Seq<Tk>, i: int, j: int, e: EntryV) requires spells_entry(t, i, j, e), sep(t, j) || closes(t, j), 0 <= i ensures entry_at(t, i) == Out::<EntryV>::Ok(e, j), i < j <= t.len(), t[i] is Ident
{
    match e {
        EntryV::Def(n, fs) => {
            let (a, b) = choose|a: int, b: int| #[trigger] pads(t, i + 1, a) && tat(t, a, Tk::Ctrl('{')) && #[trigger] spells_fields(t, a + 1, b, fs) && tat(t, b, Tk::Ctrl('}')) && j == b + 1;
            lemma_pads(t, i + 1, a);
            lemma_fields(t, a + 1, b, fs);
            broadcast use b_fields_at;
        }
        EntryV::Rel(x, y) => {
            let (a, b, c) = choose|a: int, b: int, c: int| #[trigger] spells_path(t, i, a, x) && #[trigger] pads(t, a, b) && tat(t, b, Tk::Edge) && #[trigger] pads(t, b + 1, c) && spells_path(t, c, j, y);
            lemma_pads(t, a, b);
            lemma_pads(t, b + 1, c);
            assert(!tat(t, a, Tk::Ctrl('.'))) by { if a < b { assert(sep(t, a)); } }
            assert(!tat(t, j, Tk::Ctrl('.')));
            assert(path_at(t, i) == Out::<Named>::Ok(x, a));
            assert(path_at(t, c) == Out::<Named>::Ok(y, j));
            assert(rel_at(t, i) == Out::<EntryV>::Ok(e, j));
            assert(!(def_at(t, i) is Ok)) by { if a == i + 3 { assert(pad_end(t, i + 1) == i + 1); } }
        }
    }
}
pub proof fn lemma_more_entries(t: Seq<Tk>, i: int, j: int, es: Seq<EntryV>) requires spells_more_entries(t, i, j, es), closes(t, j), 0 <= i ensures more_entries(t, i) == Out::<Seq<EntryV>>::Ok(es, j), sep(t, i) || closes(t, i) decreases es.len()
{
    if es.len() == 0 { assert(es =~= Seq::empty()); }
    else {
        let (k, l) = choose|k: int, l: int| pads(t, i + 1, k) && #[trigger] spells_entry(t, k, l, es[0]) && spells_more_entries(t, l, j, es.drop_first());
        assert(0 <= l) by { b_spelled(t, k, l, es[0]); }
        lemma_more_entries(t, l, j, es.drop_first());
        lemma_entry(t, k, l, es[0]);
        lemma_pads(t, i + 1, k);
        assert(seq![es[0]] + es.drop_first() =~= es);
    }
}
pub proof fn b_spelled(t: Seq<Tk>, i: int, j: int, e: EntryV) requires spells_entry(t, i, j, e) ensures 0 <= i && 0 <= j, t[i] is Ident { }
pub proof fn lemma_entries(t: Seq<Tk>, i: int, j: int, es: Seq<EntryV>) requires spells_entries(t, i, j, es), closes(t, j), 0 <= i <= t.len(), es.len() == 0 ==> !sep(t, i) ensures entries_at(t, i) == Out::<Seq<EntryV>>::Ok(es, j), !sep(t, i)
{
    if es.len() == 0 { assert(es =~= Seq::empty()); }
    else {
        let l = choose|l: int| #[trigger] spells_entry(t, i, l, es[0]) && spells_more_entries(t, l, j, es.drop_first());
        b_spelled(t, i, l, es[0]);
        lemma_more_entries(t, l, j, es.drop_first());
        lemma_entry(t, i, l, es[0]);
        assert(seq![es[0]] + es.drop_first() =~= es);
    }
}
pub proof fn lemma_module(t: Seq<Tk>, m: ModV) requires spells_module(t, m) ensures file_at(t, 0) == Out::<ModV>::Ok(m, t.len() as int)
{
    let (a, b, c, d, e, f) = choose|a: int, b: int, c: int, d: int, e: int, f: int| spells_module_via(t, m, a, b, c, d, e, f);
    reveal(spells_module_via);
    lemma_pads(t, 0, a);
    assert(pad_end(t, a) == a);
    lemma_pads(t, f + 1, t.len() as int);
    lemma_pads(t, e, f);
    if m.entries.len() == 0 { lemma_pads(t, c + 1, f); assert(m.entries =~= Seq::empty()); assert(pad_end(t, f) == f); } else { lemma_entries(t, d, e, m.entries); lemma_pads(t, c + 1, d); }
    match m.name { None => { lemma_pads(t, a + 1, b); assert(b == c); } Some(n) => { lemma_pads(t, a + 1, b); assert(pad_end(t, b) == b); lemma_pads(t, b + 1, c); } }
    assert(title_at(t, b) == (m.name, c));
    assert(titled_at(t, 0) == Out::<Option<Seq<char>>>::Ok(m.name, c));
    assert(headed_at(t, 0) == Out::<ModV>::Ok(m, f));
}
/// What the reading of a text by the two grammars gives.
pub open spec fn reads(s: Seq<char>, m: ModV) -> bool { items(s, 0) matches Out::Ok(ts, j) && file_at(ts, 0) == Out::<ModV>::Ok(m, ts.len() as int) }
pub proof fn lemma_reads(s: Seq<char>) ensures forall|m: ModV| #[trigger] spells(s, m) ==> reads(s, m)
{
    assert forall|m: ModV| #[trigger] spells(s, m) implies reads(s, m) by {
        let ts = choose|ts: Seq<Tk>| #[trigger] spells_tokens(s, 0, ts) && spells_module(ts, m);
        lemma_tokens(s, 0, ts);
        lemma_module(ts, m);
    }
}
pub broadcast proof fn b_tks(v: Seq<(Token, Span)>) ensures tks(#[trigger] firsts(v)) == tvs(v) { assert(tks(firsts(v)) =~= tvs(v)); }
// ------------------------------------------------------------------ the definitions say something
/// A spelling of one character between back quotes.
pub open spec fn quoted_char(c: char) -> Seq<char> { if c == '`' || c == '\\' { seq!['\\', c] } else { seq![c] } }
pub open spec fn quoted(n: Seq<char>) -> Seq<char> decreases n.len() { if n.len() == 0 { Seq::empty() } else { quoted_char(n[0]) + quoted(n.drop_first()) } }
pub proof fn lemma_quoted(p: Seq<char>, n: Seq<char>, q: Seq<char>) ensures spells_chars(p + quoted(n) + q, p.len() as int, (p + quoted(n)).len() as int, n) decreases n.len()
{
    let s = p + quoted(n) + q;
    if n.len() > 0 {
        let c = quoted_char(n[0]);
        let rest = n.drop_first();
        lemma_quoted(p + c, rest, q);
        assert(p + c + quoted(rest) =~= p + quoted(n));
        let i = p.len() as int;
        let k = i + c.len();
        assert(s[i] == c[0] && (c.len() == 2 ==> s[i + 1] == c[1]));
        assert(spells_char(s, i, k, n[0]));
    } else { assert(p + quoted(n) =~= p); }
}
/// Any name at all can be written between back quotes.
pub proof fn lemma_any_name(n: Seq<char>) ensures spells_tokens(seq!['`'] + quoted(n) + seq!['`'], 0, seq![Tk::Ident(n)])  // [C16]
{
    let s = seq!['`'] + quoted(n) + seq!['`'];
    lemma_quoted(seq!['`'], n, seq!['`']);
    let l = s.len() as int;
    assert(gap_via(s, 0, 0, 0) && gap_via(s, l, l, l));
    let ts = seq![Tk::Ident(n)];
    assert(spells_token(s, 0, l, ts[0]));
    assert(ts.drop_first() =~= Seq::empty());
    assert(spells_tokens(s, l, ts.drop_first()));
}
/// The text "erd a;{//" with two line ends and a brace spells a module without entries called a.
pub proof fn lemma_witness() ensures spells(seq!['e', 'r', 'd', ' ', 'a', ';', '{', '/', '/', '\r', '\n', '\n', '}'], ModV { name: Some(seq!['a']), entries: Seq::empty() })
{
    let s = seq!['e', 'r', 'd', ' ', 'a', ';', '{', '/', '/', '\r', '\n', '\n', '}'];
    let m = ModV { name: Some(seq!['a']), entries: Seq::<EntryV>::empty() };
    let ts = seq![Tk::Erd, Tk::Ident(seq!['a']), Tk::Ctrl(';'), Tk::Ctrl('{'), Tk::Newline, Tk::Newline, Tk::Ctrl('}')];
    reveal_strlit("erd"); reveal_strlit("int"); reveal_strlit("uuid"); reveal_strlit("text"); reveal_strlit("timestamp"); reveal_strlit("PK"); reveal_strlit("FK");
    assert(s.subrange(0, 3) =~= "erd"@);
    assert(s.subrange(4, 5) =~= seq!['a']);
    assert(spells_token(s, 0, 3, ts[0]));
    assert("int"@.len() == 3 && "uuid"@.len() == 4 && "text"@.len() == 4 && "timestamp"@.len() == 9 && "PK"@.len() == 2 && "FK"@.len() == 2);
    assert(spells_token(s, 4, 5, ts[1]));
    assert(spells_token(s, 5, 6, ts[2]));
    assert(spells_token(s, 6, 7, ts[3]));
    assert(spells_token(s, 10, 11, ts[4]));
    assert(spells_token(s, 11, 12, ts[5]));
    assert(spells_token(s, 12, 13, ts[6]));
    assert(gap_via(s, 0, 0, 0)); assert(gap_via(s, 3, 4, 4)); assert(gap_via(s, 5, 5, 5)); assert(gap_via(s, 6, 6, 6)); assert(gap_via(s, 7, 10, 7));
    assert(gap_via(s, 11, 11, 11)); assert(gap_via(s, 12, 12, 12)); assert(gap_via(s, 13, 13, 13));
    let t1 = ts.drop_first(); let t2 = t1.drop_first(); let t3 = t2.drop_first(); let t4 = t3.drop_first(); let t5 = t4.drop_first(); let t6 = t5.drop_first(); let t7 = t6.drop_first();
    assert(spells_tokens(s, 13, t7));
    assert(t6[0] == ts[6]); assert(spells_tokens(s, 12, t6));
    assert(t5[0] == ts[5]); assert(spells_tokens(s, 11, t5));
    assert(t4[0] == ts[4]); assert(spells_tokens(s, 7, t4));
    assert(t3[0] == ts[3]); assert(spells_tokens(s, 6, t3));
    assert(t2[0] == ts[2]); assert(spells_tokens(s, 5, t2));
    assert(t1[0] == ts[1]); assert(spells_tokens(s, 3, t1));
    assert(spells_tokens(s, 0, ts));
    assert(spells_module_via(ts, m, 0, 1, 3, 6, 6, 6)) by { reveal(spells_module_via); }
}
