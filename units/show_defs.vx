%verbatim
// ------------------------------------------------------------------ the text a module is displayed as
pub open spec fn type_text(t: EntityFieldType) -> Seq<char> {
    match t { EntityFieldType::Int => seq!['i', 'n', 't'], EntityFieldType::Uuid => seq!['u', 'u', 'i', 'd'], EntityFieldType::Text => seq!['t', 'e', 'x', 't'], EntityFieldType::Timestamp => seq!['t', 'i', 'm', 'e', 's', 't', 'a', 'm', 'p'] }
}
pub open spec fn key_text(k: EntityFieldKey) -> Seq<char> { match k { EntityFieldKey::PrimaryKey => seq!['P', 'K'], EntityFieldKey::ForeginKey => seq!['F', 'K'] } }
pub open spec fn field_text(f: FieldV) -> Seq<char> { f.name + seq![' '] + type_text(f.ty) + (match f.key { None => Seq::empty(), Some(k) => seq![' '] + key_text(k) }) }
pub open spec fn fields_text(fs: Seq<FieldV>) -> Seq<char> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { field_text(fs[0]) + (if fs.len() == 1 { seq![' '] } else { seq![';', ' '] }) + fields_text(fs.drop_first()) }
}
pub open spec fn path_text(p: Named) -> Seq<char> { match p { Named::Table(n) => n, Named::Column(n, f) => n + seq!['.'] + f } }
pub open spec fn entry_text(e: EntryV) -> Seq<char> {
    match e {
        EntryV::Def(n, fs) => n + seq![' ', '{'] + (if fs.len() > 0 { seq![' '] } else { Seq::empty() }) + fields_text(fs) + seq!['}'],
        EntryV::Rel(a, b) => path_text(a) + seq![' ', 'o', '-', '-', 'o', ' '] + path_text(b),
    }
}
pub open spec fn entries_text(es: Seq<EntryV>) -> Seq<char> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { seq![' ', ' ', ' ', ' '] + entry_text(es[0]) + seq!['\n'] + entries_text(es.drop_first()) }
}
pub open spec fn mod_text(m: ModV) -> Seq<char> {
    seq!['e', 'r', 'd', ' '] + (match m.name { None => Seq::empty(), Some(n) => n + seq![' '] }) + seq!['{', '\n'] + entries_text(m.entries) + seq!['}']
}
/// All names are identifiers, no keywords.
pub open spec fn plain_name(n: Seq<char>) -> bool { is_word(n) && !is_keyword_text(n) }
pub open spec fn plain_path(p: Named) -> bool { match p { Named::Table(n) => plain_name(n), Named::Column(n, f) => plain_name(n) && plain_name(f) } }
pub open spec fn plain_fields(fs: Seq<FieldV>) -> bool { forall|k: int| 0 <= k < fs.len() ==> plain_name((#[trigger] fs[k]).name) }
pub open spec fn plain_entry(e: EntryV) -> bool { match e { EntryV::Def(n, fs) => plain_name(n) && plain_fields(fs), EntryV::Rel(a, b) => plain_path(a) && plain_path(b) } }
pub open spec fn plain(m: ModV) -> bool { (m.name matches Some(n) ==> plain_name(n)) && forall|k: int| 0 <= k < m.entries.len() ==> plain_entry(#[trigger] m.entries[k]) }
// ------------------------------------------------------------------ its tokens
pub open spec fn type_tk(t: EntityFieldType) -> Tk { match t { EntityFieldType::Int => Tk::Int, EntityFieldType::Uuid => Tk::Uuid, EntityFieldType::Text => Tk::Text, EntityFieldType::Timestamp => Tk::Timestamp } }
pub open spec fn key_tk(k: EntityFieldKey) -> Tk { match k { EntityFieldKey::PrimaryKey => Tk::Pk, EntityFieldKey::ForeginKey => Tk::Fk } }
pub open spec fn field_tks(f: FieldV) -> Seq<Tk> { seq![Tk::Ident(f.name)] + seq![type_tk(f.ty)] + (match f.key { None => Seq::empty(), Some(k) => seq![key_tk(k)] }) }
pub open spec fn fields_tks(fs: Seq<FieldV>) -> Seq<Tk> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { field_tks(fs[0]) + (if fs.len() == 1 { Seq::empty() } else { seq![Tk::Ctrl(';')] }) + fields_tks(fs.drop_first()) }
}
pub open spec fn path_tks(p: Named) -> Seq<Tk> { match p { Named::Table(n) => seq![Tk::Ident(n)], Named::Column(n, f) => seq![Tk::Ident(n)] + seq![Tk::Ctrl('.')] + seq![Tk::Ident(f)] } }
pub open spec fn entry_tks(e: EntryV) -> Seq<Tk> {
    match e {
        EntryV::Def(n, fs) => seq![Tk::Ident(n)] + seq![Tk::Ctrl('{')] + fields_tks(fs) + seq![Tk::Ctrl('}')],
        EntryV::Rel(a, b) => path_tks(a) + seq![Tk::Edge] + path_tks(b),
    }
}
pub open spec fn entries_tks(es: Seq<EntryV>) -> Seq<Tk> decreases es.len() { if es.len() == 0 { Seq::empty() } else { entry_tks(es[0]) + seq![Tk::Newline] + entries_tks(es.drop_first()) } }
pub open spec fn mod_tks(m: ModV) -> Seq<Tk> {
    seq![Tk::Erd] + (match m.name { None => Seq::empty(), Some(n) => seq![Tk::Ident(n)] }) + (seq![Tk::Ctrl('{')] + seq![Tk::Newline]) + entries_tks(m.entries) + seq![Tk::Ctrl('}')]
}
// ------------------------------------------------------------------ the text spells the tokens
pub open spec fn blank_in(s: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && forall|k: int| i <= k < j ==> blank(#[trigger] s[k]) }
/// The characters i..j spell the tokens, with blanks before each and behind the last.
pub open spec fn tells(s: Seq<char>, i: int, j: int, ts: Seq<Tk>) -> bool decreases ts.len() {
    if ts.len() == 0 { blank_in(s, i, j) } else { exists|a: int, b: int| blank_in(s, i, a) && #[trigger] spells_token(s, a, b, ts[0]) && tells(s, b, j, ts.drop_first()) }
}
pub proof fn lemma_tells_lead(s: Seq<char>, i: int, j: int, k: int, ts: Seq<Tk>) requires blank_in(s, i, j), tells(s, j, k, ts) ensures tells(s, i, k, ts)
{
    if ts.len() > 0 {
        let (a, b) = choose|a: int, b: int| blank_in(s, j, a) && #[trigger] spells_token(s, a, b, ts[0]) && tells(s, b, k, ts.drop_first());
        assert(blank_in(s, i, a) && spells_token(s, a, b, ts[0]));
    }
}
pub proof fn lemma_tells_cat(s: Seq<char>, i: int, j: int, k: int, t: Seq<Tk>, u: Seq<Tk>) requires tells(s, i, j, t), tells(s, j, k, u) ensures tells(s, i, k, t + u) decreases t.len()
{
    if t.len() == 0 { assert(t + u =~= u); lemma_tells_lead(s, i, j, k, u); }
    else {
        let (a, b) = choose|a: int, b: int| blank_in(s, i, a) && #[trigger] spells_token(s, a, b, t[0]) && tells(s, b, j, t.drop_first());
        lemma_tells_cat(s, b, j, k, t.drop_first(), u);
        assert((t + u).drop_first() =~= t.drop_first() + u);
        assert((t + u)[0] == t[0]);
    }
}
pub proof fn lemma_tells_all(s: Seq<char>, i: int, ts: Seq<Tk>) requires tells(s, i, s.len() as int, ts) ensures spells_tokens(s, i, ts) decreases ts.len()
{
    let n = s.len() as int;
    if ts.len() == 0 { assert(gap_via(s, i, n, n)); }
    else {
        let (a, b) = choose|a: int, b: int| blank_in(s, i, a) && #[trigger] spells_token(s, a, b, ts[0]) && tells(s, b, n, ts.drop_first());
        assert(gap_via(s, i, a, a));
        lemma_tells_all(s, b, ts.drop_first());
    }
}
/// The text spells the tokens wherever it stands; if it is not closed, no letter, digit or underscore may follow.
pub open spec fn told(x: Seq<char>, ts: Seq<Tk>, p: Seq<char>, q: Seq<char>, closed: bool) -> bool { (closed || q.len() == 0 || !id_part(q[0])) ==> tells(p + x + q, p.len() as int, (p + x).len() as int, ts) }
#[verifier::opaque]
pub open spec fn seg(x: Seq<char>, ts: Seq<Tk>, closed: bool) -> bool { forall|p: Seq<char>, q: Seq<char>| #[trigger] told(x, ts, p, q, closed) }
pub proof fn lemma_join(x: Seq<char>, t: Seq<Tk>, c: bool, y: Seq<char>, u: Seq<Tk>, d: bool)
    requires seg(x, t, c), seg(y, u, d), c || y.len() > 0 && !id_part(y[0]),
    ensures seg(x + y, t + u, d),
{
    reveal(seg);
    assert forall|p: Seq<char>, q: Seq<char>| #[trigger] told(x + y, t + u, p, q, d) by {
        if d || q.len() == 0 || !id_part(q[0]) {
            let s = p + (x + y) + q;
            assert(s =~= p + x + (y + q)); assert(s =~= p + x + y + q);
            assert(y.len() > 0 ==> (y + q)[0] == y[0]);
            assert(told(x, t, p, y + q, c)); assert(told(y, u, p + x, q, d));
            lemma_tells_cat(s, p.len() as int, (p + x).len() as int, (p + x + y).len() as int, t, u);
            assert((p + x + y).len() == (p + (x + y)).len());
        }
    }
}
pub proof fn lemma_one(x: Seq<char>, t: Tk, closed: bool)
    requires forall|p: Seq<char>, q: Seq<char>| closed || q.len() == 0 || !id_part(q[0]) ==> spells_token(#[trigger] (p + x + q), p.len() as int, (p + x).len() as int, t),
    ensures seg(x, seq![t], closed),
{
    reveal(seg);
    assert forall|p: Seq<char>, q: Seq<char>| #[trigger] told(x, seq![t], p, q, closed) by {
        if closed || q.len() == 0 || !id_part(q[0]) {
            let s = p + x + q; let (i, j) = (p.len() as int, (p + x).len() as int);
            assert(blank_in(s, i, i) && spells_token(s, i, j, seq![t][0]));
            assert(seq![t].drop_first() =~= Seq::<Tk>::empty());
            assert(tells(s, j, j, seq![t].drop_first()));
        }
    }
}
pub proof fn lemma_blank(x: Seq<char>) requires forall|k: int| 0 <= k < x.len() ==> #[trigger] x[k] == ' ' ensures seg(x, Seq::empty(), true)
{
    reveal(seg);
    assert forall|p: Seq<char>, q: Seq<char>| #[trigger] told(x, Seq::<Tk>::empty(), p, q, true) by {
        let s = p + x + q;
        assert forall|k: int| p.len() <= k < (p + x).len() implies blank(#[trigger] s[k]) by { assert(s[k] == x[k - p.len()]); }
    }
}
pub proof fn lemma_ctrl(c: char) requires c == '{' || c == '}' || c == ';' || c == '.' ensures seg(seq![c], seq![Tk::Ctrl(c)], true)
{
    let x = seq![c];
    assert forall|p: Seq<char>, q: Seq<char>| spells_token(#[trigger] (p + x + q), p.len() as int, (p + x).len() as int, Tk::Ctrl(c)) by { let s = p + x + q; assert(s[p.len() as int] == c); }
    lemma_one(x, Tk::Ctrl(c), true);
}
pub proof fn lemma_nl() ensures seg(seq!['\n'], seq![Tk::Newline], true)
{
    let x = seq!['\n'];
    assert forall|p: Seq<char>, q: Seq<char>| spells_token(#[trigger] (p + x + q), p.len() as int, (p + x).len() as int, Tk::Newline) by { let s = p + x + q; assert(s[p.len() as int] == '\n'); }
    lemma_one(x, Tk::Newline, true);
}
pub proof fn lemma_edge() ensures seg(seq!['o', '-', '-', 'o'], seq![Tk::Edge], true)
{
    let x = seq!['o', '-', '-', 'o'];
    assert forall|p: Seq<char>, q: Seq<char>| spells_token(#[trigger] (p + x + q), p.len() as int, (p + x).len() as int, Tk::Edge) by { let s = p + x + q; let i = p.len() as int; assert(s[i] == 'o' && s[i + 1] == '-' && s[i + 2] == '-' && s[i + 3] == 'o'); }
    lemma_one(x, Tk::Edge, true);
}
pub proof fn lemma_any_word(w: Seq<char>, t: Tk) requires is_word(w), t == Tk::Ident(w) && !is_keyword_text(w) || keyword_of(t) == Some(w) ensures seg(w, seq![t], false)
{
    assert forall|p: Seq<char>, q: Seq<char>| q.len() == 0 || !id_part(q[0]) implies spells_token(#[trigger] (p + w + q), p.len() as int, (p + w).len() as int, t) by {
        let s = p + w + q; let (i, j) = (p.len() as int, (p + w).len() as int);
        assert(s.subrange(i, j) =~= w);
        assert(j < s.len() ==> s[j] == q[0]);
        assert(word_is(s, i, j, w));
    }
    lemma_one(w, t, false);
}
pub proof fn lemma_type(t: EntityFieldType) ensures seg(type_text(t), seq![type_tk(t)], false)
{
    reveal_strlit("int"); reveal_strlit("uuid"); reveal_strlit("text"); reveal_strlit("timestamp");
    assert(type_text(t) =~= keyword_of(type_tk(t))->0);
    lemma_any_word(type_text(t), type_tk(t));
}
pub proof fn lemma_key(t: EntityFieldKey) ensures seg(key_text(t), seq![key_tk(t)], false)
{
    reveal_strlit("PK"); reveal_strlit("FK");
    assert(key_text(t) =~= keyword_of(key_tk(t))->0);
    lemma_any_word(key_text(t), key_tk(t));
}
/// A word behind the text and a blank.
pub proof fn lemma_then(x: Seq<char>, ts: Seq<Tk>, c: bool, y: Seq<char>, t: Tk) requires seg(x, ts, c), seg(y, seq![t], false) ensures seg(x + seq![' '] + y, ts + seq![t], false)
{
    lemma_blank(seq![' ']);
    lemma_join(x, ts, c, seq![' '], Seq::empty(), true);
    lemma_join(x + seq![' '], ts + Seq::empty(), true, y, seq![t], false);
    assert(ts + Seq::<Tk>::empty() =~= ts);
}
pub proof fn lemma_show_field(f: FieldV) requires plain_name(f.name) ensures seg(field_text(f), field_tks(f), false)
{
    lemma_any_word(f.name, Tk::Ident(f.name));
    lemma_type(f.ty);
    lemma_then(f.name, seq![Tk::Ident(f.name)], false, type_text(f.ty), type_tk(f.ty));
    let (x, ts) = (f.name + seq![' '] + type_text(f.ty), seq![Tk::Ident(f.name)] + seq![type_tk(f.ty)]);
    match f.key {
        None => { assert(field_text(f) =~= x); assert(field_tks(f) =~= ts); }
        Some(k) => {
            lemma_key(k); lemma_then(x, ts, false, key_text(k), key_tk(k));
            assert(field_text(f) =~= x + seq![' '] + key_text(k));
        }
    }
}
pub proof fn lemma_show_fields(fs: Seq<FieldV>) requires plain_fields(fs) ensures seg(fields_text(fs), fields_tks(fs), true) decreases fs.len()
{
    if fs.len() == 0 { lemma_blank(Seq::empty()); }
    else {
        let rest = fs.drop_first();
        assert forall|k: int| 0 <= k < rest.len() implies plain_name((#[trigger] rest[k]).name) by { assert(rest[k] == fs[k + 1]); }
        lemma_show_fields(rest);
        lemma_show_field(fs[0]);
        let (x, t) = (field_text(fs[0]), field_tks(fs[0]));
        lemma_blank(seq![' ']);
        if fs.len() == 1 { lemma_join(x, t, false, seq![' '], Seq::empty(), true); lemma_join(x + seq![' '], t + Seq::empty(), true, fields_text(rest), fields_tks(rest), true); }
        else {
            lemma_ctrl(';');
            lemma_join(seq![';'], seq![Tk::Ctrl(';')], true, seq![' '], Seq::empty(), true);
            assert(seq![';'] + seq![' '] =~= seq![';', ' ']); assert(seq![Tk::Ctrl(';')] + Seq::<Tk>::empty() =~= seq![Tk::Ctrl(';')]);
            lemma_join(x, t, false, seq![';', ' '], seq![Tk::Ctrl(';')], true);
            lemma_join(x + seq![';', ' '], t + seq![Tk::Ctrl(';')], true, fields_text(rest), fields_tks(rest), true);
        }
    }
}
pub proof fn lemma_show_path(p: Named) requires plain_path(p) ensures seg(path_text(p), path_tks(p), false)
{
    match p {
        Named::Table(n) => { lemma_any_word(n, Tk::Ident(n)); }
        Named::Column(n, f) => {
            lemma_any_word(n, Tk::Ident(n)); lemma_any_word(f, Tk::Ident(f)); lemma_ctrl('.');
            lemma_join(n, seq![Tk::Ident(n)], false, seq!['.'], seq![Tk::Ctrl('.')], true);
            lemma_join(n + seq!['.'], seq![Tk::Ident(n)] + seq![Tk::Ctrl('.')], true, f, seq![Tk::Ident(f)], false);
        }
    }
}
pub proof fn lemma_show_entry(e: EntryV) requires plain_entry(e) ensures seg(entry_text(e), entry_tks(e), false)
{
    lemma_blank(seq![' ']);
    match e {
        EntryV::Def(n, fs) => {
            let none = Seq::<Tk>::empty();
            lemma_any_word(n, Tk::Ident(n)); lemma_ctrl('{'); lemma_ctrl('}'); lemma_show_fields(fs);
            lemma_join(seq![' '], none, true, seq!['{'], seq![Tk::Ctrl('{')], true);
            assert(seq![' '] + seq!['{'] =~= seq![' ', '{']); assert(none + seq![Tk::Ctrl('{')] =~= seq![Tk::Ctrl('{')]);
            lemma_join(n, seq![Tk::Ident(n)], false, seq![' ', '{'], seq![Tk::Ctrl('{')], true);
            let (x, t) = (n + seq![' ', '{'], seq![Tk::Ident(n)] + seq![Tk::Ctrl('{')]);
            let b = if fs.len() > 0 { seq![' '] } else { Seq::<char>::empty() };
            lemma_blank(b);
            lemma_join(x, t, true, b, none, true);
            assert(t + none =~= t);
            lemma_join(x + b, t, true, fields_text(fs), fields_tks(fs), true);
            lemma_join(x + b + fields_text(fs), t + fields_tks(fs), true, seq!['}'], seq![Tk::Ctrl('}')], true);
            lemma_open(entry_text(e), entry_tks(e));
        }
        EntryV::Rel(a, b) => {
            let none = Seq::<Tk>::empty();
            lemma_show_path(a); lemma_show_path(b); lemma_edge();
            lemma_join(seq![' '], none, true, seq!['o', '-', '-', 'o'], seq![Tk::Edge], true);
            lemma_join(seq![' '] + seq!['o', '-', '-', 'o'], none + seq![Tk::Edge], true, seq![' '], none, true);
            assert(seq![' '] + seq!['o', '-', '-', 'o'] + seq![' '] =~= seq![' ', 'o', '-', '-', 'o', ' ']); assert(none + seq![Tk::Edge] + none =~= seq![Tk::Edge]);
            lemma_join(path_text(a), path_tks(a), false, seq![' ', 'o', '-', '-', 'o', ' '], seq![Tk::Edge], true);
            lemma_join(path_text(a) + seq![' ', 'o', '-', '-', 'o', ' '], path_tks(a) + seq![Tk::Edge], true, path_text(b), path_tks(b), false);
        }
    }
}
pub proof fn lemma_open(x: Seq<char>, t: Seq<Tk>) requires seg(x, t, true) ensures seg(x, t, false)
{ reveal(seg); assert forall|p: Seq<char>, q: Seq<char>| #[trigger] told(x, t, p, q, false) by { assert(told(x, t, p, q, true)); } }
pub proof fn lemma_show_entries(es: Seq<EntryV>) requires forall|k: int| 0 <= k < es.len() ==> plain_entry(#[trigger] es[k]) ensures seg(entries_text(es), entries_tks(es), true) decreases es.len()
{
    let none = Seq::<Tk>::empty();
    if es.len() == 0 { lemma_blank(Seq::empty()); }
    else {
        let rest = es.drop_first();
        assert forall|k: int| 0 <= k < rest.len() implies plain_entry(#[trigger] rest[k]) by { assert(rest[k] == es[k + 1]); }
        lemma_show_entries(rest);
        lemma_show_entry(es[0]);
        let b = seq![' ', ' ', ' ', ' '];
        lemma_blank(b); lemma_nl();
        lemma_join(b, none, true, entry_text(es[0]), entry_tks(es[0]), false);
        assert(none + entry_tks(es[0]) =~= entry_tks(es[0]));
        lemma_join(b + entry_text(es[0]), entry_tks(es[0]), false, seq!['\n'], seq![Tk::Newline], true);
        lemma_join(b + entry_text(es[0]) + seq!['\n'], entry_tks(es[0]) + seq![Tk::Newline], true, entries_text(rest), entries_tks(rest), true);
    }
}
pub proof fn lemma_show(m: ModV) requires plain(m) ensures spells_tokens(mod_text(m), 0, mod_tks(m))
{
    let none = Seq::<Tk>::empty();
    reveal_strlit("erd");
    lemma_blank(seq![' ']); lemma_ctrl('{'); lemma_ctrl('}'); lemma_nl();
    assert("erd"@ =~= seq!['e', 'r', 'd']);
    lemma_any_word(seq!['e', 'r', 'd'], Tk::Erd);
    lemma_join(seq!['e', 'r', 'd'], seq![Tk::Erd], false, seq![' '], none, true);
    assert(seq!['e', 'r', 'd'] + seq![' '] =~= seq!['e', 'r', 'd', ' ']); assert(seq![Tk::Erd] + none =~= seq![Tk::Erd]);
    let a = seq!['e', 'r', 'd', ' '];
    let (b, t) = match m.name { None => (Seq::empty(), none), Some(n) => (n + seq![' '], seq![Tk::Ident(n)]) };
    match m.name { None => { lemma_blank(b); } Some(n) => { lemma_any_word(n, Tk::Ident(n)); lemma_join(n, t, false, seq![' '], none, true); assert(t + none =~= t); } }
    lemma_join(a, seq![Tk::Erd], true, b, t, true);
    lemma_join(seq!['{'], seq![Tk::Ctrl('{')], true, seq!['\n'], seq![Tk::Newline], true);
    let (h, ht) = (seq!['{', '\n'], seq![Tk::Ctrl('{')] + seq![Tk::Newline]);
    assert(seq!['{'] + seq!['\n'] =~= h);
    lemma_join(a + b, seq![Tk::Erd] + t, true, h, ht, true);
    lemma_show_entries(m.entries);
    let (x, u) = (a + b + h, seq![Tk::Erd] + t + ht);
    lemma_join(x, u, true, entries_text(m.entries), entries_tks(m.entries), true);
    lemma_join(x + entries_text(m.entries), u + entries_tks(m.entries), true, seq!['}'], seq![Tk::Ctrl('}')], true);
    let (s, ts) = (mod_text(m), mod_tks(m));
    assert(seg(s, ts, true));
    assert(tells(s, 0, s.len() as int, ts)) by { reveal(seg); let e = Seq::<char>::empty(); assert(told(s, ts, e, e, true)); assert(e + s + e =~= s); assert((e + s).len() == s.len()); }
    lemma_tells_all(s, 0, ts);
}
// ------------------------------------------------------------------ and these the module
pub open spec fn spells_some_fields(t: Seq<Tk>, i: int, j: int, fs: Seq<FieldV>) -> bool { exists|l: int| #[trigger] spells_field(t, i, l, fs[0]) && spells_more_fields(t, l, j, fs.drop_first()) }
pub proof fn lemma_fields_tks(p: Seq<Tk>, fs: Seq<FieldV>, q: Seq<Tk>)
    requires fs.len() > 0,
    ensures spells_some_fields(p + fields_tks(fs) + q, p.len() as int, (p + fields_tks(fs)).len() as int, fs),
    decreases fs.len(),
{
    let t = p + fields_tks(fs) + q; let rest = fs.drop_first(); let f = field_tks(fs[0]);
    let l = (p + f).len() as int;
    let j = (p + fields_tks(fs)).len() as int;
    assert(t[p.len() as int] == f[0] && t[p.len() as int + 1] == f[1]);
    if fs[0].key is Some { assert(t[p.len() as int + 2] == f[2]); }
    assert(spells_field(t, p.len() as int, l, fs[0]));
    if rest.len() == 0 { assert(fields_tks(rest) =~= Seq::<Tk>::empty()); assert(l == j); assert(spells_more_fields(t, l, j, rest)); }
    else {
        let p2 = p + f + seq![Tk::Ctrl(';')];
        lemma_fields_tks(p2, rest, q);
        assert(t =~= p2 + fields_tks(rest) + q);
        assert((p2 + fields_tks(rest)).len() == j);
        assert(t[l] == Tk::Ctrl(';'));
        let k = p2.len() as int;
        let m = choose|m: int| #[trigger] spells_field(t, k, m, rest[0]) && spells_more_fields(t, m, j, rest.drop_first());
        assert(pads(t, l + 1, k) && spells_field(t, k, m, rest[0]) && spells_more_fields(t, m, j, rest.drop_first()));
        assert(spells_more_fields(t, l, j, rest));
    }
    assert(spells_field(t, p.len() as int, l, fs[0]) && spells_more_fields(t, l, j, fs.drop_first()));
}
pub proof fn lemma_path_tks(p: Seq<Tk>, x: Named, q: Seq<Tk>) ensures spells_path(p + path_tks(x) + q, p.len() as int, (p + path_tks(x)).len() as int, x)
{ let t = p + path_tks(x) + q; let y = path_tks(x); let i = p.len() as int; assert(t[i] == y[0]); if x is Column { assert(t[i + 1] == y[1] && t[i + 2] == y[2]); } }
pub proof fn lemma_entry_tks(p: Seq<Tk>, e: EntryV, q: Seq<Tk>) ensures spells_entry(p + entry_tks(e) + q, p.len() as int, (p + entry_tks(e)).len() as int, e)
{
    let t = p + entry_tks(e) + q; let i = p.len() as int; let j = (p + entry_tks(e)).len() as int;
    match e {
        EntryV::Def(n, fs) => {
            let x = fields_tks(fs);
            let p2 = p + seq![Tk::Ident(n)] + seq![Tk::Ctrl('{')]; let q2 = seq![Tk::Ctrl('}')] + q;
            assert(t =~= p2 + x + q2);
            let (a, b) = (i + 1, (p2 + x).len() as int);
            assert(t[i] == Tk::Ident(n) && t[a] == Tk::Ctrl('{') && t[b] == Tk::Ctrl('}'));
            assert(spells_fields(t, a + 1, b, fs)) by {
                if fs.len() > 0 { lemma_fields_tks(p2, fs, q2); let l = choose|l: int| #[trigger] spells_field(t, a + 1, l, fs[0]) && spells_more_fields(t, l, b, fs.drop_first()); assert(pads(t, a + 1, a + 1) && spells_field(t, a + 1, l, fs[0]) && spells_more_fields(t, l, b, fs.drop_first()) && pads(t, b, b)); }
                else { assert(x =~= Seq::<Tk>::empty()); assert(pads(t, b, b)); }
            }
            assert(pads(t, i + 1, a) && j == b + 1);
        }
        EntryV::Rel(x, y) => {
            lemma_path_tks(p, x, seq![Tk::Edge] + path_tks(y) + q);
            assert(t =~= p + path_tks(x) + (seq![Tk::Edge] + path_tks(y) + q));
            let p2 = p + path_tks(x) + seq![Tk::Edge];
            lemma_path_tks(p2, y, q);
            assert(t =~= p2 + path_tks(y) + q);
            let a = (p + path_tks(x)).len() as int;
            assert(t[a] == Tk::Edge);
            assert(spells_path(t, i, a, x) && pads(t, a, a) && pads(t, a + 1, a + 1) && spells_path(t, a + 1, j, y));
        }
    }
}
pub proof fn lemma_entries_tks(p: Seq<Tk>, es: Seq<EntryV>, q: Seq<Tk>)
    requires p.len() > 0, p.last() == Tk::Newline,
    ensures spells_more_entries(p + entries_tks(es) + q, p.len() - 1, (p + entries_tks(es)).len() - 1, es),
    decreases es.len(),
{
    let t = p + entries_tks(es) + q; let j = (p + entries_tks(es)).len() - 1;
    if es.len() > 0 {
        let rest = es.drop_first(); let x = entry_tks(es[0]);
        let k = p.len() as int; let l = (p + x).len() as int;
        lemma_entry_tks(p, es[0], seq![Tk::Newline] + entries_tks(rest) + q);
        assert(t =~= p + x + (seq![Tk::Newline] + entries_tks(rest) + q));
        let p2 = p + x + seq![Tk::Newline];
        lemma_entries_tks(p2, rest, q);
        assert(t =~= p2 + entries_tks(rest) + q);
        assert((p2 + entries_tks(rest)).len() - 1 == j);
        assert(t[k - 1] == p.last());
        assert(pads(t, k, k) && spells_entry(t, k, l, es[0]) && spells_more_entries(t, l, j, rest));
    }
}
pub proof fn lemma_entries_last(p: Seq<Tk>, es: Seq<EntryV>) requires p.len() > 0, p.last() == Tk::Newline ensures (p + entries_tks(es)).last() == Tk::Newline decreases es.len()
{
    if es.len() == 0 { assert(p + entries_tks(es) =~= p); }
    else {
        let p2 = p + entry_tks(es[0]) + seq![Tk::Newline];
        lemma_entries_last(p2, es.drop_first());
        assert(p + entries_tks(es) =~= p2 + entries_tks(es.drop_first()));
    }
}
/// The text a module with plain names is displayed as spells it.
pub proof fn lemma_shown(m: ModV) requires plain(m) ensures spells(mod_text(m), m)
{
    lemma_show(m);
    lemma_tks_module(m);
    assert(spells_tokens(mod_text(m), 0, mod_tks(m)) && spells_module(mod_tks(m), m));
}
pub proof fn lemma_tks_module(m: ModV) ensures spells_module(mod_tks(m), m)
{
    hide(spells_entry); hide(spells_more_entries); hide(entry_tks); hide(spells_entries);
    let t = mod_tks(m); let es = m.entries;
    let ht = seq![Tk::Erd] + (match m.name { None => Seq::empty(), Some(n) => seq![Tk::Ident(n)] });
    let h = ht + (seq![Tk::Ctrl('{')] + seq![Tk::Newline]);
    let q = seq![Tk::Ctrl('}')];
    assert(t =~= h + entries_tks(es) + q);
    lemma_entries_tks(h, es, q);
    let c = ht.len() as int; let d = c + 2; let f = (h + entries_tks(es)).len() as int;
    assert(h.len() == d && t[0] == Tk::Erd && t[c] == Tk::Ctrl('{') && t[c + 1] == Tk::Newline && t[f] == Tk::Ctrl('}') && t.len() == f + 1);
    if m.name is Some { assert(t[1] == ht[1]); }
    let e = if es.len() == 0 { d } else { f - 1 };
    if es.len() > 0 {
        let rest = es.drop_first(); let x = entry_tks(es[0]); let l = (h + x).len() as int;
        lemma_entry_tks(h, es[0], seq![Tk::Newline] + entries_tks(rest) + q);
        assert(t =~= h + x + (seq![Tk::Newline] + entries_tks(rest) + q));
        let p2 = h + x + seq![Tk::Newline];
        lemma_entries_tks(p2, rest, q);
        assert(t =~= p2 + entries_tks(rest) + q);
        assert((p2 + entries_tks(rest)).len() == f);
        assert(spells_entry(t, d, l, es[0]) && spells_more_entries(t, l, e, rest));
        lemma_entries_last(p2, rest);
        assert(t[e] == (p2 + entries_tks(rest)).last());
    } else { assert(entries_tks(es) =~= Seq::<Tk>::empty()); }
    assert(spells_entries(t, d, e, es)) by { reveal(spells_entries); }
    assert(pads(t, 0, 0) && pads(t, 1, 1) && pads(t, c + 1, d) && pads(t, e, f) && pads(t, f + 1, t.len() as int));
    assert(spells_title(t, 1, c, m.name));
    assert(spells_module_via(t, m, 0, 1, c, d, e, f)) by { reveal(spells_module_via); }
}
