%verbatim
impl Same for Token { open spec fn same(&self, o: &Token) -> bool { tv(*self) == tv(*o) } }
// ------------------------------------------------------------------ the documented lexical grammar
pub enum Tk { Edge, Erd, Int, Uuid, Text, Timestamp, Pk, Fk, Ident(Seq<char>), Ctrl(char), Newline }
pub open spec fn tv(t: Token) -> Tk {
    match t {
        Token::Edge => Tk::Edge, Token::Ident(s) => Tk::Ident(s@), Token::Erd => Tk::Erd, Token::Int => Tk::Int, Token::Uuid => Tk::Uuid, Token::Text => Tk::Text,
        Token::Timestamp => Tk::Timestamp, Token::PK => Tk::Pk, Token::FK => Tk::Fk, Token::Ctrl(c) => Tk::Ctrl(c), Token::Newline => Tk::Newline,
    }
}
pub open spec fn tk_out(o: Out<Token>) -> Out<Tk> { match o { Out::Ok(v, j) => Out::Ok(tv(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
/// The end of the blanks from i on.
pub open spec fn blanks(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && blank(s[i]) { blanks(s, i + 1) } else { i } }
/// The end of the line from i on.
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] != '\n' { line_end(s, i + 1) } else { i } }
/// A comment with the blanks around it begins here; its end.
pub open spec fn comment_at(s: Seq<char>, i: int) -> bool { at(s, blanks(s, i), '/') && at(s, blanks(s, i) + 1, '/') }
pub open spec fn comment_end(s: Seq<char>, i: int) -> int { blanks(s, line_end(s, blanks(s, i) + 2)) }
/// The end of the comments from i on.
pub open spec fn comments(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i && comment_at(s, i) && i < comment_end(s, i) <= s.len() { comments(s, comment_end(s, i)) } else { i }
}
/// The word is a keyword or an identifier.
pub open spec fn word_tk(w: Seq<char>) -> Tk {
    if w == "erd"@ { Tk::Erd } else if w == "int"@ { Tk::Int } else if w == "uuid"@ { Tk::Uuid } else if w == "text"@ { Tk::Text }
    else if w == "timestamp"@ { Tk::Timestamp } else if w == "PK"@ { Tk::Pk } else if w == "FK"@ { Tk::Fk } else { Tk::Ident(w) }
}
/// Escapes of one character.
pub open spec fn escape(c: char) -> Option<char> {
    if c == '\\' || c == '/' || c == '"' || c == '`' { Some(c) } else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0C') } else if c == 'n' { Some('\n') }
    else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
/// Four hexadecimal digits at i, and their value.
pub open spec fn hex4(s: Seq<char>, i: int) -> bool { 0 <= i && i + 4 <= s.len() && hex_digit(s[i]) >= 0 && hex_digit(s[i + 1]) >= 0 && hex_digit(s[i + 2]) >= 0 && hex_digit(s[i + 3]) >= 0 }
pub open spec fn hex4_val(s: Seq<char>, i: int) -> int { hex_digit(s[i]) * 4096 + hex_digit(s[i + 1]) * 256 + hex_digit(s[i + 2]) * 16 + hex_digit(s[i + 3]) }
/// The escape after a backslash.
pub open spec fn escape_at(s: Seq<char>, i: int) -> Out<char> {
    if !(0 <= i < s.len()) { Out::Fail }
    else if escape(s[i]) is Some { Out::Ok(escape(s[i])->0, i + 1) }
    else if s[i] == 'u' && hex4(s, i + 1) { if char_code(hex4_val(s, i + 1)) { Out::Ok(hex4_val(s, i + 1) as char, i + 5) } else { Out::Other } }
    else { Out::Fail }
}
/// One character of a quoted name.
pub open spec fn qchar(s: Seq<char>, i: int) -> Out<char> {
    if !(0 <= i < s.len()) { Out::Fail } else if s[i] == '\\' { escape_at(s, i + 1) } else if s[i] == '`' { Out::Fail } else { Out::Ok(s[i], i + 1) }
}
pub open spec fn qchars(s: Seq<char>, i: int) -> Out<Seq<char>> decreases s.len() - i {
    match qchar(s, i) {
        Out::Ok(c, j) => if 0 <= i < j <= s.len() { match qchars(s, j) { Out::Ok(v, k) => Out::Ok(seq![c] + v, k), Out::Fail => Out::Fail, Out::Other => Out::Other } } else { Out::Other },
        Out::Fail => Out::Ok(Seq::empty(), i),
        Out::Other => Out::Other,
    }
}
pub open spec fn token_at(s: Seq<char>, i: int) -> Out<Tk> {
    if !(0 <= i < s.len()) { Out::Fail }
    else if starts(s, i, "o--o"@) { Out::Ok(Tk::Edge, i + 4) }
    else if id_start(s[i]) { Out::Ok(word_tk(s.subrange(i, word_end(s, i + 1))), word_end(s, i + 1)) }
    else if s[i] == '`' { quoted_at(s, i) }
    else if s[i] == '{' || s[i] == '}' || s[i] == ';' || s[i] == '.' { Out::Ok(Tk::Ctrl(s[i]), i + 1) }
    else if s[i] == '\n' { Out::Ok(Tk::Newline, i + 1) }
    else if s[i] == '\r' && at(s, i + 1, '\n') { Out::Ok(Tk::Newline, i + 2) }
    else { Out::Fail }
}
/// A token with the blanks and comments around it.
pub open spec fn item_at(s: Seq<char>, i: int) -> Out<Tk> {
    let a = comments(s, blanks(s, i));
    match token_at(s, a) { Out::Ok(t, j) => Out::Ok(t, blanks(s, comments(s, j))), Out::Fail => if a == s.len() { Out::Fail } else { Out::Other }, Out::Other => Out::Other }
}
pub open spec fn items(s: Seq<char>, i: int) -> Out<Seq<Tk>> decreases s.len() - i {
    match item_at(s, i) {
        Out::Ok(c, j) => if 0 <= i < j <= s.len() { match items(s, j) { Out::Ok(v, k) => Out::Ok(seq![c] + v, k), Out::Fail => Out::Fail, Out::Other => Out::Other } } else { Out::Other },
        Out::Fail => Out::Ok(Seq::empty(), i),
        Out::Other => Out::Other,
    }
}
// ------------------------------------------------------------------ what the parts of the tokenizer do
pub open spec fn is_blank_char(p: Ps<char, char>) -> bool { forall|s: Seq<char>, i: int| #[trigger] p.run(s, i) == if 0 <= i < s.len() && blank(s[i]) { Out::Ok(s[i], i + 1) } else { Out::Fail } }
pub open spec fn is_line_char(p: Ps<char, char>) -> bool { forall|s: Seq<char>, i: int| #[trigger] p.run(s, i) == if 0 <= i < s.len() && s[i] != '\n' { Out::Ok(s[i], i + 1) } else { Out::Fail } }
pub open spec fn is_blanks<O>(p: Ps<char, O>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> (#[trigger] p.run(s, i) matches Out::Ok(o, j) && j == blanks(s, i)) }
pub open spec fn is_comment<O>(p: Ps<char, O>) -> bool {
    forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> if comment_at(s, i) { #[trigger] p.run(s, i) matches Out::Ok(o, j) && j == comment_end(s, i) } else { p.run(s, i) is Fail }
}
pub open spec fn is_comments<O>(p: Ps<char, O>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> (#[trigger] p.run(s, i) matches Out::Ok(o, j) && j == comments(s, i)) }
pub open spec fn is_qchar(p: Ps<char, char>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> (qchar(s, i) is Other || #[trigger] p.run(s, i) == qchar(s, i)) }
/// Where the grammar says what the text is, the parser finds it.
pub open spec fn agrees<V>(p: Out<V>, q: Out<V>) -> bool { q is Other || p == q }
pub open spec fn is_escape(p: Ps<char, char>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> agrees(#[trigger] p.run(s, i), if at(s, i, '\\') { escape_at(s, i + 1) } else { Out::Fail }) }
pub open spec fn is_ctrl_text(t: Seq<char>) -> bool { forall|c: char| #[trigger] t.contains(c) == (c == '{' || c == '}' || c == ';' || c == '.') }
pub open spec fn is_blank_text(t: Seq<char>) -> bool { forall|c: char| #[trigger] t.contains(c) == blank(c) }
pub open spec fn is_lit1(t: Seq<char>, c: char) -> bool { t.len() == 1 && forall|s: Seq<char>, i: int| #[trigger] starts(s, i, t) == at(s, i, c) }
pub open spec fn is_lit2(t: Seq<char>, c: char, d: char) -> bool { t.len() == 2 && forall|s: Seq<char>, i: int| #[trigger] starts(s, i, t) == (at(s, i, c) && at(s, i + 1, d)) }
pub proof fn lemma_lit1(t: Seq<char>) requires t.len() == 1 ensures is_lit1(t, t[0])
{ assert forall|s: Seq<char>, i: int| #[trigger] starts(s, i, t) == at(s, i, t[0]) by { if starts(s, i, t) { assert(s[i + 0] == t[0]); } } }
pub proof fn lemma_lit2(t: Seq<char>) requires t.len() == 2 ensures is_lit2(t, t[0], t[1])
{ assert forall|s: Seq<char>, i: int| #[trigger] starts(s, i, t) == (at(s, i, t[0]) && at(s, i + 1, t[1])) by { if starts(s, i, t) { assert(s[i + 0] == t[0]); assert(s[i + 1] == t[1]); } } }
pub open spec fn is_ctrl(p: Ps<char, Token>) -> bool {
    forall|s: Seq<char>, i: int| tk_out(#[trigger] p.run(s, i)) == if 0 <= i < s.len() && (s[i] == '{' || s[i] == '}' || s[i] == ';' || s[i] == '.') { Out::Ok(Tk::Ctrl(s[i]), i + 1) } else { Out::Fail }
}
pub open spec fn is_newline(p: Ps<char, Token>) -> bool {
    forall|s: Seq<char>, i: int| tk_out(#[trigger] p.run(s, i)) == if at(s, i, '\n') { Out::Ok(Tk::Newline, i + 1) } else if at(s, i, '\r') && at(s, i + 1, '\n') { Out::Ok(Tk::Newline, i + 2) } else { Out::Fail }
}
pub open spec fn is_keyword(p: Ps<char, Token>) -> bool {
    forall|s: Seq<char>, i: int| tk_out(#[trigger] p.run(s, i)) == if word_at(s, i) && !(word_tk(s.subrange(i, word_end(s, i + 1))) is Ident) { Out::Ok(word_tk(s.subrange(i, word_end(s, i + 1))), word_end(s, i + 1)) } else { Out::Fail }
}
pub open spec fn quoted_at(s: Seq<char>, i: int) -> Out<Tk> {
    if !at(s, i, '`') { Out::Fail } else {
        match qchars(s, i + 1) { Out::Ok(v, j) => if at(s, j, '`') { Out::Ok(Tk::Ident(v), j + 1) } else { Out::Fail }, Out::Fail => Out::Fail, Out::Other => Out::Other }
    }
}
pub open spec fn is_quoted(p: Ps<char, Token>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> agrees(tk_out(#[trigger] p.run(s, i)), quoted_at(s, i)) }
pub open spec fn is_token(p: Ps<char, Token>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> agrees(tk_out(#[trigger] p.run(s, i)), if token_at(s, i) is Fail && i < s.len() { Out::Other } else { token_at(s, i) }) }
pub open spec fn pair_out(o: Out<(Token, Span)>) -> Out<Tk> { match o { Out::Ok(v, j) => Out::Ok(tv(v.0), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn tvs(v: Seq<(Token, Span)>) -> Seq<Tk> { v.map_values(|x: (Token, Span)| tv(x.0)) }
pub open spec fn pairs_out(o: Out<Seq<(Token, Span)>>) -> Out<Seq<Tk>> { match o { Out::Ok(v, j) => Out::Ok(tvs(v), j), Out::Fail => Out::Fail, Out::Other => Out::Other } }
pub open spec fn is_item(p: Ps<char, (Token, Span)>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> agrees(pair_out(#[trigger] p.run(s, i)), item_at(s, i)) }
pub open spec fn is_items(p: Ps<char, Vec<(Token, Span)>>) -> bool { forall|s: Seq<char>, i: int| 0 <= i <= s.len() ==> agrees(pairs_out(vec_out(#[trigger] p.run(s, i))), items(s, i)) }
// ------------------------------------------------------------------ positions
pub broadcast proof fn b_blanks(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> i <= #[trigger] blanks(s, i) <= s.len() && !(blanks(s, i) < s.len() && blank(s[blanks(s, i)])) decreases s.len() - i { if 0 <= i < s.len() && blank(s[i]) { b_blanks(s, i + 1); } }
pub broadcast proof fn b_line_end(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> i <= #[trigger] line_end(s, i) <= s.len() && (line_end(s, i) == s.len() || s[line_end(s, i)] == '\n') decreases s.len() - i { if 0 <= i < s.len() && s[i] != '\n' { b_line_end(s, i + 1); } }
pub broadcast proof fn b_word_end(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> i <= #[trigger] word_end(s, i) <= s.len() decreases s.len() - i { if 0 <= i < s.len() && id_part(s[i]) { b_word_end(s, i + 1); } }
pub broadcast proof fn b_comments(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> i <= #[trigger] comments(s, i) <= s.len() && !comment_at(s, comments(s, i)) decreases s.len() - i
{
    broadcast use b_blanks, b_line_end;
    if 0 <= i <= s.len() && comment_at(s, i) { b_comments(s, comment_end(s, i)); }
}
pub broadcast proof fn b_qchars(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> (#[trigger] qchars(s, i) matches Out::Ok(v, j) ==> i <= j <= s.len()) decreases s.len() - i
{ if 0 <= i <= s.len() { match qchar(s, i) { Out::Ok(c, j) => { if i < j <= s.len() { b_qchars(s, j); } } _ => {} } } }
pub broadcast proof fn b_token_at(s: Seq<char>, i: int) ensures 0 <= i <= s.len() ==> (#[trigger] token_at(s, i) matches Out::Ok(v, j) ==> i < j <= s.len())
{ broadcast use b_word_end, b_qchars; reveal_strlit("o--o"); }
// ------------------------------------------------------------------ repetition
pub broadcast proof fn b_rep_blank(p: Ps<char, char>, s: Seq<char>, i: int) requires is_blank_char(p), 0 <= i <= s.len()
    ensures (#[trigger] rep(p, s, i)) matches Out::Ok(v, j) && j == blanks(s, i) decreases s.len() - i
{ if i < s.len() && blank(s[i]) { b_rep_blank(p, s, i + 1); } }
pub broadcast proof fn b_rep_line(p: Ps<char, char>, s: Seq<char>, i: int) requires is_line_char(p), 0 <= i <= s.len()
    ensures (#[trigger] rep(p, s, i)) matches Out::Ok(v, j) && j == line_end(s, i) decreases s.len() - i
{ if i < s.len() && s[i] != '\n' { b_rep_line(p, s, i + 1); } }
pub broadcast proof fn b_rep_comment<O>(p: Ps<char, O>, s: Seq<char>, i: int) requires is_comment(p), 0 <= i <= s.len()
    ensures (#[trigger] rep(p, s, i)) matches Out::Ok(v, j) && j == comments(s, i) decreases s.len() - i
{ broadcast use b_blanks, b_line_end; if comment_at(s, i) { b_rep_comment(p, s, comment_end(s, i)); } }
pub broadcast proof fn b_rep_qchar(p: Ps<char, char>, s: Seq<char>, i: int) requires is_qchar(p), 0 <= i <= s.len()
    ensures agrees(#[trigger] rep(p, s, i), qchars(s, i)) decreases s.len() - i
{ match qchar(s, i) { Out::Ok(c, j) => { if i < j <= s.len() { b_rep_qchar(p, s, j); } } _ => {} } }
pub broadcast proof fn b_rep_item(p: Ps<char, (Token, Span)>, s: Seq<char>, i: int) requires is_item(p), 0 <= i <= s.len()
    ensures agrees(pairs_out(#[trigger] rep(p, s, i)), items(s, i)) decreases s.len() - i
{
    match item_at(s, i) {
        Out::Ok(c, j) => { if i < j <= s.len() { b_rep_item(p, s, j); match (p.run(s, i), rep(p, s, j)) { (Out::Ok(o, _), Out::Ok(v, _)) => { assert(tvs(seq![o] + v) =~= seq![tv(o.0)] + tvs(v)); } _ => {} } } }
        _ => { assert(tvs(Seq::empty()) =~= Seq::empty()); }
    }
}
/// The string of four digits.
pub broadcast proof fn b_rep_hex(p: Ps<char, char>, s: Seq<char>, i: int)
    requires forall|s: Seq<char>, i: int| #[trigger] p.run(s, i) == if 0 <= i < s.len() && hex_digit(s[i]) >= 0 { Out::Ok(s[i], i + 1) } else { Out::Fail }, 0 <= i <= s.len(),
    ensures #[trigger] rep_n(p, s, i, 4) == if hex4(s, i) { Out::Ok(s.subrange(i, i + 4), i + 4) } else { Out::Fail },
        hex4(s, i) ==> hex_val(s.subrange(i, i + 4)) == hex4_val(s, i),
{
    reveal_with_fuel(rep_n, 5);
    if hex4(s, i) {
        let d = s.subrange(i, i + 4);
        assert(seq![s[i]] + (seq![s[i + 1]] + (seq![s[i + 2]] + (seq![s[i + 3]] + Seq::<char>::empty()))) =~= d);
        lemma_hex4(d);
    }
}
pub proof fn lemma_hex4(d: Seq<char>) requires d.len() == 4 ensures hex_val(d) == hex_digit(d[0]) * 4096 + hex_digit(d[1]) * 256 + hex_digit(d[2]) * 16 + hex_digit(d[3])
{
    reveal_with_fuel(hex_val, 5);
    assert(d.drop_last().drop_last().drop_last().drop_last().len() == 0);
}
