//! Source text: spelling a module in many ways, and what parsing it has to give.
use crate::oracle::R;
use crate::spec::*;
use seiren::erd::{EntityFieldKey, EntityFieldType, EntityPath, Module, ModuleEntry};
use seiren::parser::parse;

macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn path(p: &EntityPath) -> Path {
    match p { EntityPath::Entity(a) => Path::Entity(a.clone()), EntityPath::Field(a, b) => Path::Field(a.clone(), b.clone()) }
}
pub fn spec_of(m: &Module) -> Spec {
    Spec {
        name: m.name().map(|s| s.to_string()),
        entries: m.entries().map(|e| match e {
            ModuleEntry::EntityDefinition(d) => Entry::Entity {
                name: d.name().to_string(),
                fields: d.fields().map(|f| Field {
                    name: f.name().to_string(),
                    ty: match f.field_type() { EntityFieldType::Int => Ty::Int, EntityFieldType::Uuid => Ty::Uuid, EntityFieldType::Text => Ty::Text, EntityFieldType::Timestamp => Ty::Timestamp },
                    key: f.field_key().map(|k| match k { EntityFieldKey::PrimaryKey => Key::Pk, EntityFieldKey::ForeginKey => Key::Fk }),
                }).collect(),
            },
            ModuleEntry::EntityRelation(r) => Entry::Rel(path(r.start_path()), path(r.end_path())),
        }).collect(),
    }
}
pub fn parses_to(text: &str, want: &Spec) -> R {
    let (m, e1, e2) = parse(text);
    ensure!(e1.is_empty() && e2.is_empty(), "errors {:?} {:?}", e1.first(), e2.first());
    let m = m.ok_or("no module and no error")?;
    let got = spec_of(&m);
    ensure!(got == *want, "parsed as\n{}", got.to_text());
    Ok(())
}
/// Any text: no panic, and either a module or a diagnostic.
pub fn any_text(text: &str) -> R {
    let (m, e1, e2) = parse(text);
    ensure!(m.is_some() || !e1.is_empty() || !e2.is_empty(), "neither a module nor a diagnostic");
    let n = text.chars().count();
    for s in e1.iter().map(|e| e.span()).chain(e2.iter().map(|e| e.span())) {
        ensure!(s.start <= n && s.start <= s.end && s.end <= n + 1, "a diagnostic points at {:?} in a text of {} characters", s, n);
    }
    // invalid escapes are reported
    Ok(())
}

const KEYWORDS: &[&str] = &["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];
fn bare(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |c| c == '_' || c.is_ascii_alphabetic()) && c.all(|c| c == '_' || c.is_ascii_alphanumeric()) && !KEYWORDS.contains(&s)
}
pub fn spell_name(r: &mut Rng, s: &str, escapes: bool) -> String {
    if bare(s) && r.chance(70) { return s.to_string(); }
    let mut o = String::from("`");
    for c in s.chars() {
        let u = format!("\\u{:04x}", c as u32);
        let esc = if escapes { r.below(4) } else { 1 };
        match c {
            '`' | '\\' => { if esc == 0 { o += &u } else { o.push('\\'); o.push(c) } }
            '\u{8}' if esc == 0 => o += "\\b", '\u{c}' if esc == 0 => o += "\\f", '\n' if esc == 0 => o += "\\n",
            '\r' if esc == 0 => o += "\\r", '\t' if esc == 0 => o += "\\t", '/' if esc == 0 => o += "\\/", '"' if esc == 0 => o += "\\\"",
            c if esc == 2 && (c as u32) < 0x10000 => { if r.chance(50) { o += &u } else { o += &format!("\\u{:04X}", c as u32) } }
            c => o.push(c),
        }
    }
    o + "`"
}
/// What a module is displayed as.
fn shown(s: &Spec) -> String {
    let mut o = String::from("erd ");
    if let Some(n) = &s.name { o += n; o.push(' '); }
    o += "{\n";
    for e in &s.entries { o += "    "; o += &shown_entry(e); o.push('\n'); }
    o + "}"
}
fn shown_entry(e: &Entry) -> String {
    let path = |p: &Path| match p { Path::Entity(a) => a.clone(), Path::Field(a, b) => [a.as_str(), b].join(".") };
    match e {
        Entry::Entity { name, fields } => {
            let fs: Vec<String> = fields.iter().map(|f| { let mut w = vec![f.name.as_str(), ty_text(f.ty)]; w.extend(f.key.map(key_text)); w.join(" ") }).collect();
            if fs.is_empty() { [name, " {}"].concat() } else { [name, " { ", &fs.join("; "), " }"].concat() }
        }
        Entry::Rel(a, b) => [path(a), path(b)].join(" o--o "),
    }
}
/// A writer with room for a number of bytes.
struct Room(String, usize);
impl std::fmt::Write for Room { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); } self.0 += s; Ok(()) } }
pub fn displayed(s: &Spec) -> R {
    use std::fmt::Write;
    let m = s.to_module();
    let (got, want) = (m.to_string(), shown(s));
    ensure!(got == want, "displayed as\n{}\ninstead of\n{}", got, want);
    for (e, x) in m.entries().zip(&s.entries) {
        let (got, want) = (e.to_string(), shown_entry(x));
        ensure!(got == want, "an entry is displayed as\n{}\ninstead of\n{}", got, want);
    }
    ensure!(spec_of(&m) == *s, "displaying changed the module");
    let plain = |p: &Path| match p { Path::Entity(a) => bare(a), Path::Field(a, b) => bare(a) && bare(b) };
    if s.name.as_ref().map_or(true, |n| bare(n)) && s.entries.iter().all(|e| match e { Entry::Entity { name, fields } => bare(name) && fields.iter().all(|f| bare(&f.name)), Entry::Rel(a, b) => plain(a) && plain(b) }) {
        parses_to(&got, s)?;
    }
    // a writer that runs full
    for k in 0..8 {
        let n = got.len() * k / 8 + k % 3;
        let mut w = Room(String::new(), n);
        let r = write!(w, "{}", m);
        ensure!(r.is_ok() == (n >= got.len()), "a writer with room for {} of {} bytes: {:?}", n, got.len(), r);
        ensure!(if r.is_ok() { w.0 == got } else { got.starts_with(&w.0) }, "a writer with room for {} of {} bytes got\n{}", n, got.len(), w.0);
    }
    Ok(())
}
/// Spacing of the spelling. `plain`: one space or newline where the grammar wants one.
pub struct Style { pub noisy: bool, pub escapes: bool }
struct W<'r> { r: &'r mut Rng, o: String, st: Style, word: bool }
impl<'r> W<'r> {
    // blanks allowed between any two tokens of one line
    fn gap(&mut self) {
        if !self.st.noisy { self.o.push(' '); return; }
        for _ in 0..self.r.below(3) { let k = self.r.below(2); self.o.push([' ', '\t'][k]); }
    }
    fn tok(&mut self, t: &str, word: bool) {
        let before = self.o.len();
        self.gap();
        if word && self.word && self.o.len() == before { self.o.push(' '); }
        self.o += t;
        self.word = word;
    }
    fn name(&mut self, s: &str) { let t = spell_name(self.r, s, self.st.escapes); let w = !t.starts_with('`'); self.tok(&t, w) }
    fn comment(&mut self) { let c = ["//", "// x", "// } `", "// o--o \\ ;", "//\tid int PK", "// 日本 // \"", "///"]; let k = self.r.below(c.len()); self.o += c[k];
        const BITS: &[&str] = &["\r", "\t", " ", "{", "}", ";", "`", "\\", "\"", "//", "é", "erd", "o--o", "\u{0}", "\u{2028}", "\u{85}"];
        for _ in 0..self.r.below(4) { let k = self.r.below(BITS.len()); self.o += BITS[k]; }
    }
    fn eol(&mut self) {
        if self.st.noisy {
            if self.r.chance(15) { self.gap(); self.comment(); }
            self.o += if self.r.chance(30) { "\r\n" } else { "\n" };
        } else { self.o.push('\n') }
        self.word = false;
    }
    // PAD
    fn pad(&mut self) { if self.st.noisy { for _ in 0..self.r.below(3) { self.gap(); if self.r.chance(30) { self.o.push(';'); self.word = false; } else { self.eol() } } } }
    // SEP PAD
    fn sep(&mut self) {
        if self.st.noisy && self.r.chance(40) { self.gap(); self.o.push(';'); self.word = false; } else { self.eol() }
        self.pad();
    }
    fn path(&mut self, p: &Path) {
        match p { Path::Entity(e) => self.name(e), Path::Field(e, f) => { self.name(e); if self.st.noisy { self.tok(".", false) } else { self.o.push('.'); self.word = false } self.name(f) } }
    }
}
pub fn spell(r: &mut Rng, s: &Spec, st: Style) -> String {
    let mut w = W { r, o: String::new(), st, word: false };
    w.pad();
    w.tok("erd", true);
    w.pad();
    if let Some(n) = &s.name { w.name(n); w.pad(); }
    w.tok("{", false);
    w.pad();
    for (i, e) in s.entries.iter().enumerate() {
        if i > 0 { w.sep(); }
        match e {
            Entry::Entity { name, fields } => {
                w.name(name);
                w.pad();
                w.tok("{", false);
                w.pad();
                for (j, f) in fields.iter().enumerate() {
                    if j > 0 { w.sep(); }
                    w.name(&f.name);
                    w.tok(ty_text(f.ty), true);
                    if let Some(k) = f.key { w.tok(key_text(k), true); }
                }
                w.pad();
                w.tok("}", false);
            }
            Entry::Rel(a, b) => { w.path(a); w.pad(); if w.word && !w.o.ends_with([' ', '\t', '\n']) { w.o.push(' ') } w.tok("o--o", false); w.pad(); w.path(b); }
        }
    }
    w.pad();
    w.tok("}", false);
    w.pad();
    if w.st.noisy && w.r.chance(20) { w.gap(); w.comment(); }
    w.o
}
/// A text that is mostly a module, damaged in places.
pub fn damage(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    const BITS: &[&str] = &["{", "}", ";", ".", "`", "\\", "\\u", "\\ud800", "\\uDFFF", "\\u00", "o--o", "o-", "erd", "PK", "int", "//", "\r", "\r\n", "\n", "é", "\u{0}", "\u{1F600}", "`a\\x`", "9", "-", "\\u12g4", "٣", "`\\u٣٣٣٣`"];
    for _ in 0..1 + r.below(4) {
        if r.chance(50) && !c.is_empty() { let i = r.below(c.len()); let n = 1 + r.below(6); for _ in 0..n { if i < c.len() { c.remove(i); } } }
        else { let i = r.below(c.len() + 1); for x in BITS[r.below(BITS.len())].chars().rev() { c.insert(i, x) } }
    }
    c.into_iter().collect()
}
