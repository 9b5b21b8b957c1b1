//! Input language of the harness: a module description, independent of the code under test.
use seiren::erd::{
    EntityDefinition, EntityField, EntityFieldKey, EntityFieldType, EntityPath, EntityRelation,
    Module,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ty { Int, Uuid, Text, Timestamp }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Key { Pk, Fk }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Field { pub name: String, pub ty: Ty, pub key: Option<Key> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Path { Entity(String), Field(String, String) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Entry { Entity { name: String, fields: Vec<Field> }, Rel(Path, Path) }
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Spec { pub name: Option<String>, pub entries: Vec<Entry> }

pub fn ty_text(t: Ty) -> &'static str {
    match t { Ty::Int => "int", Ty::Uuid => "uuid", Ty::Text => "text", Ty::Timestamp => "timestamp" }
}
pub fn key_text(k: Key) -> &'static str { match k { Key::Pk => "PK", Key::Fk => "FK" } }

fn path_of(p: &Path) -> EntityPath {
    match p {
        Path::Entity(e) => EntityPath::Entity(e.clone()),
        Path::Field(e, f) => EntityPath::Field(e.clone(), f.clone()),
    }
}

impl Spec {
    pub fn to_module(&self) -> Module {
        let mut m = Module::new(self.name.clone());
        for e in &self.entries {
            match e {
                Entry::Entity { name, fields } => {
                    let mut d = EntityDefinition::new(name.clone());
                    for f in fields {
                        let ty = match f.ty {
                            Ty::Int => EntityFieldType::Int,
                            Ty::Uuid => EntityFieldType::Uuid,
                            Ty::Text => EntityFieldType::Text,
                            Ty::Timestamp => EntityFieldType::Timestamp,
                        };
                        let key = f.key.map(|k| match k {
                            Key::Pk => EntityFieldKey::PrimaryKey,
                            Key::Fk => EntityFieldKey::ForeginKey,
                        });
                        d.add_field(EntityField::new(f.name.clone(), ty, key));
                    }
                    m.add_entity_definition(d);
                }
                Entry::Rel(a, b) => {
                    m.add_entity_relation(EntityRelation::new(path_of(a), path_of(b)))
                }
            }
        }
        m
    }

    pub fn entities(&self) -> Vec<(&String, &Vec<Field>)> {
        self.entries
            .iter()
            .filter_map(|e| match e {
                Entry::Entity { name, fields } => Some((name, fields)),
                _ => None,
            })
            .collect()
    }

    /// Expected edges: (entity index, Some(row) | None) pairs, row 0 being the header row.
    pub fn expected_edges(&self) -> Vec<((usize, Option<usize>), (usize, Option<usize>))> {
        let mut seen: Vec<(&String, &Vec<Field>)> = vec![];
        let mut out = vec![];
        for e in &self.entries {
            match e {
                Entry::Entity { name, fields } => seen.push((name, fields)),
                Entry::Rel(a, b) => {
                    let find = |p: &Path| -> Option<(usize, Option<usize>)> {
                        match p {
                            Path::Entity(n) => {
                                seen.iter().rposition(|(m, _)| *m == n).map(|i| (i, None))
                            }
                            // the latest entity of that name that has such a field
                            Path::Field(n, f) => seen.iter().enumerate().rev().find_map(|(i, (m, fs))| {
                                if *m != n { return None; }
                                fs.iter().rposition(|x| x.name == *f).map(|j| (i, Some(j + 1)))
                            }),
                        }
                    };
                    if let (Some(x), Some(y)) = (find(a), find(b)) { out.push((x, y)); }
                }
            }
        }
        out
    }

    // ---- line format for replay files
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        if let Some(n) = &self.name { s += &format!("N {}\n", enc(n)); }
        for e in &self.entries {
            match e {
                Entry::Entity { name, fields } => {
                    s += &format!("E {}\n", enc(name));
                    for f in fields {
                        s += &format!("F {} {} {}\n", enc(&f.name), ty_text(f.ty), f.key.map_or("-", key_text));
                    }
                }
                Entry::Rel(a, b) => s += &format!("R {} {}\n", pathtxt(a), pathtxt(b)),
            }
        }
        s
    }
    pub fn from_text(t: &str) -> Spec {
        let mut s = Spec::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "N" => s.name = Some(dec(w[1])),
                "E" => s.entries.push(Entry::Entity { name: dec(w[1]), fields: vec![] }),
                "F" => {
                    let f = Field {
                        name: dec(w[1]),
                        ty: match w[2] { "int" => Ty::Int, "uuid" => Ty::Uuid, "text" => Ty::Text, _ => Ty::Timestamp },
                        key: match w[3] { "PK" => Some(Key::Pk), "FK" => Some(Key::Fk), _ => None },
                    };
                    if let Some(Entry::Entity { fields, .. }) = s.entries.last_mut() { fields.push(f) }
                }
                "R" => s.entries.push(Entry::Rel(pathdec(w[1]), pathdec(w[2]))),
                _ => {}
            }
        }
        s
    }
    /// Seiren source text for the module. All identifiers are back-quoted.
    pub fn to_source(&self) -> String {
        let mut s = String::from("erd ");
        if let Some(n) = &self.name { s += &quote(n); s.push(' '); }
        s += "{\n";
        for e in &self.entries {
            match e {
                Entry::Entity { name, fields } => {
                    s += &format!("{} {{\n", quote(name));
                    for f in fields {
                        s += &format!("  {} {}{}\n", quote(&f.name), ty_text(f.ty),
                            f.key.map_or(String::new(), |k| format!(" {}", key_text(k))));
                    }
                    s += "}\n";
                }
                Entry::Rel(a, b) => s += &format!("{} o--o {}\n", psrc(a), psrc(b)),
            }
        }
        s + "}\n"
    }
}
fn psrc(p: &Path) -> String {
    match p { Path::Entity(e) => quote(e), Path::Field(e, f) => format!("{}.{}", quote(e), quote(f)) }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("`");
    for c in s.chars() {
        match c { '`' => o += "\\`", '\\' => o += "\\\\", c => o.push(c) }
    }
    o + "`"
}
fn pathtxt(p: &Path) -> String {
    match p { Path::Entity(e) => enc(e), Path::Field(e, f) => format!("{}.{}", enc(e), enc(f)) }
}
fn pathdec(t: &str) -> Path {
    match t.split_once('.') { None => Path::Entity(dec(t)), Some((a, b)) => Path::Field(dec(a), dec(b)) }
}
fn enc(s: &str) -> String {
    let mut o = String::from("'");
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b == b'_' { o.push(b as char) } else { o += &format!("%{:02X}", b) }
    }
    o
}
fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = if b.first() == Some(&b'\'') { 1 } else { 0 };
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 }
        else { o.push(b[i]); i += 1 }
    }
    String::from_utf8(o).unwrap()
}

// ---------------------------------------------------------------- generation
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
}

#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
    pub max_entities: usize, pub max_fields: usize, pub max_rels: usize,
    pub weird_names: bool, pub dup_names: bool, pub entity_rels: bool, pub self_rels: bool,
}

const WEIRD: &[&str] = &["a<b", "x&y", "q\"t", "it's", "]]>", "&amp;", "</text>", "<!-- c -->", "日本語", "sp ace", "tab\tx",
    "nl\nx", "", "\u{8}", "\u{c}", "cr\rx", "\u{0}", "\u{fffe}", "`tick`", "back\\slash", "é", "\u{1F600}", " lead", "a>b",
    "trail ", "PK", "FK", "int", "uuid", "text", "timestamp", "erd", "a rather long name, as \"they\" are & <sometimes> written, 50 or more characters", "an even longer name \u{1F600} with characters of more than one byte, the kind \u{e9} that is cut in the middle, "];

/// What other languages and formats take for something else.
const PIECES: &[&str] = &["\\n", "\\t", "\\r", "\\u00e9", "\\u{41}", "\\x41", "\\0", "\\\\", "\\", "\\\"", "\\`", "\"", "'", "`", "&", "&#10;", "&lt;", "<", ">", "/>", "<b>", ";", "#", "{", "}", "{}", "{0}", "%s", "%20", "$", "$1", ".", "..", "-", "--", "---", "/", "//", "/*",
    "*", " ", "  ", "\n", "\r\n", "\t", "+", "=", "?", "|", "~", "^", "@", ":", ",", "_", "0", "1", "A", "Z", "z", "a", "n", "EVCXR_END_CONTENT", "\u{feff}", "\u{202e}", "\u{200b}", "\u{a0}", "\u{301}", "\u{ff21}", "\u{7f}", "\u{85}", "\u{2028}", "\u{10ffff}", "\u{fffd}", "\u{ffff}"];

pub fn gen_name(r: &mut Rng, weird: bool, base: &str, i: usize) -> String {
    if weird && r.chance(6) {
        // any character at all
        let c = loop { if let Some(c) = char::from_u32([r.below(0x100), r.below(0x10000), r.below(0x110000)][r.below(3)] as u32) { break c } };
        return format!("{}{}", base, c);
    }
    if weird && r.chance(12) {
        let mut s = if r.chance(50) { String::new() } else { base.to_string() };
        for _ in 0..1 + r.below(5) { s.push_str(PIECES[r.below(PIECES.len())]); }
        return s;
    }
    if weird && r.chance(40) {
        let w = WEIRD[r.below(WEIRD.len())];
        if r.chance(50) { w.to_string() } else { format!("{}{}{}", base, w, i) }
    } else { format!("{}{}", base, i) }
}

pub fn gen(r: &mut Rng, c: GenCfg) -> Spec {
    let ne = r.below(c.max_entities + 1);
    let mut ents: Vec<(String, Vec<Field>)> = vec![];
    for i in 0..ne {
        let name = if c.dup_names && i > 0 && r.chance(20) { ents[r.below(i)].0.clone() } else { gen_name(r, c.weird_names, "t", i) };
        let nf = if r.chance(15) { 0 } else { r.below(c.max_fields + 1) };
        let mut fs: Vec<Field> = vec![];
        for j in 0..nf {
            let fname = if c.dup_names && j > 0 && r.chance(15) { fs[r.below(j)].name.clone() } else { gen_name(r, c.weird_names, "f", j) };
            fs.push(Field { name: fname,
                ty: [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp][r.below(4)],
                key: [None, None, Some(Key::Pk), Some(Key::Fk)][r.below(4)] });
        }
        ents.push((name, fs));
    }
    let nr = r.below(c.max_rels + 1);
    let mut rels = vec![];
    let pick = |r: &mut Rng| -> Option<Path> {
        if ents.is_empty() { return None; }
        let (n, fs) = &ents[r.below(ents.len())];
        if fs.is_empty() || (c.entity_rels && r.chance(30)) {
            if !c.entity_rels { return None; }
            Some(Path::Entity(n.clone()))
        } else { Some(Path::Field(n.clone(), fs[r.below(fs.len())].name.clone())) }
    };
    for _ in 0..nr {
        if let (Some(a), Some(b)) = (pick(r), pick(r)) {
            if a == b && !c.self_rels { continue; }
            let unknown = c.dup_names && r.chance(10);
            rels.push(Entry::Rel(a, if unknown { Path::Field("nope".into(), "f0".into()) } else { b }));
        }
    }
    let mut entries: Vec<Entry> = ents.into_iter().map(|(name, fields)| Entry::Entity { name, fields }).collect();
    for x in rels {
        // mostly after the definitions; sometimes in between
        let at = if c.dup_names && r.chance(25) { r.below(entries.len() + 1) } else { entries.len() };
        entries.insert(at, x);
    }
    Spec { name: if r.chance(30) { Some("M".into()) } else { None }, entries }
}
