//! Search for an input on which a property fails, against the real crate.
use crate::oracle::{self, Geo, R};
use crate::parsing;
use crate::fronts;
use crate::spec::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Input { Module(Spec), Pair(Spec, Spec), Geo(Geo), Source(Spec, String), Text(String) }

pub struct Prop { pub id: &'static str, pub kind: Kind, pub oracles: &'static [(&'static str, fn(&Input) -> R)] }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Module, Names, Pair, Geo, Source, Noisy, Text, Rels, Front }

macro_rules! m { ($($f:ident),*) => { &[$((stringify!($f), |i: &Input| match i { Input::Module(s) => oracle::$f(s), _ => Ok(()) })),*] } }
macro_rules! t { ($($f:ident),*) => { &[$((stringify!($f), |i: &Input| match i { Input::Text(t) => fronts::$f(t), _ => Ok(()) })),*] } }
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", kind: Kind::Names, oracles: m!(model_rows) },
    Prop { id: "C02", kind: Kind::Rels, oracles: m!(model_edges) },
    Prop { id: "C03", kind: Kind::Module, oracles: m!(place_boxes) },
    Prop { id: "C04", kind: Kind::Module, oracles: m!(place_view) },
    Prop { id: "C05", kind: Kind::Module, oracles: m!(ports) },
    Prop { id: "C06", kind: Kind::Module, oracles: m!(route_ends) },
    Prop { id: "C07", kind: Kind::Module, oracles: m!(route_ortho) },
    Prop { id: "C08", kind: Kind::Module, oracles: m!(route_clear) },
    Prop { id: "C09", kind: Kind::Module, oracles: m!(route_cheapest) },
    Prop { id: "C10", kind: Kind::Names, oracles: m!(total, route_noturn, route_long) },
    Prop { id: "C11", kind: Kind::Names, oracles: m!(svg_texts) },
    Prop { id: "C12", kind: Kind::Names, oracles: m!(svg_shapes) },
    Prop { id: "C13", kind: Kind::Module, oracles: m!(unlaid) },
    Prop { id: "C14", kind: Kind::Geo, oracles: &[("geometry", |i| match i { Input::Geo(g) => oracle::geometry(g), _ => Ok(()) })] },
    Prop { id: "C15", kind: Kind::Pair, oracles: &[("engine_history", |i| match i { Input::Pair(a, b) => oracle::engine_history(a, b), _ => Ok(()) })] },
    Prop { id: "C16", kind: Kind::Source, oracles: &[("parses_to", |i| match i { Input::Source(s, t) => parsing::parses_to(t, s), _ => Ok(()) })] },
    Prop { id: "C17", kind: Kind::Text, oracles: &[("any_text", |i| match i { Input::Text(t) => parsing::any_text(t), _ => Ok(()) })] },
    Prop { id: "C18", kind: Kind::Noisy, oracles: &[("parses_to", |i| match i { Input::Source(s, t) => parsing::parses_to(t, s), _ => Ok(()) })] },
    Prop { id: "C19", kind: Kind::Front, oracles: t!(from_stdin, from_file, unreadable, notebook) },
    Prop { id: "C20", kind: Kind::Names, oracles: &[("displayed", |i| match i { Input::Module(s) => parsing::displayed(s), _ => Ok(()) })] },
];

impl Input {
    pub fn to_text(&self) -> String {
        match self {
            Input::Module(s) => format!("INPUT module\n{}", s.to_text()),
            Input::Pair(a, b) => format!("INPUT module\n{}INPUT module\n{}", a.to_text(), b.to_text()),
            Input::Geo(g) => format!("INPUT geometry\n{}", g.to_text()),
            Input::Source(s, t) => format!("INPUT module\n{}INPUT text\nT {}\n", s.to_text(), enc(t)),
            Input::Text(t) => format!("INPUT text\nT {}\n", enc(t)),
        }
    }
    pub fn from_text(t: &str) -> Option<Input> {
        let parts: Vec<&str> = t.split("INPUT ").skip(1).collect();
        let spec = |p: &str| Spec::from_text(p);
        let text = |p: &str| p.lines().find_map(|l| l.strip_prefix("T ")).map(dec);
        Some(match parts.as_slice() {
            [g] if g.starts_with("geometry") => Input::Geo(Geo::from_text(g)?),
            [x] if x.starts_with("text") => Input::Text(text(x)?),
            [m] => Input::Module(spec(m)),
            [m, x] if x.starts_with("text") => Input::Source(spec(m), text(x)?),
            [a, b] => Input::Pair(spec(a), spec(b)),
            _ => return None,
        })
    }
    fn nontrivial(&self) -> bool {
        let m = |s: &Spec| s.entries.iter().any(|e| matches!(e, Entry::Entity { .. })) && s.entries.len() >= 2;
        match self { Input::Module(s) | Input::Source(s, _) => m(s), Input::Pair(a, b) => m(a) && m(b), Input::Geo(g) => g.a != g.b && g.r[2] > 0, Input::Text(t) => t.len() > 4 }
    }
    fn pretty(&self) -> String {
        match self {
            Input::Module(s) => s.to_source(),
            Input::Pair(a, b) => format!("{}then\n{}", a.to_source(), b.to_source()),
            Input::Geo(g) => format!("{:?} (in halves)", g),
            Input::Source(_, t) | Input::Text(t) => t.clone(),
        }
    }
}

fn entity(name: &str, n: usize) -> Entry {
    Entry::Entity { name: name.into(), fields: (0..n).map(|j| Field { name: format!("f{}", j), ty: [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp][j % 4], key: [Some(Key::Pk), None, Some(Key::Fk)][j % 3] }).collect() }
}
/// Small modules, enumerated: up to 7 tables of 0 to 3 fields, every pair of rows (or tables) related, in both directions.
pub fn enumerated() -> Vec<Spec> {
    let mut v = vec![Spec::default()];
    let shapes: &[&[usize]] = &[&[0], &[1], &[2], &[3], &[0, 0], &[1, 2], &[2, 1], &[1, 1, 1], &[3, 0, 2], &[1, 3, 1, 2], &[2, 2, 2, 2], &[0, 1, 2, 3, 1], &[1, 2, 1, 1, 3, 1], &[2, 1, 3, 0, 1, 2, 2], &[1, 1, 1, 6, 1, 1, 1]];
    for sh in shapes {
        let ents: Vec<Entry> = sh.iter().enumerate().map(|(i, n)| entity(&format!("t{}", i), *n)).collect();
        v.push(Spec { name: None, entries: ents.clone() });
        let mut ends = vec![];
        for (i, n) in sh.iter().enumerate() {
            ends.push(Path::Entity(format!("t{}", i)));
            for j in 0..*n { ends.push(Path::Field(format!("t{}", i), format!("f{}", j))); }
        }
        for a in &ends { for b in &ends {
            let mut e = ents.clone();
            e.push(Entry::Rel(a.clone(), b.clone()));
            v.push(Spec { name: None, entries: e });
        } }
    }
    v
}
fn cfg(r: &mut Rng, names: bool, k: usize) -> GenCfg {
    let (e, f, n) = match k % 12 { _ if k % 240 == 7 => (90, 3, 5), _ if k % 720 == 127 => (2, 2500, 2), _ if k % 720 == 487 => (3, 300, 4), 0 => (12, 9, 10), 1 => (9, 3, 12), 2 => (20, 5, 8), 3 => (3, 14, 10), 4 => (7, 2, 3), _ => (5, 4, 4) };
    GenCfg { max_entities: e, max_fields: f, max_rels: n, weird_names: names && r.chance(60), dup_names: r.chance(40), entity_rels: r.chance(60), self_rels: r.chance(40) }
}
pub fn generate(kind: Kind, r: &mut Rng, k: usize, en: &[Spec]) -> Input {
    let module = |r: &mut Rng, names: bool| { let c = cfg(r, names, k); gen(r, c) };
    match kind {
        Kind::Module | Kind::Names | Kind::Rels => {
            if k < en.len() { return Input::Module(en[k].clone()); }
            if kind == Kind::Rels && r.chance(60) { return Input::Module(rel_heavy(r)); }
            Input::Module(module(r, kind != Kind::Module))
        }
        Kind::Pair => {
            let a = module(r, false);
            let b = if r.chance(25) { a.clone() } else { module(r, false) };
            Input::Pair(a, b)
        }
        Kind::Geo => Input::Geo(oracle::gen_geo(r)),
        Kind::Source => { let s = if k < en.len() && k % 7 == 0 { en[k].clone() } else { module(r, true) }; let t = parsing::spell(r, &s, parsing::Style { noisy: false, escapes: true }); Input::Source(s, t) }
        Kind::Noisy => { let s = module(r, false); let t = parsing::spell(r, &s, parsing::Style { noisy: true, escapes: false }); Input::Source(s, t) }
        Kind::Front => {
            const FIRST: &[&str] = &["", "\n", "erd", "erd {}", "erd { a {} }", "erd { a { x int\n } }\n", "erd {\n a {\n", "é`", "erd { `\u{1F600}` {} } x", "\u{feff}erd { a {} }", "\u{feff}"];
            if k < FIRST.len() { return Input::Text(FIRST[k].into()); }
            let s = module(r, true); let noisy = r.chance(40); let t = parsing::spell(r, &s, parsing::Style { noisy, escapes: true });
            let mut t = if r.chance(50) { parsing::damage(r, &t) } else { t };
            const AROUND: &[&str] = &["\u{feff}", "\u{feff}\u{feff}", "\n\n\n", " ", "\t", "\r\n", "\r", "\0", "\x1a", "\u{2028}", "\u{a0}", "//", "// ", "#!/usr/bin/seiren\n", "---\n", "```\n", ";", "\u{1b}[31m", "EVCXR_END_CONTENT\n"];
            if r.chance(15) { t.insert_str(0, AROUND[r.below(AROUND.len())]); }
            if r.chance(15) { t.push_str(AROUND[r.below(AROUND.len())]); }
            if r.chance(8) { t = t.replace('\n', "\r\n"); }
            if r.chance(8) { t = t.trim().to_string(); }
            if k % 400 == 39 { t.push_str(&"\n".repeat(100_000)); }
            Input::Text(t)
        }
        Kind::Text => { let s = module(r, true); let noisy = r.chance(50); let t = parsing::spell(r, &s, parsing::Style { noisy, escapes: true }); Input::Text(if r.chance(90) { parsing::damage(r, &t) } else { t }) }
    }
}
/// Names and paths that are easily mixed up.
fn rel_heavy(r: &mut Rng) -> Spec {
    let names = ["a", "b", "a.b", "", "ab", "A", "a ", "b.a"];
    let mut entries = vec![];
    for _ in 0..3 + r.below(8) {
        if r.chance(45) {
            let fields = (0..r.below(4)).map(|_| Field { name: names[r.below(8)].into(), ty: Ty::Int, key: None }).collect();
            entries.push(Entry::Entity { name: names[r.below(8)].into(), fields });
        } else {
            let p = |r: &mut Rng| if r.chance(35) { Path::Entity(names[r.below(8)].into()) } else { Path::Field(names[r.below(8)].into(), names[r.below(8)].into()) };
            let (a, b) = (p(r), p(r));
            entries.push(Entry::Rel(a, b));
        }
    }
    Spec { name: None, entries }
}

fn smaller(i: &Input) -> Vec<Input> {
    fn specs(s: &Spec) -> Vec<Spec> {
        let mut v = vec![];
        if s.name.is_some() { v.push(Spec { name: None, entries: s.entries.clone() }); }
        for k in 0..s.entries.len() {
            let mut e = s.entries.clone(); e.remove(k); v.push(Spec { name: s.name.clone(), entries: e });
            if let Entry::Entity { name, fields } = &s.entries[k] {
                for j in 0..fields.len() {
                    let mut f = fields.clone(); f.remove(j);
                    let mut e = s.entries.clone(); e[k] = Entry::Entity { name: name.clone(), fields: f }; v.push(Spec { name: s.name.clone(), entries: e });
                }
            }
        }
        v
    }
    match i {
        Input::Module(s) => specs(s).into_iter().map(Input::Module).collect(),
        Input::Pair(a, b) => specs(a).into_iter().map(|x| Input::Pair(x, b.clone())).chain(specs(b).into_iter().map(|x| Input::Pair(a.clone(), x))).collect(),
        Input::Geo(g) => {
            let mut v = vec![];
            for h in [2i64, 10, 1000] { v.push(Input::Geo(Geo { r: g.r.map(|x| x / h), a: g.a.map(|x| x / h), b: g.b.map(|x| x / h), d: g.d })); }
            v
        }
        Input::Text(t) => { let c: Vec<char> = t.chars().collect(); let mut v = vec![];
            for n in [c.len() / 2, c.len() / 4, 8, 1] { if n == 0 { continue } let mut i = 0; while i < c.len() { let mut d = c.clone(); d.drain(i..(i + n).min(c.len())); v.push(Input::Text(d.into_iter().collect())); i += n; } } v }
        Input::Source(..) => vec![],
    }
}
fn shrink(i: Input, f: &dyn Fn(&Input) -> R) -> Input {
    let mut cur = i;
    let end = Instant::now() + Duration::from_secs(10);
    'again: loop {
        for c in smaller(&cur) {
            if Instant::now() > end { return cur; }
            if c.to_text() != cur.to_text() && crate::guard(|| f(&c)).is_err() { cur = c; continue 'again; }
        }
        return cur;
    }
}

struct Done<'a>(&'a AtomicU64);
impl Drop for Done<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::Relaxed); } }
pub struct Found { pub oracle: &'static str, pub message: String, pub input: Input }
pub struct Stats { pub evaluations: u64, pub distinct: u64, pub samples: Vec<String> }

pub fn run(p: &Prop, seed: u64, max: usize, secs: u64, known: &HashSet<String>, stuck: &(dyn Fn(Found) + Sync)) -> (Option<Found>, Stats, Vec<String>) {
    let en = enumerated();
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let hits: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    // what each thread is at, for inputs that do not finish
    let at: Vec<Mutex<Option<(Instant, &'static str, Input)>>> = (0..8).map(|_| Mutex::new(None)).collect();
    let running = AtomicU64::new(8);
    std::thread::scope(|sc| {
        sc.spawn(|| while running.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for a in &at {
                let a = a.lock().unwrap().clone();
                if let Some((since, oracle, input)) = a { if since.elapsed().as_secs() >= 45 { stuck(Found { oracle, message: "does not finish within 45 s".into(), input }); } }
            }
        });
        for me in &at {
            let (stop, done, next, found, hits, distinct, samples, running, en) = (&stop, &done, &next, &found, &hits, &distinct, &samples, &running, &en);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let _done = Done(running);
                while !stop.load(Ordering::Relaxed) {
                    let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if k >= max || start.elapsed().as_secs() >= secs { break; }
                    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1).wrapping_add((k as u64).wrapping_mul(0x5851_F42D_4C95_7F2D)));
                    let i = generate(p.kind, &mut r, k, en);
                    for (name, f) in p.oracles {
                        done.fetch_add(1, Ordering::Relaxed);
                        *me.lock().unwrap() = Some((Instant::now(), *name, i.clone()));
                        let result = crate::guard(|| f(&i));
                        *me.lock().unwrap() = None;
                        if let Err(m) = result {
                            if known.contains(&i.to_text()) { hits.lock().unwrap().insert(i.to_text()); continue; }
                            let mut g = found.lock().unwrap();
                            if g.is_none() { *g = Some(Found { oracle: name, message: m, input: i.clone() }); }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    if i.nontrivial() {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        i.to_text().hash(&mut h);
                        distinct.lock().unwrap().insert(h.finish());
                        if k % 997 == 0 { let mut s = samples.lock().unwrap(); if s.len() < 3 { s.push(i.pretty()); } }
                    }
                }
            }).unwrap();
        }
    });
    let mut found = found.into_inner().unwrap();
    if let Some(f) = &mut found {
        let g = p.oracles.iter().find(|o| o.0 == f.oracle).unwrap().1;
        f.input = shrink(f.input.clone(), &|i| g(i));
        if let Err(m) = crate::guard(|| g(&f.input)) { f.message = m; }
    }
    (found, Stats { evaluations: done.into_inner(), distinct: distinct.into_inner().unwrap().len() as u64, samples: samples.into_inner().unwrap() }, hits.into_inner().unwrap().into_iter().collect())
}

fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"_{}()-".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
fn dec(s: &str) -> String {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } else { o.push(b[i]); i += 1 } }
    String::from_utf8_lossy(&o).into_owned()
}
