//! Parser of unit files.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub name: String,            // "Type::name" or "name"
    pub file: String,            // source module
    pub props: Vec<String>,
    pub mode: String,            // "" | "stub" | "mut_iter"
    pub spec: String,            // requires/ensures
    pub start: String,
    pub end: String,
    pub ret: String,             // name of the return value
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, String>,
    pub closure_types: BTreeMap<usize, Vec<String>>,
    pub lets: BTreeMap<String, String>,
    pub before: BTreeMap<(String, usize), String>,
    pub after: BTreeMap<(String, usize), String>,
    pub attrs: String,
    pub import: bool,
    pub front: bool,             // a front end, see rw.rs
    pub sliced: bool,            // each assertion after a let is checked in a copy of the function, the others assumed there
}
#[derive(Debug, Clone, Default)]
pub struct LoopSpec { pub head: String, pub start: String, pub end: String, pub before: String, pub after: String }

#[derive(Debug, Clone)]
pub enum Item {
    Verbatim(String),
    Struct { file: String, name: String, clone: bool, opts: Vec<String> },
    Type { file: String, name: String },
    Const { name: String, spec: String },
    Fn(FnSpec),
}

#[derive(Debug, Clone, Default)]
pub struct Unit { pub name: String, pub files: Vec<(String, bool)>, pub items: Vec<Item>, pub literals: Option<Vec<String>> }

pub fn parse(path: &str) -> Result<Unit, String> {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let mut u = Unit::default();
    let mut file = String::new();
    enum Slot { None, Verb, Spec, Start, End, LoopHead(usize), LoopStart(usize), LoopEnd(usize), LoopBefore(usize), LoopAfter(usize), Closure(usize), Let(String), Before(String, usize), After(String, usize) }
    let mut slot = Slot::None;
    let mut cur: Option<FnSpec> = None;
    fn flush(u: &mut Unit, cur: &mut Option<FnSpec>) { if let Some(f) = cur.take() { u.items.push(Item::Fn(f)); } }
    let mut lines: Vec<(String, usize, bool)> = vec![];
    // %import: as %include, but its functions are verified by another unit and only their contracts are used here
    fn load(dir: &std::path::Path, text: &str, import: bool, lines: &mut Vec<(String, usize, bool)>, files: &mut Vec<(String, bool)>) -> Result<(), String> {
        for (i, l) in text.lines().enumerate() {
            let inc = l.strip_prefix("%include ").map(|p| (p, import)).or(l.strip_prefix("%import ").map(|p| (p, true)));
            if let Some((p, imp)) = inc {
                let q = dir.join(p.trim());
                let t = std::fs::read_to_string(&q).map_err(|e| format!("{}: {}", q.display(), e))?;
                files.push((p.trim().to_string(), imp));
                load(dir, &t, imp, lines, files)?;
            } else { lines.push((l.to_string(), i + 1, import)); }
        }
        Ok(())
    }
    let mut files = vec![];
    load(&dir, &text, false, &mut lines, &mut files)?;
    u.files = files;
    for (l, no, import) in lines {
        let err = |m: &str| Err(format!("{}:{}: {}: {}", path, no, m, l));
        if let Some(rest) = l.strip_prefix('%') {
            let w: Vec<&str> = rest.split_whitespace().collect();
            if w.is_empty() { return err("empty directive"); }
            match w[0] {
                "#" => {}
                "unit" => u.name = w[1].into(),
                "literals" => u.literals = Some(w[1..].iter().map(|s| s.to_string()).collect()),
                "file" => { flush(&mut u, &mut cur); file = w[1].into(); slot = Slot::None }
                "struct" | "enum" => {
                    flush(&mut u, &mut cur);
                    u.items.push(Item::Struct { file: file.clone(), name: w[1].into(), clone: w[2..].contains(&"clone"), opts: w[2..].iter().map(|s| s.to_string()).collect() });
                    slot = Slot::None;
                }
                "const" => { flush(&mut u, &mut cur); u.items.push(Item::Const { name: w[1].into(), spec: w[2].into() }); slot = Slot::None; }
                "type" => { flush(&mut u, &mut cur); u.items.push(Item::Type { file: file.clone(), name: w[1].into() }); slot = Slot::None; }
                "verbatim" => { flush(&mut u, &mut cur); u.items.push(Item::Verbatim(String::new())); slot = Slot::Verb; }
                "fn" | "stub" | "mutiter" => {
                    flush(&mut u, &mut cur);
                    let mut f = FnSpec { name: w[1].into(), file: file.clone(), ret: "r".into(), ..Default::default() };
                    if w[0] != "fn" { f.mode = w[0].into(); }
                    f.import = import;
                    for p in &w[2..] {
                        if let Some(r) = p.strip_prefix("ret=") { f.ret = r.into(); }
                        else if let Some(a) = p.strip_prefix("attr=") { f.attrs += &format!("#[{}] ", a); }
                        else if *p == "front" { f.front = true; }
                        else if *p == "sliced" { f.sliced = true; }
                        else { f.props.push(p.to_string()); }
                    }
                    cur = Some(f);
                    slot = Slot::Spec;
                }
                "start" => slot = Slot::Start,
                "end" => slot = Slot::End,
                "loop" => {
                    let k: usize = w[1].parse().map_err(|_| format!("{}:{}: bad loop number", path, no))?;
                    slot = match w.get(2).copied() {
                        None => Slot::LoopHead(k), Some("start") => Slot::LoopStart(k), Some("end") => Slot::LoopEnd(k),
                        Some("before") => Slot::LoopBefore(k), Some("after") => Slot::LoopAfter(k), _ => return err("bad loop slot"),
                    };
                }
                // %closure K [: T1; T2; ..]   the parameter types, where they have to be spelled out
                "closure" => {
                    let k: usize = w[1].parse().unwrap();
                    if let (Some(f), Some((_, t))) = (cur.as_mut(), rest.split_once(':')) { f.closure_types.insert(k, t.split(';').map(|x| x.trim().to_string()).collect()); }
                    slot = Slot::Closure(k)
                }
                "let" => slot = Slot::Let(w[1].into()),
                "before" | "after" => {
                    let k = w.get(2).map_or(1, |x| x.parse().unwrap());
                    slot = if w[0] == "before" { Slot::Before(w[1].into(), k) } else { Slot::After(w[1].into(), k) };
                }
                _ => return err("unknown directive"),
            }
            continue;
        }
        let add = |s: &mut String| { s.push_str(&l); s.push('\n'); };
        match &slot {
            Slot::None => { if !l.trim().is_empty() { return err("text outside of a slot"); } }
            // lemmas of an imported file are proved by the unit that includes it
            Slot::Verb => { if let Some(Item::Verbatim(v)) = u.items.last_mut() {
                let t = l.trim_start();
                if import && ["pub proof fn", "proof fn", "pub broadcast proof fn", "broadcast proof fn"].iter().any(|p| t.starts_with(p)) { v.push_str("#[verifier::external_body]\n"); }
                add(v)
            } }
            s => {
                let f = cur.as_mut().ok_or("no function")?;
                match s {
                    Slot::Spec => add(&mut f.spec),
                    Slot::Start => add(&mut f.start),
                    Slot::End => add(&mut f.end),
                    Slot::LoopHead(k) => add(&mut f.loops.entry(*k).or_default().head),
                    Slot::LoopStart(k) => add(&mut f.loops.entry(*k).or_default().start),
                    Slot::LoopEnd(k) => add(&mut f.loops.entry(*k).or_default().end),
                    Slot::LoopBefore(k) => add(&mut f.loops.entry(*k).or_default().before),
                    Slot::LoopAfter(k) => add(&mut f.loops.entry(*k).or_default().after),
                    Slot::Closure(k) => add(f.closures.entry(*k).or_default()),
                    Slot::Let(n) => add(f.lets.entry(n.clone()).or_default()),
                    Slot::Before(n, k) => add(f.before.entry((n.clone(), *k)).or_default()),
                    Slot::After(n, k) => add(f.after.entry((n.clone(), *k)).or_default()),
                    _ => {}
                }
            }
        }
    }
    flush(&mut u, &mut cur);
    Ok(u)
}
