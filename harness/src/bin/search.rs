//! search PROPERTY SEED MAX SECONDS REPLAY_OUT [KNOWN_DIR] | replay FILE
use seiren_harness::search::*;
use std::collections::HashSet;
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string())).unwrap_or_default();
        let p = PROPS.iter().find(|p| p.id == get("property")).expect("property");
        let i = Input::from_text(&t).expect("input");
        let (name, f) = p.oracles.iter().find(|o| o.0 == get("oracle")).expect("oracle");
        match seiren_harness::guard(|| f(&i)) {
            Ok(()) => println!("{} {}: holds on this input", p.id, name),
            Err(m) => { println!("{} {}: FAILS: {}", p.id, name, m); std::process::exit(1) }
        }
        return;
    }
    let p = PROPS.iter().find(|p| p.id == a[1]).expect("property");
    let (seed, max, secs) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut known = HashSet::new();
    if let Some(d) = a.get(6) {
        for f in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if let Ok(t) = std::fs::read_to_string(f.path()) { if let Some(i) = Input::from_text(&t) { known.insert(i.to_text()); } }
        }
    }
    let tell = |found: Option<&Found>, st: &Stats, hits: usize| {
        println!("{{\"evaluations\": {}, \"distinct\": {}, \"known_hits\": {}, \"samples\": [{}], \"found\": {}}}", st.evaluations, st.distinct, hits,
            st.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), found.map_or("null".into(), |f| js(&f.message)));
        if let Some(f) = found {
            std::fs::write(&a[5], format!("property {}\noracle {}\nmessage {}\n{}", p.id, f.oracle, f.message.replace('\n', "\n  "), f.input.to_text())).unwrap();
            std::process::exit(1);
        }
    };
    let stuck = |f: Found| tell(Some(&f), &Stats { evaluations: 0, distinct: 0, samples: vec![] }, 0);
    let (found, st, hits) = run(p, seed, max, secs, &known, &stuck);
    tell(found.as_ref(), &st, hits.len());
}
