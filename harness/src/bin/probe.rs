use seiren_harness::*;
use seiren_harness::spec::*;
use std::collections::BTreeMap;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let n: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(2000);
    let weird = std::env::args().nth(2).as_deref() == Some("weird");
    let tests: Vec<(&str, fn(&Spec) -> oracle::R)> = vec![
        ("model_rows", oracle::model_rows), ("model_edges", oracle::model_edges), ("place_boxes", oracle::place_boxes), ("place_view", oracle::place_view),
        ("ports", oracle::ports), ("route_ends", oracle::route_ends), ("route_ortho", oracle::route_ortho), ("route_noturn", oracle::route_noturn),
        ("route_clear", oracle::route_clear), ("svg_texts", oracle::svg_texts), ("svg_shapes", oracle::svg_shapes), ("total", oracle::total), ("det", oracle::deterministic)];
    let arg = |i: usize, d: usize| std::env::args().nth(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (be, bf, br) = (arg(3, 12), arg(4, 9), arg(5, 10));
    let mut r = Rng(arg(6, 1) as u64);
    let mut bad: BTreeMap<(&str, String), (usize, Spec)> = BTreeMap::new();
    let mut prev = Spec::default();
    for k in 0..n {
        let big = k % 10 == 0;
        let c = GenCfg { max_entities: if big { be } else { 5 }, max_fields: if big { bf } else { 4 }, max_rels: if big { br } else { 4 }, weird_names: weird, dup_names: true, entity_rels: true, self_rels: k % 3 == 0 };
        let s = gen(&mut r, c);
        for (t, f) in &tests {
            if let Err(m) = guard(|| f(&s)) {
                let key: String = m.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
                let e = bad.entry((t, key)).or_insert((0, s.clone()));
                e.0 += 1;
                if s.to_text().len() < e.1.to_text().len() { e.1 = s.clone(); }
            }
        }
        if let Err(m) = guard(|| oracle::engine_history(&prev, &s)) {
            let key: String = m.chars().filter(|c| !c.is_ascii_digit()).take(20).collect();
            bad.entry(("history", key)).or_insert((0, s.clone())).0 += 1;
        }
        prev = s;
    }
    for ((t, m), (c, s)) in &bad { println!("== {} {} x{}\n{}", t, m, c, s.to_text()); 
        if let Some((_, f)) = tests.iter().find(|x| x.0 == *t) { println!("   {:?}", guard(|| f(s)).err()); } }
}
