//! Executable forms of the properties, run against the real crate.
use crate::spec::*;
use crate::xml;
use seiren::geometry::{Orientation, Point, Rect};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{Document, NodeData, NodeId, ShapeKind};
use seiren::renderer::{Renderer, SVGRenderer};
use std::collections::HashSet;

pub type R = Result<(), String>;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

pub fn build(s: &Spec) -> Document { s.to_module().into_mir() }

pub struct Laid { pub doc: Document, pub view: Option<Rect> }
pub fn lay_with(engine: &mut SimpleLayoutEngine, s: &Spec) -> Laid {
    let mut doc = build(s);
    let view = engine.place_nodes(&mut doc);
    engine.place_terminal_ports(&mut doc);
    engine.draw_edge_path(&mut doc);
    Laid { doc, view }
}
pub fn lay(s: &Spec) -> Laid { lay_with(&mut SimpleLayoutEngine::new(), s) }
pub fn place(s: &Spec) -> Laid {
    let mut doc = build(s);
    let mut e = SimpleLayoutEngine::new();
    let view = e.place_nodes(&mut doc);
    Laid { doc, view }
}
pub fn svg_of(l: &Laid) -> Result<String, String> {
    let mut b = SVGRenderer::new();
    b.view_box = l.view;
    let mut bytes = vec![];
    b.render(&l.doc, &mut bytes).map_err(|e| e.to_string())?;
    String::from_utf8(bytes).map_err(|e| e.to_string())
}

fn records(doc: &Document) -> Vec<(NodeId, &NodeData)> {
    doc.body().children().map(|i| (i, doc.get_node(i).unwrap())).collect()
}
fn rows<'a>(doc: &'a Document, n: &NodeData) -> Vec<(NodeId, &'a NodeData)> {
    n.children().map(|i| (i, doc.get_node(i).unwrap())).collect()
}

// ---------------------------------------------------------------- model
pub fn model_rows(s: &Spec) -> R {
    let doc = build(s);
    let recs = records(&doc);
    let ents = s.entities();
    ensure!(recs.len() == ents.len(), "{} tables for {} entities", recs.len(), ents.len());
    let mut ids = HashSet::new();
    for (k, (id, rec)) in recs.iter().enumerate() {
        ensure!(matches!(rec.kind(), ShapeKind::Record(_)), "child {} of the body is not a table", k);
        ensure!(ids.insert(*id), "table node {} used twice", id);
        let rs = rows(&doc, rec);
        ensure!(rs.len() == ents[k].1.len() + 1, "table {} has {} rows for {} fields", k, rs.len(), ents[k].1.len());
        for (j, (rid, row)) in rs.iter().enumerate() {
            ensure!(ids.insert(*rid), "row node {} used twice", rid);
            ensure!(row.children().len() == 0, "row has children");
            let ShapeKind::Field(f) = row.kind() else { return Err(format!("row {}.{} is not a field", k, j)) };
            if j == 0 {
                ensure!(f.title.text == *ents[k].0, "header {:?} for entity {:?}", f.title.text, ents[k].0);
                ensure!(f.subtitle.is_none() && f.badge.is_none(), "header row {} carries a type or badge", k);
            } else {
                let e = &ents[k].1[j - 1];
                ensure!(f.title.text == e.name, "row {}.{} titled {:?} for {:?}", k, j, f.title.text, e.name);
                ensure!(f.subtitle.as_ref().map(|t| t.text.as_str()) == Some(ty_text(e.ty)),
                    "row {}.{} shows type {:?} for {}", k, j, f.subtitle.as_ref().map(|t| t.text.clone()), ty_text(e.ty));
                ensure!(f.badge.as_ref().map(|t| t.text.as_str()) == e.key.map(key_text),
                    "row {}.{} shows badge {:?} for {:?}", k, j, f.badge.as_ref().map(|t| t.text.clone()), e.key);
            }
        }
    }
    Ok(())
}

fn locate(doc: &Document, id: NodeId) -> Option<(usize, Option<usize>)> {
    for (k, (rid, rec)) in records(doc).into_iter().enumerate() {
        if rid == id { return Some((k, None)); }
        if let Some(j) = rec.children().position(|c| c == id) { return Some((k, Some(j))); }
    }
    None
}
pub fn model_edges(s: &Spec) -> R {
    let doc = build(s);
    let want = s.expected_edges();
    let got: Vec<_> = doc.edges().map(|e| (locate(&doc, e.source_id()), locate(&doc, e.target_id()))).collect();
    ensure!(got.len() == want.len(), "{} edges, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g.0 == Some(w.0) && g.1 == Some(w.1), "edge {} joins {:?}, expected {:?}", i, g, w);
    }
    for (i, id) in doc.edge_ids().enumerate() {
        let e = doc.edge(id).unwrap();
        ensure!(doc.edge_endpoints(id) == Some((e.source_id(), e.target_id())), "edge {} endpoints disagree", i);
        ensure!(e.path_points().is_none(), "edge {} has a path before layout", i);
    }
    Ok(())
}

// ---------------------------------------------------------------- placement
pub fn rects(doc: &Document) -> Result<Vec<(Rect, Vec<Rect>)>, String> {
    let mut v = vec![];
    for (k, (_, rec)) in records(doc).into_iter().enumerate() {
        let r = rec.rect().ok_or(format!("table {} has no place", k))?;
        let mut fs = vec![];
        for (j, (_, f)) in rows(doc, rec).into_iter().enumerate() {
            fs.push(f.rect().ok_or(format!("row {}.{} has no place", k, j))?);
        }
        v.push((r, fs));
    }
    Ok(v)
}
pub fn place_boxes(s: &Spec) -> R {
    let l = place(s);
    let v = rects(&l.doc)?;
    for (k, (r, fs)) in v.iter().enumerate() {
        ensure!([r.origin.x, r.origin.y, r.size.width, r.size.height].iter().all(|z| z.is_finite()), "table {} at {:?}", k, r);
        ensure!(r.size.width > 0.0 && r.size.height > 0.0, "table {} is empty: {:?}", k, r);
        ensure!(!fs.is_empty(), "table {} has no rows", k);
        let mut y = r.min_y();
        for (j, f) in fs.iter().enumerate() {
            ensure!(f.min_x() == r.min_x() && f.width() == r.width(), "row {}.{} {:?} not as wide as its table {:?}", k, j, f, r);
            ensure!(f.min_y() == y, "row {}.{} starts at {} instead of {}", k, j, f.min_y(), y);
            ensure!(f.height() == fs[0].height() && f.height() > 0.0, "row {}.{} has height {}", k, j, f.height());
            y = f.max_y();
        }
        ensure!(y == r.max_y(), "rows of table {} end at {} and the table at {}", k, y, r.max_y());
    }
    for a in 0..v.len() {
        for b in a + 1..v.len() {
            let (p, q) = (v[a].0, v[b].0);
            let gx = (q.min_x() - p.max_x()).max(p.min_x() - q.max_x());
            let gy = (q.min_y() - p.max_y()).max(p.min_y() - q.max_y());
            ensure!(gx >= 80.0 || gy >= 80.0, "tables {} {:?} and {} {:?} are closer than 80", a, p, b, q);
            // reading order: three per row
            if a / 3 == b / 3 {
                ensure!(p.min_y() == q.min_y() && gx >= 80.0 && p.max_x() < q.min_x(), "tables {} and {} not side by side in order", a, b);
            } else {
                ensure!(p.max_y() + 80.0 <= q.min_y(), "table {} not below table {}", b, a);
            }
            if a % 3 == b % 3 { ensure!(p.min_x() == q.min_x(), "tables {} and {} not in one column", a, b); }
        }
    }
    Ok(())
}
pub fn place_view(s: &Spec) -> R {
    let l = place(s);
    let v = l.view.ok_or("no view box")?;
    ensure!([v.origin.x, v.origin.y, v.size.width, v.size.height].iter().all(|z| z.is_finite()), "view box {:?}", v);
    ensure!(v.width() > 0.0 && v.height() > 0.0, "view box {:?} has no area", v);
    for (k, (r, _)) in rects(&l.doc)?.iter().enumerate() {
        ensure!(r.min_x() - v.min_x() >= 50.0 && r.min_y() - v.min_y() >= 50.0 && v.max_x() - r.max_x() >= 50.0 && v.max_y() - r.max_y() >= 50.0,
            "table {} {:?} has no margin of 50 in the view box {:?}", k, r, v);
    }
    Ok(())
}

// ---------------------------------------------------------------- ports
pub fn ports(s: &Spec) -> R {
    let mut doc = build(s);
    let mut e = SimpleLayoutEngine::new();
    e.place_nodes(&mut doc);
    e.place_terminal_ports(&mut doc);
    use Orientation::*;
    let mut ids = HashSet::new();
    let mut check = |what: String, id: NodeId, n: &NodeData, want: &[Orientation]| -> R {
        let r = n.rect().ok_or(format!("{} has no place", what))?;
        ensure!(n.terminal_ports().len() == want.len(), "{} has {} ports, expected {}", what, n.terminal_ports().len(), want.len());
        let mut seen = HashSet::new();
        for (i, p) in n.terminal_ports().enumerate() {
            ensure!(p.id().to_string() == format!("{}:{}", id, i), "port {} of {} has id {}", i, what, p.id());
            ensure!(ids.insert(p.id()), "duplicate port id {}", p.id());
            ensure!(seen.insert(p.orientation()), "{} has two ports facing {}", what, p.orientation());
            ensure!(want.contains(&p.orientation()), "{} has a port facing {}", what, p.orientation());
            let at = match p.orientation() {
                Up => Point::new(r.mid_x(), r.min_y()), Down => Point::new(r.mid_x(), r.max_y()),
                Left => Point::new(r.min_x(), r.mid_y()), Right => Point::new(r.max_x(), r.mid_y()),
            };
            ensure!(*p.location() == at, "port facing {} of {} is at {} instead of {}", p.orientation(), what, p.location(), at);
        }
        Ok(())
    };
    for (k, (id, rec)) in records(&doc).into_iter().enumerate() {
        check(format!("table {}", k), id, rec, &[Up, Right, Down, Left])?;
        let rs = rows(&doc, rec);
        let n = rs.len();
        for (j, (fid, f)) in rs.into_iter().enumerate() {
            let mut want = vec![Left, Right];
            if j == 0 { want.push(Up) }
            if j == n - 1 { want.push(Down) }
            check(format!("row {}.{}", k, j), fid, f, &want)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- routes
fn dir(p: &Point, q: &Point) -> Result<Orientation, String> {
    let (dx, dy) = (q.x - p.x, q.y - p.y);
    if dx == 0.0 && dy < 0.0 { Ok(Orientation::Up) } else if dx == 0.0 && dy > 0.0 { Ok(Orientation::Down) }
    else if dy == 0.0 && dx < 0.0 { Ok(Orientation::Left) } else if dy == 0.0 && dx > 0.0 { Ok(Orientation::Right) }
    else { Err(format!("segment {} -> {} is not horizontal or vertical", p, q)) }
}
fn opposite(o: Orientation) -> Orientation {
    match o { Orientation::Up => Orientation::Down, Orientation::Down => Orientation::Up, Orientation::Left => Orientation::Right, Orientation::Right => Orientation::Left }
}
pub fn route_ends(s: &Spec) -> R { route_ends_l(&lay(s)) }
pub fn route_ends_l(l: &Laid) -> R {
    for (i, e) in l.doc.edges().enumerate() {
        let p = e.path_points().ok_or(format!("relation {} has no route", i))?;
        ensure!(!p.is_empty(), "relation {} has an empty route", i);
        let a = l.doc.get_node(e.source_id()).unwrap();
        let b = l.doc.get_node(e.target_id()).unwrap();
        ensure!(a.terminal_ports().any(|t| *t.location() == p[0]), "route {} starts at {}, not a port of its source", i, p[0]);
        ensure!(b.terminal_ports().any(|t| t.location() == p.last().unwrap()), "route {} ends at {}, not a port of its target", i, p.last().unwrap());
    }
    Ok(())
}
pub fn route_ortho(s: &Spec) -> R { route_ortho_l(&lay(s)) }
pub fn route_ortho_l(l: &Laid) -> R {
    for (i, e) in l.doc.edges().enumerate() {
        let Some(p) = e.path_points() else { continue };
        if p.len() < 2 { continue }
        let ds: Vec<Orientation> = p.windows(2).map(|w| dir(&w[0], &w[1])).collect::<Result<_, _>>().map_err(|m| format!("route {}: {}", i, m))?;
        let a = l.doc.get_node(e.source_id()).unwrap();
        let b = l.doc.get_node(e.target_id()).unwrap();
        ensure!(a.terminal_ports().any(|t| *t.location() == p[0] && t.orientation() == ds[0]), "route {} leaves {} heading {}", i, p[0], ds[0]);
        ensure!(b.terminal_ports().any(|t| t.location() == p.last().unwrap() && t.orientation() == opposite(*ds.last().unwrap())), "route {} arrives at {} heading {}", i, p.last().unwrap(), ds.last().unwrap());
    }
    Ok(())
}
pub fn route_noturn(s: &Spec) -> R { route_noturn_l(&lay(s)) }
pub fn route_noturn_l(l: &Laid) -> R {
    for (i, e) in l.doc.edges().enumerate() {
        let Some(p) = e.path_points() else { continue };
        for w in p.windows(3) {
            let (d1, d2) = (dir(&w[0], &w[1])?, dir(&w[1], &w[2])?);
            ensure!(d1 != opposite(d2), "route {} doubles back at {}: {:?}", i, w[1], p);
        }
    }
    Ok(())
}
pub fn route_clear(s: &Spec) -> R { route_clear_l(&lay(s)) }
pub fn route_clear_l(l: &Laid) -> R {
    let v = rects(&l.doc)?;
    for (i, e) in l.doc.edges().enumerate() {
        let Some(p) = e.path_points() else { continue };
        for w in p.windows(2) {
            let (x0, x1) = (w[0].x.min(w[1].x), w[0].x.max(w[1].x));
            let (y0, y1) = (w[0].y.min(w[1].y), w[0].y.max(w[1].y));
            for (k, (r, _)) in v.iter().enumerate() {
                // one unit of tolerance: deeper than that inside the table
                ensure!(!(x1 >= r.min_x() + 1.0 && x0 <= r.max_x() - 1.0 && y1 >= r.min_y() + 1.0 && y0 <= r.max_y() - 1.0),
                    "route {} passes through table {}: {} -> {} crosses {:?}", i, k, w[0], w[1], r);
            }
        }
    }
    Ok(())
}
pub fn dump(l: &Laid) -> String {
    let mut s = format!("{:?}\n", l.view);
    for e in l.doc.edges() { s += &format!("{}-{} {:?}\n", e.source_id(), e.target_id(), e.path_points()); }
    for (r, fs) in rects(&l.doc).unwrap_or_default() { s += &format!("{:?} {:?}\n", r, fs); }
    s
}
/// An engine that has laid out `before` gives the same result for `s` as a fresh one.
pub fn engine_history(before: &Spec, s: &Spec) -> R {
    let mut e = SimpleLayoutEngine::new();
    lay_with(&mut e, before);
    let a = dump(&lay_with(&mut e, s));
    let b = dump(&lay(s));
    ensure!(a == b, "used engine:\n{}fresh engine:\n{}", a, b);
    Ok(())
}

// ---------------------------------------------------------------- rendering
pub fn clean(s: &str) -> String { s.chars().map(|c| if xml::is_xml_char(c) { c } else { '\u{FFFD}' }).collect() }
fn unframe(s: &str) -> String {
    // the writer puts text on a line of its own
    s.strip_prefix('\n').and_then(|x| x.strip_suffix('\n')).unwrap_or(s).to_string()
}
pub fn svg_texts(s: &Spec) -> R {
    let l = lay(s);
    let svg = svg_of(&l)?;
    let x = xml::parse(&svg).map_err(|m| format!("output is not well-formed XML: {}", m))?;
    let mut want = vec![];
    for (n, fs) in s.entities() {
        want.push(clean(n));
        for f in fs {
            want.push(clean(&f.name));
            want.push(ty_text(f.ty).to_string());
            if let Some(k) = f.key { want.push(key_text(k).to_string()); }
        }
    }
    let got: Vec<String> = x.els().filter(|e| e.name == "text").map(|e| unframe(&e.text())).collect();
    ensure!(got == want, "texts {:?}, expected {:?}", got, want);
    Ok(())
}

fn near(a: Option<f32>, b: f32) -> bool { a == Some(b) }
pub fn svg_shapes(s: &Spec) -> R {
    let l = lay(s);
    let svg = svg_of(&l)?;
    let x = xml::parse(&svg).map_err(|m| format!("output is not well-formed XML: {}", m))?;
    ensure!(x.name == "svg", "root is {}", x.name);
    let v = l.view.unwrap();
    let vb: Vec<f32> = x.a("viewBox").split(',').filter_map(|t| t.trim().parse().ok()).collect();
    ensure!(vb == vec![v.min_x(), v.min_y(), v.width(), v.height()], "viewBox {:?} for {:?}", x.a("viewBox"), v);
    let es: Vec<&xml::El> = x.els().collect();
    let boxes = rects(&l.doc)?;
    let ents = s.entities();
    let rect_is = |e: &xml::El, r: &Rect| e.name == "rect" && near(e.f("x"), r.min_x()) && near(e.f("y"), r.min_y()) && near(e.f("width"), r.width()) && near(e.f("height"), r.height());
    // background, defs
    ensure!(es.len() >= 2 && es[0].name == "rect" && es[0].a("width") == "100%" && es[0].a("height") == "100%", "no background");
    ensure!(es[1].name == "defs", "no defs");
    let clips: Vec<&xml::El> = es[1].els().collect();
    ensure!(clips.len() == boxes.len(), "{} clip paths for {} tables", clips.len(), boxes.len());
    let mut ids = HashSet::new();
    for (k, c) in clips.iter().enumerate() {
        ensure!(c.name == "clipPath" && ids.insert(c.a("id").to_string()), "clip path {} has a duplicate id", k);
        let inner: Vec<_> = c.els().collect();
        ensure!(inner.len() == 1 && rect_is(inner[0], &boxes[k].0), "clip path {} does not match its table", k);
    }
    let mut i = 2;
    for (k, (r, fs)) in boxes.iter().enumerate() {
        ensure!(i < es.len() && rect_is(es[i], r), "table {} not drawn at {:?}", k, r);
        i += 1;
        for (j, f) in fs.iter().enumerate() {
            if j == 0 {
                ensure!(i < es.len() && rect_is(es[i], f) && es[i].a("clip-path") == format!("url(#{})", clips[k].a("id")), "header {} background", k);
                i += 1;
            } else {
                let e = es.get(i).ok_or("missing separator")?;
                ensure!(e.name == "line" && near(e.f("x1"), f.min_x()) && near(e.f("x2"), f.max_x()) && near(e.f("y1"), f.min_y()) && near(e.f("y2"), f.min_y()), "separator above row {}.{}", k, j);
                i += 1;
            }
            let mut text = |anchor: &str| -> Result<f32, String> {
                let e = es.get(i).ok_or("missing text")?;
                ensure_f(e.name == "text" && e.a("text-anchor") == anchor && near(e.f("y"), f.mid_y()), format!("text of row {}.{}: {:?}", k, j, e))?;
                let px = e.f("x").ok_or("no x")?;
                ensure_f(px > f.min_x() && px < f.max_x(), format!("text of row {}.{} is outside the row", k, j))?;
                i += 1;
                Ok(px)
            };
            let tx = text("start")?;
            if j > 0 {
                let sx = text("end")?;
                ensure!(sx > tx, "type left of the name in row {}.{}", k, j);
                if ents[k].1[j - 1].key.is_some() {
                    let e = es.get(i).ok_or("missing badge")?;
                    let (cx, cy, rr) = (e.f("cx").unwrap_or(f32::NAN), e.f("cy").unwrap_or(f32::NAN), e.f("r").unwrap_or(f32::NAN));
                    ensure!(e.name == "circle" && cy == f.mid_y() && rr > 0.0 && cx - rr > sx && cx + rr < f.max_x() && cy - rr > f.min_y() && cy + rr < f.max_y(),
                        "badge of row {}.{} not inside the row: {:?}", k, j, e);
                    i += 1;
                    let e = es.get(i).ok_or("missing badge text")?;
                    ensure!(e.name == "text" && e.a("text-anchor") == "middle" && near(e.f("x"), cx) && near(e.f("y"), cy), "badge text of row {}.{}", k, j);
                    i += 1;
                }
            }
        }
    }
    for (n, e) in l.doc.edges().enumerate() {
        let pts = e.path_points().ok_or("no route")?;
        ensure!(i + 3 <= es.len(), "relation {} is not drawn", n);
        path_matches(es[i].a("d"), pts).map_err(|m| format!("relation {}: {}", n, m))?;
        ensure!(es[i].name == "path", "relation {}: no path", n);
        for (c, p) in [(es[i + 1], pts[0]), (es[i + 2], *pts.last().unwrap())] {
            ensure!(c.name == "circle" && near(c.f("cx"), p.x) && near(c.f("cy"), p.y), "relation {}: no dot at {}", n, p);
        }
        i += 3;
    }
    ensure!(i == es.len(), "{} extra elements", es.len() - i);
    Ok(())
}
fn ensure_f(c: bool, m: String) -> R { if c { Ok(()) } else { Err(m) } }

/// The path data runs from the first to the last point through every bend, corners rounded.
pub fn path_matches(d: &str, pts: &[Point]) -> R {
    let mut cmds: Vec<(char, Vec<f32>)> = vec![];
    for t in d.split(' ') {
        let c = t.chars().next().ok_or("empty token")?;
        if c.is_ascii_alphabetic() { cmds.push((c, vec![])); }
        let n = if c.is_ascii_alphabetic() { &t[1..] } else { t };
        cmds.last_mut().ok_or("no command")?.1.push(n.parse().map_err(|_| format!("bad number {:?}", t))?);
    }
    let mut want: Vec<(char, Vec<f32>)> = vec![];
    let rad = 6.0;
    for i in 0..pts.len() {
        let p = pts[i];
        if i == 0 { want.push(('M', vec![p.x, p.y])); continue; }
        if i == pts.len() - 1 { want.push(('L', vec![p.x, p.y])); continue; }
        let (d1, d2) = (dir(&pts[i - 1], &p)?, dir(&p, &pts[i + 1])?);
        if d1 == d2 { want.push(('L', vec![p.x, p.y])); continue; }
        let step = |o: Orientation, s: f32| match o {
            Orientation::Up => (0.0, -s), Orientation::Down => (0.0, s), Orientation::Left => (-s, 0.0), Orientation::Right => (s, 0.0) };
        let (ax, ay) = step(d1, -rad);
        let (bx, by) = step(d2, rad);
        want.push(('L', vec![p.x + ax, p.y + ay]));
        want.push(('Q', vec![p.x, p.y, p.x + bx, p.y + by]));
    }
    ensure!(cmds == want, "path {:?} for points {:?}", d, pts);
    Ok(())
}
/// The whole pipeline completes.
pub fn total(s: &Spec) -> R { svg_of(&lay(s)).map(|_| ()) }
pub fn deterministic(s: &Spec) -> R {
    let a = svg_of(&lay(s))?;
    let b = svg_of(&lay(s))?;
    ensure!(a == b, "two runs differ");
    Ok(())
}

// ---------------------------------------------------------------- cheapest routes
fn step_cost(p: &Point, q: &Point) -> u64 { (((p.x - q.x) as f64).hypot((p.y - q.y) as f64)).floor() as u64 }
pub fn route_cheapest(s: &Spec) -> R {
    let mut e = SimpleLayoutEngine::new();
    let l = lay_with(&mut e, s);
    let g = e.edge_route_graph();
    let ids: Vec<_> = g.node_ids().collect();
    let at: Vec<Point> = ids.iter().map(|i| *g.get_node(*i).unwrap().location()).collect();
    let idx: std::collections::HashMap<_, _> = ids.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let mut adj: Vec<Vec<(usize, u64)>> = vec![vec![]; ids.len()];
    for ed in g.edges() {
        let (a, b) = (idx[&ed.source_id()], idx[&ed.target_id()]);
        let c = step_cost(&at[a], &at[b]);
        adj[a].push((b, c));
        adj[b].push((a, c));
    }
    for (i, ed) in l.doc.edges().enumerate() {
        let p = ed.path_points().ok_or(format!("relation {} has no route", i))?;
        // every step of the route is a connection of the network, used in either direction
        let find = |q: &Point| at.iter().position(|x| x == q);
        let mut cost = 0;
        let mut prev = find(&p[0]).ok_or(format!("route {}: {} is no place of the network", i, p[0]))?;
        for q in &p[1..] {
            let k = find(q).ok_or(format!("route {}: {} is no place of the network", i, q))?;
            let c = adj[prev].iter().find(|(t, _)| *t == k).ok_or(format!("route {}: {} -> {} is not a connection of the network", i, at[prev], q))?.1;
            cost += c;
            prev = k;
        }
        let (a, b) = (l.doc.get_node(ed.source_id()).unwrap(), l.doc.get_node(ed.target_id()).unwrap());
        let ports = |n: &NodeData| -> Vec<usize> { n.terminal_ports().filter_map(|t| find(t.location())).collect() };
        let mut best: Option<u64> = None;
        for src in ports(a) {
            let d = dijkstra(&adj, src);
            for dst in ports(b) {
                if src != dst { if let Some(c) = d[dst] { if best.map_or(true, |x| c < x) { best = Some(c) } } }
            }
        }
        ensure!(best == Some(cost), "route {} costs {} and the cheapest {:?}: {:?}", i, cost, best, p);
    }
    Ok(())
}
fn dijkstra(adj: &[Vec<(usize, u64)>], src: usize) -> Vec<Option<u64>> {
    use std::{cmp::Reverse, collections::BinaryHeap};
    let mut d = vec![None; adj.len()];
    let mut h = BinaryHeap::new();
    h.push(Reverse((0u64, src)));
    while let Some(Reverse((c, n))) = h.pop() {
        if d[n].is_some() { continue; }
        d[n] = Some(c);
        for (t, w) in &adj[n] { if d[*t].is_none() { h.push(Reverse((c + w, *t))) } }
    }
    d
}

// ---------------------------------------------------------------- rendering of unfinished layouts
pub fn unlaid(s: &Spec) -> R {
    use seiren::error::BackendError;
    fn refused(doc: &Document, view: Option<Rect>, what: &str, id: Option<NodeId>) -> R {
        let mut b = SVGRenderer::new();
        b.view_box = view;
        let mut bytes = vec![];
        let r = b.render(doc, &mut bytes);
        ensure!(bytes.is_empty(), "{}: {} bytes were written", what, bytes.len());
        match r {
            Err(BackendError::InvalidLayout(got)) => { ensure!(id.map_or(true, |w| w == got), "{}: node {} was reported, not {:?}", what, got, id); Ok(()) }
            Err(e) => Err(format!("{}: reported {}", what, e)),
            Ok(()) => Err(format!("{}: rendered all the same", what)),
        }
    }
    let doc = build(s);
    if !s.entities().is_empty() { refused(&doc, None, "a document without layout", None)?; }
    let l = place(s);
    if let Some(e) = l.doc.edges().next() { refused(&l.doc, l.view, "a document without routes", Some(e.source_id()))?; }
    let mut l = lay(s);
    let recs: Vec<NodeId> = l.doc.body().children().collect();
    let all: Vec<NodeId> = recs.iter().flat_map(|r| std::iter::once(*r).chain(l.doc.get_node(*r).unwrap().children())).collect();
    let step = all.len() / 60 + 1;
    for id in all.into_iter().step_by(step) {
        let (o, z) = { let n = l.doc.get_node(id).unwrap(); (n.origin, n.size) };
        l.doc.get_node_mut(id).unwrap().origin = None;
        refused(&l.doc, l.view, &format!("node {} without an origin", id), Some(id))?;
        l.doc.get_node_mut(id).unwrap().origin = o;
        l.doc.get_node_mut(id).unwrap().size = None;
        refused(&l.doc, l.view, &format!("node {} without a size", id), Some(id))?;
        l.doc.get_node_mut(id).unwrap().size = z;
    }
    let n = l.doc.edges().count();
    for k in 0..n {
        let (old, src) = { let e = l.doc.edges_mut().nth(k).unwrap(); let o = e.path_points().map(|p| p.to_vec()); e.set_path_points(None); (o, e.source_id()) };
        refused(&l.doc, l.view, &format!("relation {} without a route", k), Some(src))?;
        l.doc.edges_mut().nth(k).unwrap().set_path_points(old);
    }
    let mut b = SVGRenderer::new();
    b.view_box = l.view;
    let mut bytes = vec![];
    b.render(&l.doc, &mut bytes).map_err(|e| format!("complete layout refused: {}", e))?;
    // every kind of failure, after any number of bytes
    use std::io::ErrorKind::*;
    let kinds = [Other, BrokenPipe, WriteZero, WouldBlock, PermissionDenied, UnexpectedEof, TimedOut, InvalidInput, NotFound, ConnectionReset, OutOfMemory, Unsupported];
    for (i, kind) in kinds.into_iter().enumerate() {
        let room = [0, 1, bytes.len() / 2, bytes.len() - 1][(i + n + s.entries.len()) % 4];
        let mut w = Writer { got: vec![], room, kind: Some(kind), turn: 0 };
        match b.render(&l.doc, &mut w) { Err(BackendError::IoFailure(e)) => ensure!(e.kind() == kind, "a writer that fails with {:?} gave {:?}", kind, e.kind()), r => return Err(format!("a writer that fails with {:?} after {} bytes gave {:?}", kind, room, r.map_err(|e| e.to_string()))) }
        ensure!(w.got == bytes[..room], "a writer that fails after {} bytes got others", room);
    }
    let mut w = Writer { got: vec![], room: bytes.len() / 3, kind: None, turn: 0 };
    match b.render(&l.doc, &mut w) { Err(BackendError::IoFailure(_)) => {} r => return Err(format!("a full writer gave {:?}", r.map_err(|e| e.to_string()))) }
    // a writer that takes a few bytes at a time and is interrupted gets all of them
    let mut w = Writer { got: vec![], room: usize::MAX, kind: None, turn: 0 };
    b.render(&l.doc, &mut w).map_err(|e| format!("a slow writer gave {}", e))?;
    ensure!(w.got == bytes, "a slow writer got {} bytes, not {}", w.got.len(), bytes.len());
    Ok(())
}
/// Takes `room` bytes, at most 500 at a time, then fails with `kind`, or takes none; is interrupted in between.
struct Writer { got: Vec<u8>, room: usize, kind: Option<std::io::ErrorKind>, turn: usize }
impl std::io::Write for Writer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if self.turn % 5 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(500).min(self.room - self.got.len());
        if n == 0 && !b.is_empty() { if let Some(k) = self.kind { return Err(k.into()); } }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

// ---------------------------------------------------------------- geometry
/// x, y, w, h of the rectangle and the ends of the segment, in halves; dx, dy of the inset
#[derive(Debug, Clone, Copy)]
pub struct Geo { pub r: [i64; 4], pub a: [i64; 2], pub b: [i64; 2], pub d: [i64; 2] }
pub fn geometry(g: &Geo) -> R {
    let f = |h: i64| h as f32 / 2.0;
    let r = Rect::new(Point::new(f(g.r[0]), f(g.r[1])), seiren::geometry::Size::new(f(g.r[2]), f(g.r[3])));
    let (a, b) = (Point::new(f(g.a[0]), f(g.a[1])), Point::new(f(g.b[0]), f(g.b[1])));
    let (x0, y0, x1, y1) = (g.r[0], g.r[1], g.r[0] + g.r[2], g.r[1] + g.r[3]);
    let half = |h: i64| h as f64 / 4.0;
    ensure!(r.min_x() == f(x0) && r.min_y() == f(y0) && r.max_x() == f(x1) && r.max_y() == f(y1), "edges of {:?}", r);
    ensure!(r.width() == f(g.r[2]) && r.height() == f(g.r[3]), "size of {:?}", r);
    if g.r[2] % 2 == 0 { ensure!(r.mid_x() as f64 == half(x0 + x1), "middle of {:?}: {}", r, r.mid_x()); }
    if g.r[3] % 2 == 0 { ensure!(r.mid_y() as f64 == half(y0 + y1), "middle of {:?}: {}", r, r.mid_y()); }
    let inside = |p: [i64; 2]| x0 < p[0] && p[0] < x1 && y0 < p[1] && p[1] < y1;
    let within = |p: [i64; 2]| x0 <= p[0] && p[0] <= x1 && y0 <= p[1] && p[1] <= y1;
    ensure!(r.contains_point(&a) == within(g.a), "{:?} contains {}: {}", r, a, r.contains_point(&a));
    if g.a[0] == g.b[0] || g.a[1] == g.b[1] {
        let meets = g.a[0].max(g.b[0]) >= x0 && g.a[0].min(g.b[0]) <= x1 && g.a[1].max(g.b[1]) >= y0 && g.a[1].min(g.b[1]) <= y1;
        let want = meets && !(inside(g.a) && inside(g.b));
        ensure!(r.intersects_line(&a, &b) == want, "{:?} intersects {} -> {}: {}", r, a, b, r.intersects_line(&a, &b));
        ensure!(r.intersected_line(&a, &b).is_some() == want, "{:?} intersected by {} -> {}", r, a, b);
    }
    let i = r.inset_by(f(g.d[0]), f(g.d[1]));
    ensure!(i.origin == Point::new(f(x0 + g.d[0]), f(y0 + g.d[1])) && i.width() == f((g.r[2] - 2 * g.d[0]).max(0)) && i.height() == f((g.r[3] - 2 * g.d[1]).max(0)),
        "{:?} inset by {} {} is {:?}", r, f(g.d[0]), f(g.d[1]), i);
    use Orientation::*;
    let want = if g.b[0] < g.a[0] { Left } else if g.b[0] > g.a[0] { Right } else if g.b[1] < g.a[1] { Up } else { Down };
    ensure!(a.orthogonal_direction(&b) == want, "direction {} -> {} is {}", a, b, a.orthogonal_direction(&b));
    Ok(())
}
pub fn gen_geo(r: &mut Rng) -> Geo {
    let big: i64 = [12, 40, 2000, 4194304][r.below(4)];
    let c = |r: &mut Rng| -> i64 { (r.next() % (2 * big as u64 + 1)) as i64 - big };
    let (x, y) = (c(r), c(r));
    let w = if r.chance(10) { 0 } else { (r.next() % ((4194304 - x).min(big) as u64 + 1)) as i64 };
    let h = if r.chance(10) { 0 } else { (r.next() % ((4194304 - y).min(big) as u64 + 1)) as i64 };
    // ends near the lines that matter
    let pick = |r: &mut Rng, lo: i64, hi: i64| -> i64 { match r.below(6) { 0 => lo, 1 => hi, 2 => lo - 1, 3 => hi + 1, 4 => (lo + hi) / 2, _ => c(r) }.clamp(-4194304, 4194304) };
    let a = [pick(r, x, x + w), pick(r, y, y + h)];
    let mut b = [pick(r, x, x + w), pick(r, y, y + h)];
    if r.chance(45) { b[0] = a[0] } else if r.chance(80) { b[1] = a[1] }
    let d = [(r.next() % 161) as i64 - 80, (r.next() % 161) as i64 - 80];
    Geo { r: [x, y, w, h], a, b, d }
}
impl Geo {
    pub fn to_text(&self) -> String { format!("G {} {} {} {} {} {} {} {} {} {}\n", self.r[0], self.r[1], self.r[2], self.r[3], self.a[0], self.a[1], self.b[0], self.b[1], self.d[0], self.d[1]) }
    pub fn from_text(t: &str) -> Option<Geo> {
        let v: Vec<i64> = t.lines().find(|l| l.starts_with("G "))?.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
        if v.len() < 10 { return None; }
        Some(Geo { r: [v[0], v[1], v[2], v[3]], a: [v[4], v[5]], b: [v[6], v[7]], d: [v[8], v[9]] })
    }
}
/// Every relation gets a route of at least two points.
pub fn route_long(s: &Spec) -> R {
    for (i, e) in lay(s).doc.edges().enumerate() {
        ensure!(e.path_points().map_or(0, |p| p.len()) >= 2, "relation {} has the route {:?}", i, e.path_points());
    }
    Ok(())
}
