//! Displays the module of the text on standard input the way a notebook cell would; nothing if there is none.
use seiren::evcxr::{draw_erd, CustomDisplay};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use std::io::Read;
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    if let (Some(m), _, _) = seiren::parser::parse(&s) {
        let mut doc = m.into_mir();
        let mut engine = SimpleLayoutEngine::new();
        let view_box = engine.place_nodes(&mut doc);
        engine.place_terminal_ports(&mut doc);
        engine.draw_edge_path(&mut doc);
        draw_erd(&doc, view_box).evcxr_display();
    }
}
