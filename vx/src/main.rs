//! Mechanical extraction of functions of /repo/src into a Verus file, with contracts spliced in.
//!
//! usage: vx UNIT.vx REPO_SRC_DIR OUT.rs REPORT.txt
//!
//! The executable text of every extracted function is derived from /repo's current source by the
//! rewriting rules in `rw.rs`; contracts, invariants and proof hints come from the unit file and
//! are attached at structural anchors only (function, n-th loop, n-th closure, n-th call).
mod unit;
mod rw;
mod emit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 { eprintln!("usage: vx UNIT SRC OUT REPORT"); std::process::exit(2); }
    match emit::run(&a[1], &a[2]) {
        Ok((text, report)) => {
            std::fs::write(&a[3], text).unwrap();
            std::fs::write(&a[4], report).unwrap();
        }
        Err(e) => { eprintln!("vx: {}", e); std::process::exit(3); }
    }
}
