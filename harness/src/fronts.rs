//! The front ends, run as processes: the command line program and a notebook cell.
use crate::oracle::R;
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::parser::parse;
use seiren::renderer::{Renderer, SVGRenderer};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn program(name: &str) -> PathBuf { PathBuf::from(std::env::var("SEIREN_FRONTS").expect("SEIREN_FRONTS")).join(name) }
fn run(name: &str, at: &Scratch, args: &[&str], input: &[u8]) -> Result<Output, String> {
    let mut c = Command::new(program(name));
    c.current_dir(&at.0).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_BACKTRACE");
    let mut p = c.spawn().map_err(|e| format!("{}: {}", name, e))?;
    let mut i = p.stdin.take().unwrap();
    let input = input.to_vec();
    // a program that does not read its input is told by its output
    let w = std::thread::spawn(move || { let _ = i.write_all(&input); });
    let o = p.wait_with_output().map_err(|e| e.to_string());
    let _ = w.join();
    o
}
/// What the library draws for a text.
fn drawing(text: &str) -> Option<Vec<u8>> {
    let mut doc = parse(text).0?.into_mir();
    let mut engine = SimpleLayoutEngine::new();
    let view_box = engine.place_nodes(&mut doc);
    engine.place_terminal_ports(&mut doc);
    engine.draw_edge_path(&mut doc);
    let mut r = SVGRenderer::new();
    r.view_box = view_box;
    let mut v = vec![];
    r.render(&doc, &mut v).ok()?;
    Some(v)
}
fn plain(s: &str) -> String {
    let mut o = String::new(); let mut i = s.chars().peekable();
    while let Some(c) = i.next() {
        if c == '\u{1b}' && i.peek() == Some(&'[') { for c in i.by_ref() { if c.is_ascii_alphabetic() { break } } } else { o.push(c) }
    }
    o
}
/// NAME:LINE:COLUMN of the reports, in order.
fn places(stderr: &str) -> Vec<String> { plain(stderr).split('\n').filter_map(|l| l.trim_start_matches(' ').strip_prefix("╭─[").and_then(|l| l.strip_suffix(']')).map(|l| l.to_string())).collect() }
fn wanted(text: &str, name: &str) -> Vec<String> {
    let (_, a, b) = parse(text);
    let c: Vec<char> = text.chars().collect();
    a.iter().map(|e| e.span().start).chain(b.iter().map(|e| e.span().start)).map(|at| {
        let before = &c[..at.min(c.len())];
        let line = before.iter().filter(|c| **c == '\n').count();
        let col = before.iter().rev().take_while(|c| **c != '\n').count();
        format!("{}:{}:{}", name, line + 1, col + 1)
    }).collect()
}
fn judge(o: &Output, text: &str, name: &str) -> R {
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    ensure!(o.status.code() == Some(0), "{}: ended with {:?}: {}", name, o.status.code(), err.lines().find(|l| l.contains("panicked")).or(err.lines().next()).unwrap_or(""));
    let want = drawing(text).unwrap_or_default();
    ensure!(o.stdout == want, "{}: standard output has {} bytes, the drawing {}", name, o.stdout.len(), want.len());
    let (got, want) = (places(&err), wanted(text, name));
    ensure!(got == want, "{}: reports at {:?}, diagnostics at {:?}", name, got, want);
    Ok(())
}
static N: AtomicU64 = AtomicU64::new(0);
/// A directory of its own, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, String> {
        let d = std::env::temp_dir().join(format!("seiren-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(d.join("sub")).map_err(|e| e.to_string())?;
        Ok(Scratch(d))
    }
    fn put(&self, name: &str, b: &[u8]) -> Result<(), String> { std::fs::write(self.0.join(name), b).map_err(|e| e.to_string()) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn pick(text: &str, salt: u64) -> usize { (text.bytes().fold(0xcbf2_9ce4_8422_2325 ^ salt, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) >> 20) as usize }
const NAMES: &[&str] = &["x.erd", "-", "--help", "--version", "-v", "--", "-o", "a b.erd", "\u{65e5}\u{672c}.erd", "(stdin)", "sub/x.erd", "./y", "stdin", "x.svg", "x.md", "Z", "a:1", "a,b", "help"];

pub fn from_stdin(text: &str) -> R { let d = Scratch::new()?; judge(&run("seiren-cli", &d, &[], text.as_bytes())?, text, "(stdin)") }
pub fn from_file(text: &str) -> R {
    let d = Scratch::new()?;
    let k = pick(text, 1);
    let name = NAMES[k % NAMES.len()];
    d.put(name, text.as_bytes())?;
    let full = d.0.join(name); let full = full.to_str().unwrap();
    let name = if k / 64 % 4 == 0 { full } else { name };
    // what is on standard input or in other files does not matter then
    d.put("other", b"erd { other {} }")?;
    let args: &[&str] = if k / 256 % 4 == 0 { &[name, "other"] } else { &[name] };
    judge(&run("seiren-cli", &d, args, b"erd { other {} }")?, text, name)
}
/// A file that is missing, no text, or no file.
pub fn unreadable(text: &str) -> R {
    let d = Scratch::new()?;
    let k = pick(text, 2);
    let (name, what) = match k % 4 {
        0 => (NAMES[k / 4 % NAMES.len()], "is missing"),
        1 => ("sub", "is a directory"),
        2 => { let mut b = text.as_bytes().to_vec(); b.push(0xff); d.put("x.erd", &b)?; ("x.erd", "ends outside UTF-8") }
        _ => { let mut b = vec![0xff, 0xfe]; b.extend(text.as_bytes()); d.put("x.erd", &b)?; ("x.erd", "begins outside UTF-8") }
    };
    let o = run("seiren-cli", &d, &[name], text.as_bytes())?;
    ensure!(o.status.code() == Some(1) && o.stdout.is_empty() && !o.stderr.is_empty(), "a file that {}: ended with {:?}, {} bytes on standard output, {} on standard error", what, o.status.code(), o.stdout.len(), o.stderr.len());
    Ok(())
}
pub fn notebook(text: &str) -> R {
    let o = run("seiren-notebook", &Scratch::new()?, &[], text.as_bytes())?;
    ensure!(o.status.code() == Some(0), "notebook: ended with {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or(""));
    let want = drawing(text).map(|d| [b"EVCXR_BEGIN_CONTENT image/svg+xml\n".to_vec(), d, b"\nEVCXR_END_CONTENT\n".to_vec()].concat()).unwrap_or_default();
    ensure!(o.stdout == want, "notebook: standard output has {} bytes, expected {}", o.stdout.len(), want.len());
    Ok(())
}
