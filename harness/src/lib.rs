pub mod spec;
pub mod xml;
pub mod oracle;
pub mod parsing;
pub mod fronts;
pub mod search;

/// Runs a closure; a panic becomes an error text.
pub fn guard(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m.lines().next().unwrap_or("")))
        }
    }
}
