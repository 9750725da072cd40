//! Checks of the thread-safe helpers: loom explores every interleaving of every enumerated program.
#[path = "../../mc/src/dfs.rs"]
#[allow(dead_code)]
mod dfs;
#[path = "../../mc/src/report.rs"]
mod report;
mod checks;

fn main() { report::main() }
