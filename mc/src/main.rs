mod dfs;
mod report;
mod host;
mod sys;
mod b;
mod rv;
mod refops;
mod refi;
mod vm;
mod mem;
mod checks;

fn main() { report::main() }
