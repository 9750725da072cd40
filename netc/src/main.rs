//! Checks of the standard system against a scripted local server.
#[path = "../../mc/src/dfs.rs"]
#[allow(dead_code)]
mod dfs;
#[path = "../../mc/src/report.rs"]
mod report;
#[path = "../../mc/src/b.rs"]
#[allow(dead_code)]
mod b;
mod clock;
mod nbproc;
mod server;
mod checks;

fn main() {
    // most of a run is waiting for the system's own threads
    if std::env::var_os("MC_WORKERS").is_none() { unsafe { std::env::set_var("MC_WORKERS", "24") } }
    unsafe { std::env::set_var("NO_PROXY", "*"); for p in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"] { std::env::remove_var(p) } }
    dfs::FREE.store(true, std::sync::atomic::Ordering::Relaxed);
    report::main()
}
