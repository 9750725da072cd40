use crate::report::Check;
pub mod common;
mod h03;
mod h04;
pub const ALL: [&str; 2] = ["H03", "H04"];
pub fn build(id: &str, tier: &str) -> Option<Check> {
    let quick = tier == "quick";
    Some(match id { "H03" => h03::check(quick), "H04" => h04::check(quick), _ => return None })
}
