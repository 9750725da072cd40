use crate::report::Check;
pub mod common;
mod n01;
mod n02;
mod n03;
mod n04;
mod n05;
mod n06;
pub const ALL: [&str; 5] = ["N01", "N02", "N03", "N04", "N05"];
pub fn build(id: &str, tier: &str) -> Option<Check> {
    let quick = tier == "quick";
    Some(match id { "N01" => n01::check(quick), "N02" => n02::check(quick), "N03" => n03::check(quick), "N04" => n04::check(quick), "N05" => n05::check(quick), "N06" => n06::check(quick), _ => return None })
}
