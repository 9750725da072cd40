//! The checks, one module per property (generated list).
use crate::report::Check;
pub mod common;
pub mod nest;
pub mod sched;
pub mod tabs;
pub mod trees;
mod e01;
mod e02;
mod e03;
mod e04;
mod e05;
mod e06;
mod e07;
mod e08;
mod e09;
mod e10;
mod e11;
mod e12;
mod e13;
mod e14;
mod e15;
mod e16;
mod e17;
mod e18;
mod e19;
mod v01;
mod v02;
mod v03;
mod v04;
mod v05;
mod v06;
mod v07;
mod v08;
mod v09;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s07;
mod s08;
mod s09;
mod s10;
mod h01;
mod h02;
mod h05;
mod h06;
mod h07;
mod h08;
mod h09;
mod h10;
pub const ALL: [&str; 46] = ["E01", "E02", "E03", "E04", "E05", "E06", "E07", "E08", "E09", "E10", "E11", "E12", "E13", "E14", "E15", "E16", "E17", "E18", "E19", "V01", "V02", "V03", "V04", "V05", "V06", "V07", "V08", "V09", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "H01", "H02", "H05", "H06", "H07", "H08", "H09", "H10"];
pub fn build(id: &str, tier: &str) -> Option<Check> {
    let quick = tier == "quick";
    Some(match id {
        "E01" => e01::check(quick),
        "E02" => e02::check(quick),
        "E03" => e03::check(quick),
        "E04" => e04::check(quick),
        "E05" => e05::check(quick),
        "E06" => e06::check(quick),
        "E07" => e07::check(quick),
        "E08" => e08::check(quick),
        "E09" => e09::check(quick),
        "E10" => e10::check(quick),
        "E11" => e11::check(quick),
        "E12" => e12::check(quick),
        "E13" => e13::check(quick),
        "E14" => e14::check(quick),
        "E15" => e15::check(quick),
        "E16" => e16::check(quick),
        "E17" => e17::check(quick),
        "E18" => e18::check(quick),
        "E19" => e19::check(quick),
        "V01" => v01::check(quick),
        "V02" => v02::check(quick),
        "V03" => v03::check(quick),
        "V04" => v04::check(quick),
        "V05" => v05::check(quick),
        "V06" => v06::check(quick),
        "V07" => v07::check(quick),
        "V08" => v08::check(quick),
        "V09" => v09::check(quick),
        "S01" => s01::check(quick),
        "S02" => s02::check(quick),
        "S03" => s03::check(quick),
        "S04" => s04::check(quick),
        "S05" => s05::check(quick),
        "S06" => s06::check(quick),
        "S07" => s07::check(quick),
        "S08" => s08::check(quick),
        "S09" => s09::check(quick),
        "S10" => s10::check(quick),
        "H01" => h01::check(quick),
        "H02" => h02::check(quick),
        "H05" => h05::check(quick),
        "H06" => h06::check(quick),
        "H07" => h07::check(quick),
        "H08" => h08::check(quick),
        "H09" => h09::check(quick),
        "H10" => h10::check(quick),
        _ => return None,
    })
}
