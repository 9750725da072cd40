//! No counting allocator here.
pub fn live() -> isize { 0 }
