//! The repository's `std_util.rs`, compiled unchanged against loom's synchronisation and a clock under the explorer's control.
#![no_std]
#[macro_use] extern crate shim as std;
extern crate alloc;

pub mod real_time {
    //! The parts of the `time` crate in use, with a counter as the wall clock: every reading of it is a scheduling point and gives a new value.
    //! Stamps of the harness count along without being scheduling points.
    use loom::sync::atomic::{AtomicU64, Ordering};
    use shim::sync::Arc;
    use core::cell::{Cell, RefCell};
    shim::thread_local! {
        static WALL: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
        static BACKWARD: Cell<bool> = const { Cell::new(false) };
        static COUNT: Cell<u64> = const { Cell::new(0) };
    }
    /// starts a new execution
    pub fn reset() { COUNT.with(|c| c.set(0)); WALL.with(|w| *w.borrow_mut() = Some(Arc::new(AtomicU64::new(1)))) }
    pub fn forget() { WALL.with(|w| *w.borrow_mut() = None) }
    pub fn stamp() -> u64 { COUNT.with(|c| { c.set(c.get() + 1); c.get() }) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct UtcOffset(pub i32);
    impl UtcOffset { pub const UTC: Self = UtcOffset(0); }
    /// the how-many-th reading it is, and the offset it was converted to
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct OffsetDateTime { pub at: u64, pub offset: UtcOffset }
    impl PartialOrd for OffsetDateTime { fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(other)) } }
    impl Ord for OffsetDateTime {
        fn cmp(&self, other: &Self) -> core::cmp::Ordering { let o = self.at.cmp(&other.at); if BACKWARD.with(|b| b.get()) { o.reverse() } else { o } }
    }
    /// whether the wall clock is set back before each reading (the count still goes up)
    pub fn backward(yes: bool) { BACKWARD.with(|b| b.set(yes)) }
    impl OffsetDateTime {
        pub fn now_utc() -> Self {
            let c = WALL.with(|w| w.borrow().as_ref().expect("no clock").clone());
            c.fetch_add(1, Ordering::SeqCst);
            OffsetDateTime { at: stamp(), offset: UtcOffset::UTC }
        }
        pub fn to_offset(self, offset: UtcOffset) -> Self { OffsetDateTime { offset, ..self } }
        pub fn offset(self) -> UtcOffset { self.offset }
        pub fn replace_offset(self, offset: UtcOffset) -> Self { OffsetDateTime { offset, ..self } }
    }
}
pub mod json { pub use netsblox_vm::json::*; }
pub mod compact_str { pub use netsblox_vm::compact_str::*; }
pub mod runtime { pub use netsblox_vm::runtime::*; }
pub mod vecmap { pub use netsblox_vm::vecmap::*; }
pub mod gc { pub use netsblox_vm::gc::*; }
pub mod bytecode { pub use netsblox_vm::bytecode::*; }
pub mod process { pub use netsblox_vm::process::*; }
pub mod project { pub use netsblox_vm::project::*; }
pub use netsblox_vm::ast;
use educe::Educe;

#[path = "/repo/src/std_util.rs"]
pub mod std_util;
