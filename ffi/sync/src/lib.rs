//! Stands in for `std` in the instrumented copy of storm-ffi (`extern crate vh_sync as std`): everything
//! is the real thing but the locks and atomics of `std::sync`, which hand control to the scheduler.
pub use ::std::*;
pub mod sync;
pub use crate::sync::sched;
