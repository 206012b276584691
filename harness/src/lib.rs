//! Runtime of the monitors: execution of calls under observation, oracles' bookkeeping, guarded
//! memory, virtual clock, workload generation.
#[cfg(feature = "heap")]
pub mod alloc;
pub mod big;
pub mod cal;
pub mod call;
pub mod clock;
pub mod env;
pub mod fb;
pub mod ffi;
pub mod gen;
pub mod hp;
pub mod mem;
pub mod p;
pub mod report;
#[cfg(feature = "st")]
pub mod st;

pub use call::*;
pub use gen::*;
pub use report::*;
