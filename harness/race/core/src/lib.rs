//! The core library with atomics under control.
#![no_std]
extern crate core as real;
pub use real::*;
pub mod sync {
    pub mod atomic {
        pub use ::real::sync::atomic::*;
        pub use ffmc_sync::atomic::{AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize};
    }
}
pub mod hint {
    pub use ::real::hint::*;
    pub use ffmc_sync::spin_loop;
}
