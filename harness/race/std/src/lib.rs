//! The standard library with the synchronisation primitives under control. The crate under check is built
//! against this one by the name of `std`.
#![no_std]
extern crate std as real;
pub use real::*;
pub mod sync {
    pub use ::real::sync::*;
    pub use ffmc_sync::{Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::real::sync::atomic::*;
        pub use ffmc_sync::atomic::{AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize};
    }
}
pub mod thread {
    pub use ::real::thread::*;
    pub use ffmc_sync::{sleep, yield_now};
}
pub mod hint {
    pub use ::real::hint::*;
    pub use ffmc_sync::spin_loop;
}
