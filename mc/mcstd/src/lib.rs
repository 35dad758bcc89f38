//! `std` as the model checker wants it: the operations of `sync` and `thread` are scheduling points of
//! controlled executions (`rayon_core::control`); outside of them, they are those of `std`.
//! `tools/instrument.sh` makes a copy of the code under test which uses this crate in place of `std`.

pub use std::*;

pub mod sync {
    pub use crate::shim::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
    };
    pub use std::sync::*;

    pub mod atomic {
        pub use crate::atomics::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32,
            AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use std::sync::atomic::*;
    }
}

pub mod thread {
    pub use crate::threads::{scope, sleep, spawn, yield_now, JoinHandle, Scope, ScopedJoinHandle};
    pub use std::thread::*;
}

pub mod hint {
    pub use std::hint::*;

    pub fn spin_loop() {
        rayon_core::control::yield_now();
        std::hint::spin_loop();
    }
}

mod atomics;
mod shim;
mod threads;
