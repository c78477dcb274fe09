//! `orx_verif_std`: a stand-in for `std`/`core` used when the crate under test is built with
//! `--cfg orx_concurrent_iter_verif` (its lib.rs then does `extern crate orx_verif_std as std`).
//! Everything is re-exported from the real std, except the synchronisation primitives, which
//! report every operation to the deterministic scheduler in `mc`.
#![allow(static_mut_refs)]
#![allow(clippy::all)]

pub use ::std::*;

pub mod mc;
mod atomics;
mod locks;
#[cfg(orx_verif_tsan)]
mod tsan;

/// Shadows `std::sync`.
pub mod sync {
    pub use ::std::sync::*;
    /// Shadows `std::sync::atomic`.
    pub mod atomic {
        pub use crate::atomics::*;
        pub use ::std::sync::atomic::Ordering;
    }
    pub use crate::locks::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
        WaitTimeoutResult,
    };
}

/// Shadows `std::thread`.
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::mc::hint_yield();
    }
    pub fn sleep(_d: ::std::time::Duration) {
        crate::mc::hint_yield();
    }
    static TOKENS: [crate::atomics::AtomicBool; 8] = [const { crate::atomics::AtomicBool::new(false) }; 8];
    use ::std::sync::atomic::Ordering::{Acquire, Release};
    /// A handle to a virtual thread.
    #[derive(Clone, Debug)]
    pub struct Thread(usize);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct ThreadId(usize);
    impl Thread {
        pub fn id(&self) -> ThreadId {
            ThreadId(self.0)
        }
        pub fn name(&self) -> Option<&str> {
            None
        }
        pub fn unpark(&self) {
            TOKENS[self.0].store(true, Release);
        }
    }
    pub fn current() -> Thread {
        Thread(crate::mc::current())
    }
    pub fn park() {
        let t = &TOKENS[crate::mc::current()];
        while !t.load(Acquire) {}
        t.store(false, ::std::sync::atomic::Ordering::Relaxed);
    }
    pub fn park_timeout(d: ::std::time::Duration) {
        let t = &TOKENS[crate::mc::current()];
        let end = crate::time::Instant::now() + d;
        while !t.load(Acquire) && crate::time::Instant::now() < end {}
        t.store(false, ::std::sync::atomic::Ordering::Relaxed);
    }
    pub fn panicking() -> bool {
        if crate::mc::active() {
            crate::mc::cur_panicking()
        } else {
            ::std::thread::panicking()
        }
    }
}

/// Shadows `std::time`: the clock is virtual.
pub mod time {
    pub use ::std::time::*;
    use ::std::ops::{Add, AddAssign, Sub, SubAssign};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    const YEAR: Duration = Duration::from_secs(365 * 24 * 3600);
    impl Instant {
        pub fn now() -> Self {
            Instant(YEAR + Duration::from_secs(crate::mc::clock()))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().saturating_duration_since(*self)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.saturating_duration_since(o)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d;
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d;
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.saturating_duration_since(o)
        }
    }
}

/// Shadows `std::hint`.
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::mc::hint_yield();
    }
}

/// Shadows `std::panic`.
pub mod panic {
    pub use ::std::panic::*;
    pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> ::std::thread::Result<R> {
        crate::mc::catch(f)
    }
}
