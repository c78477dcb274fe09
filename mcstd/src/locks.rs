//! Blocking primitives that block in the scheduler instead of in the OS.
use crate::mc;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicUsize, Ordering, Ordering::Relaxed};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

/// 0 = free, usize::MAX = write locked, n = n readers
#[repr(C)]
struct Raw {
    state: AtomicUsize,
    poison: AtomicBool,
}
impl Raw {
    const fn new() -> Self {
        Raw { state: AtomicUsize::new(0), poison: AtomicBool::new(false) }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn touch(&self) {
        mc::touch(&self.state as *const _ as usize, 8);
        mc::touch(&self.poison as *const _ as usize, 1);
    }
    fn lock(&self, write: bool) {
        self.touch();
        if mc::active() {
            mc::pre_lock(self.addr(), &self.state, write);
        }
        self.take(write);
        if mc::active() {
            mc::do_lock(self.addr());
            mc::scrub();
        }
    }
    fn free_for(&self, write: bool) -> bool {
        let s = self.state.load(Relaxed);
        if write { s == 0 } else { s != usize::MAX }
    }
    fn take(&self, write: bool) {
        assert!(self.free_for(write), "lock taken twice by one thread (real code would deadlock)");
        if write {
            self.state.store(usize::MAX, Relaxed);
        } else {
            self.state.fetch_add(1, Relaxed);
        }
    }
    fn try_lock(&self, write: bool) -> bool {
        self.touch();
        if mc::active() {
            mc::pre(self.addr(), mc::Kind::Rmw);
        }
        let ok = self.free_for(write);
        if ok {
            self.take(write);
        }
        if mc::active() {
            mc::do_lock(self.addr());
            mc::note(ok as u64);
            mc::scrub();
        }
        ok
    }
    fn unlock(&self, write: bool) {
        if mc::active() {
            mc::pre(self.addr(), mc::Kind::Unlock);
        }
        if write {
            self.state.store(0, Relaxed);
        } else {
            self.state.fetch_sub(1, Relaxed);
        }
        if mc::active() {
            mc::do_unlock(self.addr());
            mc::scrub();
        }
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    _ns: ::std::marker::PhantomData<*const ()>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poison.load(Relaxed);
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> {
        MutexGuard { m: self, panicking: crate::thread::panicking(), _ns: ::std::marker::PhantomData }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock(true);
        if self.raw.poison.load(Relaxed) {
            Err(PoisonError::new(self.guard()))
        } else {
            Ok(self.guard())
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !self.raw.try_lock(true) {
            return Err(TryLockError::WouldBlock);
        }
        if self.raw.poison.load(Relaxed) {
            Err(TryLockError::Poisoned(PoisonError::new(self.guard())))
        } else {
            Ok(self.guard())
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poison.load(Relaxed)
    }
    pub fn clear_poison(&self) {
        self.raw.poison.store(false, Relaxed)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.poison.load(Relaxed);
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && crate::thread::panicking() {
            self.m.raw.poison.store(true, Relaxed);
        }
        self.m.raw.unlock(true);
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.lock(false);
        let g = RwLockReadGuard(self);
        if self.raw.poison.load(Relaxed) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.lock(true);
        let g = RwLockWriteGuard(self, crate::thread::panicking());
        if self.raw.poison.load(Relaxed) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock(false);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && crate::thread::panicking() {
            self.0.raw.poison.store(true, Relaxed);
        }
        self.0.raw.unlock(true);
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}

/// Waiters draw tickets; `notify_one` releases the oldest one that waits, `notify_all` all of them.
pub struct Condvar {
    /// tickets issued (high half), tickets released (low half)
    seq: crate::atomics::AtomicU64,
}
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
use ::std::sync::atomic::Ordering::SeqCst;
use ::std::time::Duration;
impl Condvar {
    pub const fn new() -> Self {
        Condvar { seq: crate::atomics::AtomicU64::new(0) }
    }
    fn released(&self, t: u64) -> bool {
        (self.seq.load(SeqCst) & 0xffff_ffff) > t
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        let t = self.seq.fetch_add(1 << 32, SeqCst) >> 32;
        drop(g);
        while !self.released(t) {}
        m.lock()
    }
    pub fn wait_timeout<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        let end = crate::time::Instant::now() + d;
        let t = self.seq.fetch_add(1 << 32, SeqCst) >> 32;
        drop(g);
        let mut out = false;
        while !self.released(t) {
            if crate::time::Instant::now() >= end {
                // no longer the oldest one that waits
                _ = self.seq.fetch_update(SeqCst, SeqCst, |s| {
                    if s & 0xffff_ffff < s >> 32 { Some(s + 1) } else { None }
                });
                out = true;
                break;
            }
        }
        match m.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(out))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(out)))),
        }
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut c: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = crate::time::Instant::now() + d;
        loop {
            if !c(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if crate::time::Instant::now() >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, d)?.0;
        }
    }
    pub fn notify_one(&self) {
        _ = self.seq.fetch_update(SeqCst, SeqCst, |s| if s & 0xffff_ffff < s >> 32 { Some(s + 1) } else { None });
    }
    pub fn notify_all(&self) {
        _ = self.seq.fetch_update(SeqCst, SeqCst, |s| Some(s >> 32 << 32 | s >> 32));
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

/// A cell that is written at most once; whoever comes second waits for the first.
pub struct OnceLock<T> {
    lock: Mutex<()>,
    set: crate::atomics::AtomicBool,
    data: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T: ::std::panic::RefUnwindSafe + ::std::panic::UnwindSafe> ::std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { lock: Mutex::new(()), set: crate::atomics::AtomicBool::new(false), data: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.set.load(Ordering::Acquire) {
            unsafe { (*self.data.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.data.get_mut().as_mut()
    }
    pub fn set(&self, x: T) -> Result<(), T> {
        let mut x = Some(x);
        self.get_or_init(|| x.take().unwrap());
        match x {
            None => Ok(()),
            Some(x) => Err(x),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if !self.set.load(Ordering::Acquire) {
            let _g = self.lock.lock().unwrap_or_else(|e| e.into_inner());
            if !self.set.load(Ordering::Acquire) {
                let x = f();
                unsafe { *self.data.get() = Some(x) };
                self.set.store(true, Ordering::Release);
            }
        }
        unsafe { (*self.data.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.data.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        *self.set.get_mut() = false;
        self.data.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(x) = self.get() {
            _ = c.set(x.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(x: T) -> Self {
        let c = Self::new();
        _ = c.set(x);
        c
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock { .. }")
    }
}

/// A value that is computed by the first access.
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| unsafe { (*this.init.get()).take().expect("poisoned")() })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

/// `call_once`
pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}
