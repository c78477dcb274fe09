//! Atomic types that report to `mc`. Layout-compatible with the std types.
use crate::mc::{self, Kind};
use ::std::fmt;
use ::std::sync::atomic as real;
use real::Ordering;
use real::Ordering::Relaxed;

fn load_ord(o: Ordering) -> Ordering {
    // std panics on these; keep that behaviour
    match o {
        Ordering::Release => panic!("there is no such thing as a release load"),
        Ordering::AcqRel => panic!("there is no such thing as an acquire-release load"),
        x => x,
    }
}
fn store_ord(o: Ordering) -> Ordering {
    match o {
        Ordering::Acquire => panic!("there is no such thing as an acquire store"),
        Ordering::AcqRel => panic!("there is no such thing as an acquire-release store"),
        x => x,
    }
}

macro_rules! common {
    ($name:ident, $t:ty, $to:expr, $from:expr) => {
        impl $name {
            #[cfg_attr(not(orx_verif_tsan), inline)]
            pub const fn new(x: $t) -> Self {
                Self(real::$name::new(x))
            }
            #[cfg_attr(not(orx_verif_tsan), inline)]
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            #[cfg_attr(not(orx_verif_tsan), inline)]
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            #[cfg_attr(not(orx_verif_tsan), inline)]
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            /// # Safety
            /// as the std function
            pub unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                unsafe { &*(p as *mut Self) }
            }
            #[cfg_attr(not(orx_verif_tsan), inline)]
            fn addr(&self) -> usize {
                mc::touch(self as *const Self as usize, ::std::mem::size_of::<Self>());
                self as *const Self as usize
            }
            pub fn load(&self, o: Ordering) -> $t {
                load_ord(o);
                if !mc::active() {
                    self.addr();
                    return self.0.load(o);
                }
                mc::pre_sz(self.addr(), Kind::Load, ::std::mem::size_of_val(self) as u8);
                let cur = self.0.load(Relaxed);
                let r = $from(mc::do_load(self.addr(), o, $to(cur)));
                mc::scrub();
                r
            }
            pub fn store(&self, x: $t, o: Ordering) {
                store_ord(o);
                if !mc::active() {
                    self.addr();
                    return self.0.store(x, o);
                }
                mc::pre_sz(self.addr(), Kind::Store, ::std::mem::size_of_val(self) as u8);
                let old = self.0.load(Relaxed);
                self.0.store(x, Relaxed);
                mc::do_store(self.addr(), o, $to(old), $to(x));
                mc::scrub();
            }
            fn rmw(&self, o: Ordering, f: impl FnOnce($t) -> $t) -> $t {
                if !mc::active() {
                    self.addr();
                    let old = self.0.load(Relaxed);
                    self.0.store(f(old), Relaxed);
                    return old;
                }
                mc::pre_sz(self.addr(), Kind::Rmw, ::std::mem::size_of_val(self) as u8);
                let old = self.0.load(Relaxed);
                let new = f(old);
                self.0.store(new, Relaxed);
                mc::do_rmw(self.addr(), o, $to(old), $to(new));
                mc::scrub();
                old
            }
            pub fn swap(&self, x: $t, o: Ordering) -> $t {
                self.rmw(o, |_| x)
            }
            pub fn compare_exchange(
                &self,
                cur: $t,
                new: $t,
                s: Ordering,
                f: Ordering,
            ) -> Result<$t, $t> {
                load_ord(f);
                if !mc::active() {
                    self.addr();
                    return self.0.compare_exchange(cur, new, s, f);
                }
                mc::pre_sz(self.addr(), Kind::Cas, ::std::mem::size_of_val(self) as u8);
                let old = self.0.load(Relaxed);
                if old == cur {
                    self.0.store(new, Relaxed);
                    mc::do_rmw(self.addr(), s, $to(old), $to(new));
                    mc::scrub();
                    Ok(old)
                } else {
                    mc::do_cas_fail(self.addr(), f, $to(old));
                    mc::scrub();
                    Err(old)
                }
            }
            pub fn compare_exchange_weak(
                &self,
                cur: $t,
                new: $t,
                s: Ordering,
                f: Ordering,
            ) -> Result<$t, $t> {
                load_ord(f);
                if !mc::active() {
                    self.addr();
                    return self.0.compare_exchange(cur, new, s, f);
                }
                mc::pre_sz(self.addr(), Kind::Cas, ::std::mem::size_of_val(self) as u8);
                let old = self.0.load(Relaxed);
                if old != cur {
                    mc::do_cas_fail(self.addr(), f, $to(old));
                    mc::scrub();
                    Err(old)
                } else if mc::spurious() {
                    mc::do_cas_spurious(self.addr(), f, $to(old));
                    mc::scrub();
                    Err(old)
                } else {
                    self.0.store(new, Relaxed);
                    mc::do_rmw(self.addr(), s, $to(old), $to(new));
                    mc::scrub();
                    Ok(old)
                }
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, cur: $t, new: $t, o: Ordering) -> $t {
                let f = match o {
                    Ordering::Release | Relaxed => Relaxed,
                    Ordering::AcqRel | Ordering::Acquire => Ordering::Acquire,
                    x => x,
                };
                match self.compare_exchange(cur, new, o, f) {
                    Ok(x) | Err(x) => x,
                }
            }
            pub fn fetch_update<F>(
                &self,
                set_order: Ordering,
                fetch_order: Ordering,
                f: F,
            ) -> Result<$t, $t>
            where
                F: FnMut($t) -> Option<$t>,
            {
                self.try_update(set_order, fetch_order, f)
            }
            pub fn try_update(
                &self,
                set_order: Ordering,
                fetch_order: Ordering,
                mut f: impl FnMut($t) -> Option<$t>,
            ) -> Result<$t, $t> {
                let mut prev = self.load(fetch_order);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn update(
                &self,
                set_order: Ordering,
                fetch_order: Ordering,
                mut f: impl FnMut($t) -> $t,
            ) -> $t {
                let mut prev = self.load(fetch_order);
                loop {
                    match self.compare_exchange_weak(prev, f(prev), set_order, fetch_order) {
                        Ok(x) => return x,
                        Err(p) => prev = p,
                    }
                }
            }
        }
        impl From<$t> for $name {
            #[cfg_attr(not(orx_verif_tsan), inline)]
            fn from(x: $t) -> Self {
                Self::new(x)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.load(Relaxed), f)
            }
        }
    };
}

macro_rules! int {
    ($($name:ident $t:ty),*) => { $(
        #[repr(transparent)]
        pub struct $name(real::$name);
        common!($name, $t, (|x: $t| x as u64), (|x: u64| x as $t));
        impl Default for $name {
            fn default() -> Self { Self::new(0) }
        }
        impl $name {
            pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_add(x)) }
            pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.wrapping_sub(x)) }
            pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v & x) }
            pub fn fetch_nand(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| !(v & x)) }
            pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v | x) }
            pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v ^ x) }
            pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.max(x)) }
            pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.min(x)) }
        }
    )* };
}
int!(AtomicUsize usize, AtomicU64 u64, AtomicU32 u32, AtomicU16 u16, AtomicU8 u8,
     AtomicIsize isize, AtomicI64 i64, AtomicI32 i32, AtomicI16 i16, AtomicI8 i8);

#[repr(transparent)]
pub struct AtomicBool(real::AtomicBool);
common!(AtomicBool, bool, (|x: bool| x as u64), (|x: u64| x != 0));
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
impl AtomicBool {
    pub fn fetch_and(&self, x: bool, o: Ordering) -> bool {
        self.rmw(o, |v| v & x)
    }
    pub fn fetch_nand(&self, x: bool, o: Ordering) -> bool {
        self.rmw(o, |v| !(v & x))
    }
    pub fn fetch_or(&self, x: bool, o: Ordering) -> bool {
        self.rmw(o, |v| v | x)
    }
    pub fn fetch_xor(&self, x: bool, o: Ordering) -> bool {
        self.rmw(o, |v| v ^ x)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.rmw(o, |v| !v)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(x: *mut T) -> Self {
        Self(real::AtomicPtr::new(x))
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
    fn addr(&self) -> usize {
        mc::touch(self as *const Self as usize, 8);
        self as *const Self as usize
    }
    pub fn load(&self, o: Ordering) -> *mut T {
        load_ord(o);
        if !mc::active() {
            self.addr();
            return self.0.load(o);
        }
        mc::pre_sz(self.addr(), Kind::Load, ::std::mem::size_of_val(self) as u8);
        let cur = self.0.load(Relaxed);
        let r = mc::do_load(self.addr(), o, cur as usize as u64) as usize as *mut T;
        mc::scrub();
        r
    }
    pub fn store(&self, x: *mut T, o: Ordering) {
        store_ord(o);
        if !mc::active() {
            self.addr();
            return self.0.store(x, o);
        }
        mc::pre_sz(self.addr(), Kind::Store, ::std::mem::size_of_val(self) as u8);
        let old = self.0.load(Relaxed);
        self.0.store(x, Relaxed);
        mc::do_store(self.addr(), o, old as usize as u64, x as usize as u64);
        mc::scrub();
    }
    pub fn swap(&self, x: *mut T, o: Ordering) -> *mut T {
        if !mc::active() {
            self.addr();
            return self.0.swap(x, o);
        }
        mc::pre_sz(self.addr(), Kind::Rmw, ::std::mem::size_of_val(self) as u8);
        let old = self.0.swap(x, Relaxed);
        mc::do_rmw(self.addr(), o, old as usize as u64, x as usize as u64);
        mc::scrub();
        old
    }
    pub fn compare_exchange(
        &self,
        cur: *mut T,
        new: *mut T,
        s: Ordering,
        f: Ordering,
    ) -> Result<*mut T, *mut T> {
        load_ord(f);
        if !mc::active() {
            self.addr();
            return self.0.compare_exchange(cur, new, s, f);
        }
        mc::pre_sz(self.addr(), Kind::Cas, ::std::mem::size_of_val(self) as u8);
        let old = self.0.load(Relaxed);
        if old == cur {
            self.0.store(new, Relaxed);
            mc::do_rmw(self.addr(), s, old as usize as u64, new as usize as u64);
            mc::scrub();
            Ok(old)
        } else {
            mc::do_cas_fail(self.addr(), f, old as usize as u64);
            mc::scrub();
            Err(old)
        }
    }
    pub fn compare_exchange_weak(
        &self,
        cur: *mut T,
        new: *mut T,
        s: Ordering,
        f: Ordering,
    ) -> Result<*mut T, *mut T> {
        self.compare_exchange(cur, new, s, f)
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
impl<T> From<*mut T> for AtomicPtr<T> {
    fn from(x: *mut T) -> Self {
        Self::new(x)
    }
}
impl<T> fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.load(Relaxed), f)
    }
}

pub fn fence(o: Ordering) {
    if matches!(o, Relaxed) {
        panic!("there is no such thing as a relaxed fence");
    }
    if !mc::active() {
        return real::fence(o);
    }
    mc::pre(0, Kind::Fence);
    mc::do_fence(o);
    mc::scrub();
}
pub fn compiler_fence(o: Ordering) {
    real::compiler_fence(o)
}
#[allow(deprecated)]
pub fn spin_loop_hint() {
    mc::hint_yield();
}
