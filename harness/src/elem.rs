//! Element types with identity, and the ledger that accounts for every one of them.
use orx_verif_std::mc;

/// positions that are tracked one by one (longer sources: intervals)
pub const NP: usize = 2048;
pub const BADPOS: usize = usize::MAX;

pub struct Ledger {
    pub created: [u8; NP],
    pub delivered: [u8; NP],
    pub dropped: [u8; NP],
    pub clones: u32,
    pub clone_delivered: u32,
    pub clone_dropped: u32,
    pub z_created: u32,
    pub z_delivered: u32,
    pub z_dropped: u32,
    pub bad: Option<String>,
    pub clone_panic_at: Option<u32>,
    pub clone_point: bool,
    pub expect_gen: u32,
    pub src_base: usize,
    pub src_len: usize,
    pub src_stride: usize,
    pub range_start: usize,
    pub injected: bool,
}
impl Ledger {
    pub const fn new() -> Self {
        Ledger {
            created: [0; NP],
            delivered: [0; NP],
            dropped: [0; NP],
            clones: 0,
            clone_delivered: 0,
            clone_dropped: 0,
            z_created: 0,
            z_delivered: 0,
            z_dropped: 0,
            bad: None,
            clone_panic_at: None,
            clone_point: false,
            expect_gen: 0,
            src_base: 0,
            src_len: 0,
            src_stride: 1,
            range_start: 0,
            injected: false,
        }
    }
    pub fn report(&mut self, m: impl FnOnce() -> String) {
        if self.bad.is_none() {
            self.bad = Some(m());
        }
    }
}
static mut LEDGER: Ledger = Ledger::new();
#[allow(static_mut_refs)]
#[inline]
pub fn l() -> &'static mut Ledger {
    unsafe { &mut LEDGER }
}

pub trait Payload: Sized + Send + Sync {
    fn make(pos: usize) -> Self;
    fn ok(&self, pos: usize) -> bool;
}
impl Payload for () {
    fn make(_: usize) -> Self {}
    fn ok(&self, _: usize) -> bool {
        true
    }
}
impl Payload for [u64; 6] {
    fn make(pos: usize) -> Self {
        [pos as u64 * 7 + 1; 6]
    }
    fn ok(&self, pos: usize) -> bool {
        *self == Self::make(pos)
    }
}
impl Payload for Box<u64> {
    fn make(pos: usize) -> Self {
        Box::new(pos as u64 + 41)
    }
    fn ok(&self, pos: usize) -> bool {
        let a = &**self as *const u64 as usize;
        a != 0 && a % 8 == 0 && mc::arena_live(a) && **self == pos as u64 + 41
    }
}

/// Element with a destructor; `gen` 0 = original, 1 = clone, ...
pub struct E<P: Payload> {
    magic: u64,
    pub pos: u32,
    pub gen: u32,
    p: P,
}
fn magic(pos: u32, gen: u32) -> u64 {
    (pos as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (gen as u64 + 3).wrapping_mul(0xD6E8_FEB8_6659_FD93)
}
impl<P: Payload> E<P> {
    pub fn new(pos: usize) -> Self {
        {
            let _s = mc::sys();
            l().created[pos] += 1;
        }
        E { magic: magic(pos as u32, 0), pos: pos as u32, gen: 0, p: P::make(pos) }
    }
    fn valid(&self) -> bool {
        let g = unsafe { std::ptr::read_volatile(&self.gen) };
        let p = unsafe { std::ptr::read_volatile(&self.pos) };
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        g < 8 && (p as usize) < NP && m == magic(p, g) && self.p.ok(p as usize)
    }
}
impl<P: Payload> Drop for E<P> {
    fn drop(&mut self) {
        let _s = mc::sys();
        if !self.valid() {
            l().report(|| "a destructor ran on memory that holds no live element".into());
            // do not run the payload's destructor on garbage
            unsafe { std::ptr::write(&mut self.p, P::make(0)) };
            return;
        }
        let p = self.pos as usize;
        if self.gen == 0 {
            l().dropped[p] = l().dropped[p].saturating_add(1);
            if l().dropped[p] + l().delivered[p] > 1 {
                let d = l().delivered[p];
                l().report(|| {
                    if d > 0 {
                        format!("element {p} was delivered to a caller and also destroyed")
                    } else {
                        format!("element {p} was destroyed twice")
                    }
                });
            }
        } else {
            l().clone_dropped += 1;
        }
        mc::effect();
        mc::trace(|| format!("    drop of element {p}{}", if self.gen > 0 { " (clone)" } else { "" }));
    }
}
fn clone_event() -> u32 {
    mc::effect();
    if l().clone_point {
        mc::point(0x0C10);
    }
    let (n, fail) = {
        let _s = mc::sys();
        let n = l().clones;
        (n, l().clone_panic_at == Some(n))
    };
    mc::note(n as u64 + 0xC1);
    if fail {
        {
            let _s = mc::sys();
            l().clone_panic_at = None;
            l().injected = true;
            mc::trace(|| "    injected panic in clone".into());
        }
        panic!("injected panic in clone");
    }
    let _s = mc::sys();
    l().clones += 1;
    mc::eng().probe_hash = mc::mix(mc::eng().probe_hash, 0xC10E);
    n
}
impl<P: Payload> Clone for E<P> {
    fn clone(&self) -> Self {
        clone_event();
        let _ok = self.valid();
        if !_ok {
            let _s = mc::sys();
            l().report(|| "clone of memory that holds no live element".into());
        }
        let g = self.gen + 1;
        E { magic: magic(self.pos, g), pos: self.pos, gen: g, p: P::make(self.pos as usize) }
    }
}

/// Zero-sized element with a destructor.
pub struct Z(());
impl Z {
    pub fn new() -> Self {
        l().z_created += 1;
        Z(())
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        l().z_dropped += 1;
    }
}

/// Copy element.
#[derive(Clone, Copy)]
pub struct K {
    magic: u64,
    pub pos: u32,
}
impl K {
    pub fn new(pos: usize) -> Self {
        K { magic: magic(pos as u32, 5), pos: pos as u32 }
    }
}

/// How a received element is identified: its source position (BADPOS if it is none).
pub trait Obs: Send + Sync {
    const ANON: bool = false;
    fn obs(self) -> usize;
}
impl<P: Payload> Obs for E<P> {
    fn obs(self) -> usize {
        let mut me = std::mem::ManuallyDrop::new(self);
        if !me.valid() {
            let _s = mc::sys();
            l().report(|| "a caller received memory that holds no live element".into());
            return BADPOS;
        }
        unsafe { std::ptr::drop_in_place(&mut me.p) };
        let _s = mc::sys();
        let p = me.pos as usize;
        if me.gen != l().expect_gen {
            let g = me.gen;
            l().report(|| format!("element {p} received has clone generation {g}"));
        }
        if me.gen == 0 {
            l().delivered[p] = l().delivered[p].saturating_add(1);
            if l().dropped[p] + l().delivered[p] > 1 {
                let d = l().dropped[p];
                l().report(|| {
                    if d > 0 {
                        format!("element {p} was destroyed and also delivered to a caller")
                    } else {
                        format!("element {p} was moved out to two callers")
                    }
                });
            }
        } else {
            l().clone_delivered += 1;
        }
        p
    }
}
fn ref_pos(a: usize) -> usize {
    let l = l();
    let d = a.wrapping_sub(l.src_base);
    if a >= l.src_base && d % l.src_stride == 0 && d / l.src_stride < l.src_len {
        d / l.src_stride
    } else {
        BADPOS
    }
}
impl<P: Payload> Obs for &E<P> {
    fn obs(self) -> usize {
        let p = ref_pos(self as *const E<P> as usize);
        let _s = mc::sys();
        if p == BADPOS {
            l().report(|| "a delivered reference does not point at an element of the source".into());
            return BADPOS;
        }
        if !self.valid() || self.pos as usize != p || self.gen != 0 {
            l().report(|| format!("element {p} of the source was modified or destroyed"));
        }
        p
    }
}
impl Obs for &K {
    fn obs(self) -> usize {
        let p = ref_pos(self as *const K as usize);
        let _s = mc::sys();
        if p == BADPOS {
            l().report(|| "a delivered reference does not point at an element of the source".into());
            return BADPOS;
        }
        if self.magic != magic(self.pos, 5) || self.pos as usize != p {
            l().report(|| format!("element {p} of the source was modified"));
        }
        p
    }
}
impl Obs for K {
    fn obs(self) -> usize {
        if self.magic != magic(self.pos, 5) {
            let _s = mc::sys();
            l().report(|| "a caller received memory that holds no element".into());
            return BADPOS;
        }
        self.pos as usize
    }
}
impl Obs for Z {
    const ANON: bool = true;
    fn obs(self) -> usize {
        l().z_delivered += 1;
        std::mem::forget(self);
        0
    }
}
impl Obs for usize {
    fn obs(self) -> usize {
        let l = l();
        let d = self.wrapping_sub(l.range_start);
        if self >= l.range_start && d < l.src_len {
            d
        } else {
            BADPOS
        }
    }
}

/// Instrumented sequential iterator that gets wrapped.
pub struct Probe<T> {
    pub pos: usize,
    pub len: usize,
    pub hint: u8,
    /// number of elements that would appear again after the first `None`
    pub revive: usize,
    pub panic_at: Option<usize>,
    pub calls: usize,
    pub point: bool,
    pub make: fn(usize) -> T,
}
pub struct ProbeMon {
    pub busy: i32,
    pub overlap: Option<String>,
}
pub static mut PM: ProbeMon = ProbeMon { busy: -1, overlap: None };
#[allow(static_mut_refs)]
pub fn pm() -> &'static mut ProbeMon {
    unsafe { &mut PM }
}
/// the wrapped iterator is used by `t`: nobody else may be inside it
fn overlap(t: usize, what: &str) {
    if pm().busy >= 0 && pm().busy != t as i32 && pm().overlap.is_none() {
        pm().overlap = Some(format!("{what}() of the wrapped iterator entered by T{t} while T{} is inside it", pm().busy));
    }
}
struct Leave(i32);
impl Drop for Leave {
    fn drop(&mut self) {
        pm().busy = self.0;
    }
}
impl<T> Iterator for Probe<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let t = mc::cur();
        let act = mc::active();
        mc::effect();
        if act {
            mc::exclude(self as *const Self as usize, std::mem::size_of::<Self>());
            let _s = mc::sys();
            overlap(t, "next");
            mc::obj_access(1, true, "wrapped iterator");
            mc::trace(|| format!("T{t}   enters next() of the wrapped iterator (call {})", self.calls));
        }
        let _l = Leave(pm().busy);
        if act {
            pm().busy = t as i32;
        }
        if self.point {
            mc::point(0x9001);
        }
        let c = self.calls;
        self.calls += 1;
        let p = self.pos;
        if act {
            let e = mc::eng();
            e.probe_hash = mc::mix(e.probe_hash, p as u64 + 1);
            mc::note(p as u64 + 0x7000);
        }
        if self.panic_at == Some(c) {
            {
                let _s = mc::sys();
                l().injected = true;
                mc::trace(|| "    injected panic in the wrapped iterator's next()".into());
            }
            panic!("injected panic in next");
        }
        if p < self.len || (p > self.len && p <= self.len + self.revive) {
            self.pos += 1;
            let i = if p < self.len { p } else { p - 1 };
            Some((self.make)(i))
        } else {
            if p == self.len {
                self.pos += 1;
            }
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if mc::active() {
            let _s = mc::sys();
            overlap(mc::cur(), "size_hint");
            mc::obj_access(1, false, "wrapped iterator");
        }
        let rem = self.len.saturating_sub(self.pos);
        match self.hint {
            0 => (rem, Some(rem)),
            1 => (0, None),
            2 => (0, Some(rem + 1)),
            3 => (rem, None),
            _ => (rem.saturating_sub(1), Some(rem)),
        }
    }
}
impl<T> ExactSizeIterator for Probe<T> {}
impl<P: Payload> E<P> {
    /// checks that this is still the untouched source element `i`
    pub fn obs_src(&self, i: usize) {
        if !self.valid() || self.pos as usize != i || self.gen != 0 {
            l().report(|| format!("element {i} of the source was modified or destroyed"));
        }
    }
}
