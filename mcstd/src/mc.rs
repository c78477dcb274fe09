//! Deterministic scheduler and exhaustive explorer.
//!
//! Virtual threads are stackful coroutines on one OS thread. Every operation of the shim
//! primitives is a scheduling point; the explorer enumerates all choices depth-first and prunes
//! states already visited. A state is: per-thread hash of everything the thread has observed,
//! the values of all atomic locations, harness monitor summaries and, when a mode needs them,
//! vector clocks / readable store histories. See DESIGN.md for the soundness argument.
use ::std::alloc::{GlobalAlloc, Layout, System};
use ::std::collections::{HashMap, HashSet};
use ::std::hash::{BuildHasherDefault, Hasher};
use ::std::panic::AssertUnwindSafe;
use ::std::sync::atomic::AtomicUsize as RealUsize;
use ::std::sync::atomic::Ordering;

pub const MAXT: usize = 5;
/// scheduling option: this thread goes on waiting
const IMPATIENT: u8 = 0x10;
const STACK: usize = 256 * 1024;
pub type Vc = [u16; MAXT];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Start,
    Load,
    Store,
    Rmw,
    Cas,
    Fence,
    Lock,
    Unlock,
    Point,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    /// all threads finished
    Complete,
    /// reached a visited state
    Pruned,
    /// no thread can make progress
    Stuck,
    /// a thread waits for another one although waiting is forbidden
    Waits,
    /// step limit
    Horizon,
    /// the harness reported a violation
    Violation,
}

#[derive(Clone, Copy)]
struct StreakEnt {
    addr: usize,
    ver: u32,
    kind: Kind,
    h0: u64,
    ph: u64,
    /// the thread's registers and stack just before the operation
    sh: u64,
}

struct Th {
    sp: usize,
    stack: *mut u8,
    h: u64,
    done: bool,
    spin: bool,
    pend: (usize, Kind),
    lock: Option<(*const RealUsize, bool)>,
    streak: Vec<StreakEnt>,
    vc: Vc,
    acq_pend: Vc,
    rel_fence: Vc,
    start_pending: bool,
    panicking: bool,
    solo_left: u32,
    size: u8,
    ph: u64,
    sh: u64,
}

#[derive(Clone)]
struct StoreRec {
    val: u64,
    sync: Vc,
    tid: usize,
    epoch: u16,
    seen: Vc,
}

struct Loc {
    addr: usize,
    val: u64,
    ver: u32,
    sync: Vc,
    stores: Vec<StoreRec>,
    last_sc: usize,
    size: u8,
    lock: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum NodeKind {
    Sched,
    Data,
}
struct Node {
    key: u64,
    kind: NodeKind,
    n: u8,
    choices: [u8; 8],
    cur: u8,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// maximal number of preemptions (None: unbounded)
    pub bound: Option<u32>,
    /// happens-before tracking is part of the state and races are checked
    pub race: bool,
    /// number of stale loads allowed per execution (0: sequentially consistent)
    pub stale: u32,
    /// number of spurious failures of weak compare-and-exchange per execution
    pub spurious: u32,
    /// one thread per execution may wait this many steps while all others are suspended (0: none);
    /// a wait that gives up, or escalates, within the limit is explored
    pub impatience: u32,
    /// waiting for another thread is a failure
    pub no_wait: bool,
    /// visited states do not end an execution (validation of the state abstraction)
    pub no_prune: bool,
    pub max_execs: u64,
    pub max_steps: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { bound: None, race: false, stale: 0, spurious: 0, impatience: 0, no_wait: false, no_prune: false, max_execs: u64::MAX, max_steps: 3000 }
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub execs: u64,
    pub complete: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_depth: u64,
    pub capped: bool,
    pub bounded: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    pub choices: Vec<u8>,
}

#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = mix(x as u64, 77)
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdH>>;

#[cfg_attr(not(orx_verif_tsan), inline)]
pub fn mix(a: u64, b: u64) -> u64 {
    let m = ((a ^ 0x9E37_79B9_7F4A_7C15) as u128)
        .wrapping_mul(((b ^ 0xC2B2_AE3D_27D4_EB4F) | 1) as u128 ^ 0xD6E8_FEB8_6659_FD93);
    let x = (m as u64) ^ ((m >> 64) as u64) ^ a.rotate_left(23) ^ b;
    (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9)
}

pub struct Engine {
    active: bool,
    starting: bool,
    cur: usize,
    n: usize,
    th: Vec<Th>,
    locs: Vec<Loc>,
    main_sp: usize,
    nodes: Vec<Node>,
    depth: usize,
    replay_len: usize,
    visited: IdSet,
    pub mon_hash: u64,
    pub probe_hash: u64,
    cfg: Cfg,
    stats: Stats,
    steps: u32,
    outcome: Outcome,
    viol: Option<String>,
    entry: Option<fn(*const (), usize)>,
    ctx: *const (),
    on_start: fn(usize),
    /// everything the harness knows that is not in the arena or on a coroutine's stack
    state: fn() -> u64,
    preempts: u32,
    last: usize,
    stale_used: u32,
    spur_used: u32,
    impat_used: bool,
    impatient: Option<usize>,
    impat_left: u32,
    skip_push: bool,
    grants: u32,
    solo: Option<usize>,
    verbose: bool,
    pub trace: Vec<String>,
    addr0: usize,
    /// (address/8) -> shadow
    shadow: HashMap<u64, Vec<Shadow>, BuildHasherDefault<IdH>>,
    obj: HashMap<u64, Shadow, BuildHasherDefault<IdH>>,
    pub races: Vec<String>,
    /// replay only (no branching beyond the recorded prefix)
    replay_only: bool,
    sc_vc: Vc,
    pub panic_msgs: Vec<(usize, String)>,
    pub plain_accesses: u64,
    /// sum over all shadow cells
    shadow_h: u64,
    snap: Vec<u64>,
    snap_base: usize,
    excl: Vec<(usize, usize)>,
    /// deepest stack seen at an operation
    deepest: usize,
    /// (address, size, owner): objects only their owner uses; operations on them are local steps
    private: Vec<(usize, usize, usize)>,
    /// another thread used one of them: explore again without the reduction
    private_off: bool,
    private_broken: bool,
    /// initial contents of the synchronisation primitives in static memory that have been used
    statics: Vec<(usize, u64, u8)>,
}

#[derive(Clone, Copy, Default)]
struct Shadow {
    mask: u8,
    wt: i8,
    we: u16,
    re: Vc,
}

impl Shadow {
    fn hash(&self, a: u64) -> u64 {
        let mut x = mix(a, (self.wt as u8 as u64) << 24 | (self.we as u64) << 8 | self.mask as u64);
        for r in self.re {
            x = mix(x, r as u64);
        }
        x
    }
}

static mut ENG: Option<Engine> = None;
static mut SYS: u32 = 1; // >0: engine/harness code: system allocator, accesses not tracked
static mut ACTIVE: bool = false;
static mut SCRUB: bool = false;

#[cfg_attr(not(orx_verif_tsan), inline)]
pub fn eng() -> &'static mut Engine {
    unsafe { ENG.as_mut().unwrap_unchecked() }
}
#[cfg_attr(not(orx_verif_tsan), inline)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[cfg_attr(not(orx_verif_tsan), inline)]
pub fn in_sys() -> bool {
    unsafe { SYS > 0 }
}

/// While alive: allocations go to the system allocator and plain accesses are not tracked.
pub struct Sys(());
#[cfg_attr(not(orx_verif_tsan), inline)]
pub fn sys() -> Sys {
    unsafe { SYS += 1 };
    Sys(())
}
impl Drop for Sys {
    #[cfg_attr(not(orx_verif_tsan), inline)]
    fn drop(&mut self) {
        unsafe { SYS -= 1 };
    }
}
/// Runs `f` as code under test (arena allocations).
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    let _g = UserG::enter();
    f()
}
struct UserG(u32);
impl UserG {
    #[cfg_attr(orx_verif_tsan, inline(never))]
    fn enter() -> Self {
        let g = UserG(unsafe { SYS });
        unsafe { SYS = 0 };
        g
    }
}
impl Drop for UserG {
    #[cfg_attr(orx_verif_tsan, inline(never))]
    fn drop(&mut self) {
        unsafe { SYS = self.0 };
    }
}

pub fn init(on_start: fn(usize), state: fn() -> u64) {
    unsafe {
        ENG = Some(Engine {
            active: false,
            starting: false,
            cur: 0,
            n: 0,
            th: Vec::new(),
            locs: Vec::new(),
            main_sp: 0,
            nodes: Vec::new(),
            depth: 0,
            replay_len: 0,
            visited: IdSet::default(),
            mon_hash: 0,
            probe_hash: 0,
            cfg: Cfg::default(),
            stats: Stats::default(),
            steps: 0,
            outcome: Outcome::Complete,
            viol: None,
            entry: None,
            ctx: ::std::ptr::null(),
            on_start,
            state,
            preempts: 0,
            last: usize::MAX,
            stale_used: 0,
            spur_used: 0,
            impat_used: false,
            impatient: None,
            impat_left: 0,
            skip_push: false,
            grants: 0,
            solo: None,
            verbose: false,
            trace: Vec::new(),
            addr0: 0,
            shadow: HashMap::default(),
            obj: HashMap::default(),
            races: Vec::new(),
            replay_only: false,
            sc_vc: [0; MAXT],
            panic_msgs: Vec::new(),
            plain_accesses: 0,
            shadow_h: 0,
            snap: Vec::new(),
            snap_base: 0,
            excl: Vec::new(),
            deepest: 8192,
            private: Vec::new(),
            private_off: false,
            private_broken: false,
            statics: Vec::new(),
        });
        arena_init();
    }
    for _ in 0..MAXT {
        let stack = unsafe { System.alloc(Layout::from_size_align(STACK, 4096).unwrap()) };
        eng().th.push(Th {
            sp: 0,
            stack,
            h: 0,
            done: false,
            spin: false,
            pend: (0, Kind::Start),
            lock: None,
            streak: Vec::with_capacity(16),
            vc: [0; MAXT],
            acq_pend: [0; MAXT],
            rel_fence: [0; MAXT],
            start_pending: false,
            panicking: false,
            solo_left: 0,
            size: 8,
            ph: 0,
            sh: 0,
        });
    }
    ::std::panic::set_hook(Box::new(|info| {
        let _s = sys();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let e = eng();
        let t = if unsafe { ACTIVE } { e.cur } else { usize::MAX };
        if unsafe { ACTIVE } {
            e.th[e.cur].panicking = true;
        }
        if e.verbose {
            let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            e.trace.push(format!("T{t} panics: {msg} at {l}"));
        }
        if unsafe { !ACTIVE } && unsafe { SYS } > 1 && !in_user_main() {
            eprintln!("harness panic: {msg} {:?}", info.location());
        }
        if e.panic_msgs.len() < 64 {
            e.panic_msgs.push((t, msg));
        }
    }));
}
static mut USER_MAIN: bool = false;
fn in_user_main() -> bool {
    unsafe { USER_MAIN }
}

/// catch_unwind that also tracks the per-coroutine panicking state
pub fn catch<R>(f: impl FnOnce() -> R) -> ::std::thread::Result<R> {
    let g = catch_enter();
    scrub();
    let r = ::std::panic::catch_unwind(AssertUnwindSafe(f));
    catch_leave(g, r.is_err());
    r
}
#[cfg_attr(orx_verif_tsan, inline(never))]
fn catch_enter() -> (u32, bool, bool) {
    unsafe {
        let g = (SYS, USER_MAIN, active() && cur_panicking());
        USER_MAIN = true;
        g
    }
}
#[cfg_attr(orx_verif_tsan, inline(never))]
fn catch_leave((s, um, was): (u32, bool, bool), err: bool) {
    unsafe {
        SYS = s;
        USER_MAIN = um;
    }
    if err && active() {
        eng().th[eng().cur].panicking = was;
    }
}
pub fn cur_panicking() -> bool {
    eng().th[eng().cur].panicking
}
pub fn hint_yield() {}

// ---------------------------------------------------------------- context switch

::std::arch::global_asm!(
    ".global orx_mc_switch",
    "orx_mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
unsafe extern "C" {
    fn orx_mc_switch(save: *mut usize, to: usize);
}

extern "C" fn coro_entry() -> ! {
    {
        let e = eng();
        let t = e.cur;
        let f = e.entry.unwrap();
        let ctx = e.ctx;
        unsafe { SYS = 0 };
        let r = ::std::panic::catch_unwind(AssertUnwindSafe(|| f(ctx, t)));
        unsafe { SYS = 1 };
        if r.is_err() {
            eng().viol.get_or_insert("panic escaped the thread body".into());
        }
        drop(r);
    }
    let e = eng();
    let t = e.cur;
    e.th[t].done = true;
    e.th[t].pend = (0, Kind::Done);
    e.th[t].streak.clear();
    // a finished thread's knowledge is irrelevant except through its hash
    if e.starting {
        e.to_main();
    }
    e.dispatch();
    unreachable!()
}

impl Engine {
    fn reset_stack(&mut self, t: usize) {
        unsafe {
            let top = (self.th[t].stack as usize + STACK) & !15;
            // what earlier executions left behind is not part of the state
            ::std::ptr::write_bytes((top - self.deepest) as *mut u8, 0, self.deepest);
            let p = (top - 16) as *mut usize;
            *p.add(1) = 0;
            *p = coro_entry as *const () as usize;
            for i in 1..=6 {
                *p.sub(i) = 0;
            }
            self.th[t].sp = p as usize - 48;
        }
    }

    /// suspends the current coroutine for good (or until `starting` resumes it)
    fn to_main(&mut self) {
        let t = self.cur;
        let save = &mut self.th[t].sp as *mut usize;
        let to = self.main_sp;
        unsafe { orx_mc_switch(save, to) };
    }

    fn finish(&mut self, o: Outcome) -> ! {
        self.outcome = o;
        self.to_main();
        unreachable!()
    }

    /// switch from coroutine `self.cur` to `t`
    fn switch(&mut self, t: usize) {
        let c = self.cur;
        if c == t {
            return;
        }
        self.cur = t;
        let save = &mut self.th[c].sp as *mut usize;
        let to = self.th[t].sp;
        unsafe { orx_mc_switch(save, to) };
    }

    fn loc_idx(&self, addr: usize) -> Option<usize> {
        self.locs.iter().position(|l| l.addr == addr)
    }
    fn loc_ver(&self, addr: usize) -> u32 {
        self.loc_idx(addr).map(|i| self.locs[i].ver).unwrap_or(0)
    }
    fn loc(&mut self, addr: usize, cur: u64) -> &mut Loc {
        let size = self.th[self.cur].size;
        match self.loc_idx(addr) {
            Some(i) => &mut self.locs[i],
            None => {
                let st = StoreRec { val: cur, sync: [0; MAXT], tid: usize::MAX, epoch: 0, seen: [0; MAXT] };
                self.locs.push(Loc {
                    addr,
                    val: cur,
                    ver: 0,
                    sync: [0; MAXT],
                    stores: vec![st],
                    last_sc: 0,
                    size,
                    lock: false,
                });
                self.locs.last_mut().unwrap()
            }
        }
    }

    fn spin_blocked(&self, t: usize) -> bool {
        let th = &self.th[t];
        th.spin && th.streak.iter().all(|s| self.loc_ver(s.addr) == s.ver)
    }
    fn lock_blocked(&self, t: usize) -> bool {
        let th = &self.th[t];
        match th.lock {
            Some((p, write)) => {
                let s = unsafe { (*p).load(Ordering::Relaxed) };
                !(if write { s == 0 } else { s != usize::MAX })
            }
            None => false,
        }
    }

    fn take_snapshot(&mut self) {
        let (b, t) = unsafe { (A_BASE, A_TOPS[0]) };
        self.snap_base = b;
        self.snap.clear();
        let n = (t - b + 7) / 8;
        for i in 0..n {
            self.snap.push(unsafe { *((b + i * 8) as *const u64) });
        }
    }
    /// Hash of all bytes of memory allocated before the threads started that changed since, apart
    /// from atomics and registered probe objects: plain shared state of the code under test.
    fn plain_hash(&self) -> u64 {
        let mut acc = 0u64;
        for i in 0..self.snap.len() {
            let a = self.snap_base + i * 8;
            let now = unsafe { ::std::ptr::read_volatile(a as *const u64) };
            let mut x = now ^ self.snap[i];
            if x == 0 {
                continue;
            }
            for l in &self.locs {
                if !l.lock && l.addr & !7 == a {
                    let m = if l.size >= 8 { u64::MAX } else { (1u64 << (l.size * 8)) - 1 };
                    x &= !(m << ((l.addr & 7) * 8));
                }
            }
            for (s, n) in &self.excl {
                for b in 0..8 {
                    if a + b >= *s && a + b < s + n {
                        x &= !(0xffu64 << (b * 8));
                    }
                }
            }
            if x != 0 {
                acc = acc.wrapping_add(mix(mix(i as u64, x), 0x9999));
            }
        }
        acc
    }

    /// Everything each thread has observed, which determines what it has done.
    fn hist_key(&self) -> u64 {
        let mut k = mix(self.mon_hash, self.probe_hash);
        for t in 0..self.n {
            let th = &self.th[t];
            k = mix(mix(k, th.h), th.pend.0.wrapping_sub(self.addr0) as u64);
        }
        k
    }

    /// What decides later race reports and which stores may still be read.
    fn order_key(&self) -> u64 {
        let mut k = self.races.len() as u64;
        for t in 0..self.n {
            let th = &self.th[t];
            for x in th.vc.iter().chain(th.acq_pend.iter()).chain(th.rel_fence.iter()) {
                k = mix(k, *x as u64);
            }
        }
        let mut acc = 0u64;
        for l in &self.locs {
            let mut x = l.addr.wrapping_sub(self.addr0) as u64;
            for v in l.sync {
                x = mix(x, v as u64);
            }
            if self.cfg.stale > 0 {
                x = mix(x, l.last_sc as u64);
                for s in &l.stores {
                    x = mix(x, s.val);
                    x = mix(x, (s.tid as u64) << 16 | s.epoch as u64);
                    for i in 0..MAXT {
                        x = mix(x, (s.sync[i] as u64) << 16 | s.seen[i] as u64);
                    }
                }
            }
            acc = acc.wrapping_add(x); // order-independent
        }
        for v in self.sc_vc {
            k = mix(k, v as u64);
        }
        k = mix(k, acc);
        if self.cfg.race {
            let mut acc = 0u64;
            for (a, s) in &self.obj {
                acc = acc.wrapping_add(s.hash(*a));
            }
            k = mix(k, acc);
            k = mix(k, self.shadow_h);
        }
        k
    }

    /// The state itself: stacks and registers of the threads, memory, atomics, monitors.
    fn full_key(&self) -> u64 {
        let mut k = (self.state)();
        for t in 0..self.n {
            let th = &self.th[t];
            if th.done {
                k = mix(k, 0xD0);
                continue;
            }
            k = mix(k, th.sh);
            k = mix(
                k,
                (th.spin && self.spin_blocked(t)) as u64
                    | (th.panicking as u64) << 2
                    | (th.pend.1 as u64) << 3
                    | (th.start_pending as u64) << 8,
            );
            k = mix(k, th.pend.0.wrapping_sub(self.addr0) as u64);
        }
        let mut acc = 0u64;
        for l in &self.locs {
            // (a lock begins with its state)
            let v = if l.lock { unsafe { ::std::ptr::read_volatile(l.addr as *const u64) } } else { l.val };
            acc = acc.wrapping_add(mix(l.addr.wrapping_sub(self.addr0) as u64, v));
        }
        k = mix(k, acc);
        k = mix(k, arena_hash(self.n));
        if self.cfg.race || self.cfg.stale > 0 {
            k = mix(k, self.order_key());
        }
        if self.cfg.bound.is_some() {
            k = mix(k, (self.last as u64) << 8 | self.preempts as u64);
        }
        if self.cfg.stale > 0 {
            k = mix(k, self.stale_used as u64);
        }
        if self.cfg.spurious > 0 {
            k = mix(k, self.spur_used as u64);
        }
        if self.cfg.impatience > 0 {
            k = mix(k, self.impat_used as u64);
        }
        k
    }

    fn choose(&mut self, kind: NodeKind, opts: &[u8], salt: u64) -> u8 {
        debug_assert!(opts.len() > 1);
        // a data choice belongs to the running thread
        let who = if kind == NodeKind::Data { self.cur as u64 + 1 } else { 0 };
        let salt = salt | who << 8;
        let d = self.depth;
        self.depth += 1;
        if d < self.replay_len {
            let nd = &self.nodes[d];
            if nd.n as usize != opts.len() || nd.kind != kind || nd.choices[..opts.len()] != *opts {
                if !self.replay_only || nd.n != 0 {
                    eprintln!("FATAL: nondeterminism while replaying a prefix (depth {d})");
                    ::std::process::exit(3);
                }
            } else if (d + 1 == self.replay_len || self.stats.execs & 31 == 0) && nd.key != mix(self.hist_key(), salt) {
                eprintln!("FATAL: nondeterminism while replaying a prefix (depth {d})");
                ::std::process::exit(3);
            }
            let c = nd.cur as usize;
            if c >= opts.len() {
                eprintln!("FATAL: recorded choice {c} out of range at depth {d}");
                ::std::process::exit(3);
            }
            return opts[c];
        }
        let key = mix(self.hist_key(), salt);
        if !self.visited.insert(mix(self.full_key(), salt)) && !self.cfg.no_prune {
            self.depth -= 1;
            self.finish(Outcome::Pruned);
        }
        let mut choices = [0u8; 8];
        choices[..opts.len()].copy_from_slice(opts);
        self.nodes.push(Node { key, kind, n: opts.len() as u8, choices, cur: 0 });
        opts[0]
    }

    /// picks the next thread and switches to it; returns when this coroutine is scheduled again
    fn dispatch(&mut self) {
        let t = self.pick();
        self.switch(t);
    }

    fn pick(&mut self) -> usize {
        if let Some(t) = self.solo {
            if !self.th[t].done {
                return t;
            }
            self.solo = None;
        }
        let mut opts = [0u8; 8];
        let mut n = 0;
        let mut unfinished = 0;
        let last = self.last;
        let mut last_enabled = false;
        // the running thread first, then ascending ids
        for i in 0..=self.n {
            let t = if i == 0 {
                if last >= self.n {
                    continue;
                }
                last
            } else {
                i - 1
            };
            if i > 0 && t == last {
                continue;
            }
            if self.th[t].done {
                continue;
            }
            unfinished += 1;
            if self.lock_blocked(t) {
                if self.cfg.no_wait {
                    self.finish(Outcome::Waits);
                }
                continue;
            }
            if self.spin_blocked(t) {
                continue;
            }
            if t == last {
                last_enabled = true;
            }
            opts[n] = t as u8;
            n += 1;
        }
        if unfinished == 0 {
            self.finish(Outcome::Complete);
        }
        if n == 0 && self.time_passes() {
            return self.pick();
        }
        if n == 0 {
            // only spinning (or lock-blocked) threads: let a spinner continue for a while, it may
            // be a bounded wait
            for t in 0..self.n {
                let t = (t + self.grants as usize) % self.n;
                if !self.th[t].done && self.th[t].spin && !self.lock_blocked(t) {
                    self.grants += 1;
                    if self.grants > 600 {
                        self.finish(Outcome::Stuck);
                    }
                    return t;
                }
            }
            self.finish(Outcome::Stuck);
        }
        if n > 0 && self.cfg.impatience > 0 && !self.impat_used {
            for t in 0..self.n {
                if !self.th[t].done && !self.lock_blocked(t) && self.spin_blocked(t) && n < 8 {
                    opts[n] = t as u8 | IMPATIENT;
                    n += 1;
                }
            }
        }
        if n > 1 {
            if let Some(b) = self.cfg.bound {
                if last_enabled && self.preempts >= b {
                    self.stats.bounded = true;
                    n = 1;
                }
            }
        }
        let mut c = if n == 1 { opts[0] as usize } else { self.choose(NodeKind::Sched, &opts[..n], 1) as usize };
        if c & IMPATIENT as usize != 0 {
            c &= !(IMPATIENT as usize);
            self.impat_used = true;
            self.impatient = Some(c);
            self.impat_left = self.cfg.impatience;
            self.tick();
            if self.verbose {
                self.trace.push(format!("T{c} keeps waiting while all others are suspended"));
            }
        }
        if last_enabled && c != last {
            self.preempts += 1;
        }
        c
    }

    fn begin_run(&mut self) {
        self.depth = 0;
        self.replay_len = self.nodes.len();
        self.mon_hash = 0;
        self.probe_hash = 0;
        self.steps = 0;
        self.viol = None;
        self.preempts = 0;
        self.last = usize::MAX;
        self.stale_used = 0;
        self.spur_used = 0;
        self.impat_used = false;
        self.impatient = None;
        self.skip_push = false;
        self.grants = 0;
        self.solo = None;
        self.locs.clear();
        self.shadow.clear();
        self.obj.clear();
        self.races.clear();
        self.sc_vc = [0; MAXT];
        self.panic_msgs.clear();
        self.trace.clear();
        self.shadow_h = 0;
        self.excl.clear();
        self.private.clear();
        for (a, v, n) in &self.statics {
            unsafe {
                match n {
                    1 => *(*a as *mut u8) = *v as u8,
                    2 => *(*a as *mut u16) = *v as u16,
                    4 => *(*a as *mut u32) = *v as u32,
                    _ => *(*a as *mut u64) = *v,
                }
            }
        }
        arena_reset();
    }
}

/// Runs `n` threads to completion under the explorer. Called by the harness once per execution,
/// in engine mode.
pub fn go(n: usize, entry: fn(*const (), usize), ctx: *const (), addr0: usize) -> Outcome {
    assert!(n <= MAXT);
    let e = eng();
    e.n = n;
    e.entry = Some(entry);
    e.ctx = ctx;
    e.addr0 = addr0;
    for t in 0..n {
        e.reset_stack(t);
        let th = &mut e.th[t];
        th.h = mix(t as u64, 0xABCD);
        th.done = false;
        th.spin = false;
        th.pend = (0, Kind::Start);
        th.lock = None;
        th.streak.clear();
        th.vc = [0; MAXT];
        th.vc[t] = 1;
        th.acq_pend = [0; MAXT];
        th.rel_fence = [0; MAXT];
        th.start_pending = false;
        th.panicking = false;
        th.solo_left = 0;
        th.size = 8;
        th.ph = 0;
    }
    e.take_snapshot();
    unsafe {
        ACTIVE = true;
        SCRUB = true;
    };
    e.outcome = Outcome::Complete;
    e.starting = true;
    let save_sys = unsafe { SYS };
    for t in 0..n {
        e.cur = t;
        unsafe { orx_mc_switch(&mut e.main_sp as *mut usize, e.th[t].sp) };
        unsafe { SYS = save_sys };
        if e.outcome != Outcome::Complete {
            break;
        }
    }
    e.starting = false;
    if e.outcome == Outcome::Complete && n > 0 {
        // pick() may call finish(), which needs to be on a coroutine stack; emulate from main
        let all_done = (0..n).all(|t| e.th[t].done);
        if !all_done {
            let t = e.pick_main();
            if let Some(t) = t {
                e.cur = t;
                unsafe { orx_mc_switch(&mut e.main_sp as *mut usize, e.th[t].sp) };
            }
        }
    }
    unsafe {
        SYS = save_sys;
        ACTIVE = false;
        SCRUB = false;
    }
    e.outcome
}

impl Engine {
    fn pick_main(&mut self) -> Option<usize> {
        // run pick() on a scratch coroutine so that finish() works
        extern "C" fn picker() -> ! {
            let e = eng();
            let t = e.pick();
            e.cur = t;
            let to = e.th[t].sp;
            let mut dummy = 0usize;
            unsafe { orx_mc_switch(&mut dummy, to) };
            unreachable!()
        }
        // use the stack slot of a fifth, never used, virtual thread
        let t = MAXT - 1;
        assert!(self.n < MAXT);
        unsafe {
            let top = (self.th[t].stack as usize + STACK) & !15;
            let p = (top - 16) as *mut usize;
            *p.add(1) = 0;
            *p = picker as *const () as usize;
            for i in 1..=6 {
                *p.sub(i) = 0;
            }
            self.th[t].sp = p as usize - 48;
        }
        Some(t)
    }
}

// ---------------------------------------------------------------- operations

/// Registers harness-owned memory whose changes are summarised by `probe_hash` instead.
pub fn exclude(addr: usize, size: usize) {
    let _s = sys();
    let e = eng();
    if !e.excl.contains(&(addr, size)) {
        e.excl.push((addr, size));
    }
}

pub fn pre(addr: usize, kind: Kind) {
    pre_sz(addr, kind, 8)
}

#[inline(always)]
pub fn pre_sz(addr: usize, kind: Kind, size: u8) {
    unsafe { orx_mc_pre(addr, kind as usize, size as usize) }
}

// Callee-saved registers are pushed so that [rsp, top of the coroutine's stack) holds the whole
// local state of the thread.
::std::arch::global_asm!(
    ".global orx_mc_pre",
    "orx_mc_pre:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov rcx, rsp",
    "sub rsp, 8",
    "call {inner}",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    inner = sym pre_inner,
);
unsafe extern "C" {
    fn orx_mc_pre(addr: usize, kind: usize, size: usize);
}

#[inline(always)]
fn stack_hash(from: usize, to: usize) -> u64 {
    let mut h: u64 = 0x1234_5678;
    unsafe {
        ::std::arch::asm!(
            "2:",
            "xor {h}, [{p}]",
            "imul {h}, {k}",
            "rol {h}, 29",
            "add {p}, 8",
            "cmp {p}, {e}",
            "jb 2b",
            h = inout(reg) h,
            p = inout(reg) from => _,
            e = in(reg) to,
            k = in(reg) 0x9E37_79B9_7F4A_7C15u64,
            options(nostack, readonly)
        );
    }
    h
}

/// A wait that shows no fixpoint of the local state (it counts its rounds, say) is recognised
/// after this many rounds in which the thread saw nothing new.
const ROUNDS: usize = 6;

extern "C" fn pre_inner(addr: usize, kind: usize, size: usize, sp: usize) {
    let _s = sys();
    let kind = match kind {
        1 => Kind::Load,
        2 => Kind::Store,
        3 => Kind::Rmw,
        4 => Kind::Cas,
        5 => Kind::Fence,
        6 => Kind::Lock,
        7 => Kind::Unlock,
        _ => Kind::Point,
    };
    let e = eng();
    let t = e.cur;
    if e.impatient == Some(t) && e.impat_left > 0 && e.impatient_round(t, addr, kind) {
        return;
    }
    e.th[t].size = size as u8;
    e.th[t].pend = (addr, kind);
    let top = (e.th[t].stack as usize + STACK) & !15;
    let sh = stack_hash(sp, top);
    e.th[t].sh = sh;
    e.deepest = e.deepest.max((top - sp + 4096).min(STACK - 4096));
    if !e.private_off {
        if let Some((_, _, o)) = e.private.iter().find(|(a, n, _)| addr >= *a && addr < a + n) {
            if *o == t {
                if e.th[t].start_pending {
                    e.th[t].start_pending = false;
                    (e.on_start)(t);
                }
                e.steps += 1;
                if e.steps > e.cfg.max_steps {
                    e.finish(Outcome::Horizon);
                }
                return;
            }
            e.private_broken = true;
        }
    }
    if matches!(kind, Kind::Load | Kind::Cas | Kind::Rmw) {
        let ver = e.loc_ver(addr);
        let same = |s: &StreakEnt| s.addr == addr && s.ver == ver && s.kind == kind;
        if e.impatient == Some(t) {
            if let Some(p) = e.th[t].streak.iter().position(same) {
                if e.th[t].streak[p].ph == e.plain_hash() {
                    // one more round of the wait: no scheduling point
                    if e.impat_left == 0 {
                        e.finish(Outcome::Pruned);
                    }
                    e.impat_left -= 1;
                    e.th[t].h = e.th[t].streak[p].h0;
                    e.skip_push = true;
                    return;
                }
            }
        } else if let Some(p) = e.waiting(t, same, sh) {
            if e.cfg.no_wait {
                if e.solo != Some(t) {
                    e.solo = Some(t);
                    e.th[t].solo_left = 300;
                }
                if e.th[t].solo_left == 0 {
                    e.finish(Outcome::Waits);
                }
                e.th[t].solo_left -= 1;
            } else {
                e.th[t].h = e.th[t].streak[p].h0;
                e.th[t].streak.drain(..p);
                e.th[t].spin = true;
            }
        }
    }
    end_impatience(t);
    if e.starting {
        e.to_main();
    } else {
        e.dispatch();
    }
    resumed();
}

impl Engine {
    /// one more round of an impatient wait: not a scheduling point
    #[inline]
    fn impatient_round(&mut self, t: usize, addr: usize, kind: Kind) -> bool {
        if !matches!(kind, Kind::Load | Kind::Cas | Kind::Rmw) {
            return false;
        }
        let ver = self.loc_ver(addr);
        let ph = self.plain_hash();
        let th = &mut self.th[t];
        match th.streak.iter().find(|s| s.addr == addr && s.ver == ver && s.kind == kind) {
            Some(s) if s.ph == ph => {
                th.h = s.h0;
                th.pend = (addr, kind);
                self.impat_left -= 1;
                self.skip_push = true;
                true
            }
            _ => false,
        }
    }
    /// Is the thread back at the same operation, in the same local state, with everything it has
    /// observed since unchanged? Returns the first entry of the round.
    fn waiting(&self, t: usize, same: impl Fn(&StreakEnt) -> bool, sh: u64) -> Option<usize> {
        let st = &self.th[t].streak;
        let mut ph = None;
        let mut exact = None;
        let (mut rounds, mut last) = (0, 0);
        for p in (0..st.len()).rev() {
            let s = &st[p];
            if s.ph != *ph.get_or_insert_with(|| self.plain_hash()) || self.loc_ver(s.addr) != s.ver {
                break;
            }
            if same(s) {
                if s.sh == sh {
                    exact = Some(p);
                    break;
                }
                rounds += 1;
                if rounds == 1 {
                    last = p;
                }
            }
        }
        if exact.is_some() {
            exact
        } else if rounds >= ROUNDS {
            Some(last)
        } else {
            None
        }
    }
}

/// Clears the dead part of the stack: what is left there is not part of the state.
#[inline(always)]
pub fn scrub() {
    unsafe {
        if !SCRUB {
            return;
        }
        ::std::arch::asm!(
            "lea rdi, [rsp - 4096]",
            "xor eax, eax",
            "mov ecx, 512",
            "rep stosq",
            out("rdi") _, out("rax") _, out("rcx") _,
        );
    }
}

/// The current thread did something that its stack may not show (it called into the harness).
pub fn effect() {
    if active() {
        let e = eng();
        e.th[e.cur].streak.clear();
    }
}

/// the wait of an impatient thread is over
fn end_impatience(t: usize) {
    let e = eng();
    if e.impatient == Some(t) {
        e.impatient = None;
        e.th[t].h = mix(e.th[t].h, 0x1a9);
        e.th[t].streak.clear();
        if e.verbose {
            e.trace.push(format!("T{t} stops waiting"));
        }
    }
}

fn resumed() {
    let e = eng();
    let t = e.cur;
    e.last = t;
    e.steps += 1;
    let ph = e.plain_hash();
    e.th[t].ph = ph;
    if ph != 0 {
        e.th[t].h = mix(e.th[t].h, ph);
    }
    if e.depth >= e.replay_len {
        e.stats.transitions += 1;
    }
    if e.steps > e.cfg.max_steps {
        e.finish(Outcome::Horizon);
    }
    if e.th[t].spin {
        e.th[t].spin = false;
        if e.impatient == Some(t) {
            e.skip_push = true;
        } else {
            e.th[t].streak.clear();
        }
    }
    if e.th[t].start_pending {
        e.th[t].start_pending = false;
        (e.on_start)(t);
    }
}

pub fn pre_lock(addr: usize, state: *const RealUsize, write: bool) {
    {
        let _s = sys();
        let e = eng();
        e.th[e.cur].lock = Some((state, write));
    }
    pre(addr, Kind::Lock);
    let e = eng();
    e.th[e.cur].lock = None;
}

/// A scheduling point that is not an atomic operation (harness probes).
pub fn point(id: usize) {
    if !active() {
        return;
    }
    pre(id, Kind::Point);
    let e = eng();
    e.th[e.cur].streak.clear();
}

/// Mixes an observation into the current thread's state.
pub fn note(x: u64) {
    if active() {
        let e = eng();
        let t = e.cur;
        e.th[t].h = mix(e.th[t].h, x);
        e.th[t].streak.clear();
    }
}

unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// A synchronisation primitive is about to be used. One in static memory outlives an execution: its
/// initial content is restored before the next one.
#[inline]
pub fn touch(addr: usize, size: usize) {
    unsafe {
        if addr < &raw const __data_start as usize || addr >= &raw const _end as usize {
            return;
        }
    }
    let _s = sys();
    let e = eng();
    if !e.statics.iter().any(|s| s.0 == addr) {
        let v = unsafe {
            match size {
                1 => *(addr as *const u8) as u64,
                2 => *(addr as *const u16) as u64,
                4 => *(addr as *const u32) as u64,
                _ => *(addr as *const u64),
            }
        };
        e.statics.push((addr, v, size as u8));
    }
}

/// Registers an object that belongs to the current thread.
pub fn private(addr: usize, size: usize) {
    if active() {
        let _s = sys();
        let e = eng();
        let t = e.cur;
        e.private.push((addr, size, t));
    }
}

/// Start of an API call; `on_start` runs just before its first step.
pub fn op_begin() {
    if active() {
        let e = eng();
        let t = e.cur;
        e.th[t].start_pending = true;
        e.th[t].streak.clear();
    }
}
/// The virtual clock. It stands still until every thread waits, one of them for a point in time, or
/// until a thread keeps waiting for long.
pub static CLOCK: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0);
pub const HOUR: u64 = 3600;

pub fn clock() -> u64 {
    let addr = &CLOCK as *const _ as usize;
    touch(addr, 8);
    if active() {
        pre_sz(addr, Kind::Load, 8);
        let e = eng();
        let stale = ::std::mem::take(&mut e.cfg.stale);
        do_load(addr, Ordering::SeqCst, CLOCK.load(Ordering::Relaxed));
        eng().cfg.stale = stale;
    }
    CLOCK.load(Ordering::Relaxed)
}

impl Engine {
    fn tick(&mut self) {
        let addr = &CLOCK as *const _ as usize;
        if let Some(i) = self.loc_idx(addr) {
            let now = CLOCK.load(Ordering::Relaxed) + HOUR;
            CLOCK.store(now, Ordering::Relaxed);
            self.locs[i].ver += 1;
            self.locs[i].val = now;
            if self.verbose {
                self.trace.push("time passes".into());
            }
        }
    }
    /// Nobody can go on: does somebody wait for a point in time?
    fn time_passes(&mut self) -> bool {
        let addr = &CLOCK as *const _ as usize;
        let waits = (0..self.n).any(|t| {
            let th = &self.th[t];
            !th.done && !self.lock_blocked(t) && th.streak.iter().any(|s| s.addr == addr)
        });
        let go = waits && CLOCK.load(Ordering::Relaxed) < 8 * HOUR;
        if go {
            self.tick();
        }
        go
    }
}

/// The virtual thread that is running.
pub fn current() -> usize {
    if active() { eng().cur } else { MAXT - 1 }
}

/// End of an API call; returns true if the call had no step (on_start was not run)
pub fn op_end() -> bool {
    if active() {
        let e = eng();
        let t = e.cur;
        end_impatience(t);
        e.th[t].streak.clear();
        if e.solo == Some(t) {
            e.solo = None;
        }
        let r = e.th[t].start_pending;
        e.th[t].start_pending = false;
        r
    } else {
        true
    }
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        a[i] = a[i].max(b[i]);
    }
}

fn tr(what: &str, addr: usize, o: Ordering, old: u64, new: Option<u64>) {
    let e = eng();
    if e.verbose {
        let a = e.loc_idx(addr).map(|i| format!("loc{i}")).unwrap_or_default();
        let v = match new {
            Some(n) => format!("{} -> {}", show(old), show(n)),
            None => show(old),
        };
        let t = e.cur;
        e.trace.push(format!("T{t} {what} {a} {o:?} {v}"));
    }
}
fn show(x: u64) -> String {
    if x > u64::MAX - 1000 { format!("MAX-{}", u64::MAX - x) } else { x.to_string() }
}

pub fn do_load(addr: usize, o: Ordering, cur: u64) -> u64 {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    e.loc(addr, cur);
    let li = e.loc_idx(addr).unwrap();
    let mut val = cur;
    let mut sync = e.locs[li].sync;
    let ver = e.locs[li].ver;
    if e.cfg.stale > 0 {
        let newest = e.locs[li].stores.len() - 1;
        let mut idx = newest;
        if e.stale_used < e.cfg.stale {
            // oldest store this thread may still read
            let vc = e.th[t].vc;
            let l = &e.locs[li];
            let mut lo = 0;
            for i in (0..=newest).rev() {
                let s = &l.stores[i];
                let known = s.tid == usize::MAX
                    || s.tid == t
                    || s.epoch <= vc[s.tid]
                    || (0..MAXT).any(|u| s.seen[u] > 0 && s.seen[u] <= vc[u]);
                if known {
                    lo = i;
                    break;
                }
            }
            if o == Ordering::SeqCst {
                lo = lo.max(l.last_sc);
            }
            let n = (newest - lo + 1).min(8);
            if n > 1 {
                let opts = [0u8, 1, 2, 3, 4, 5, 6, 7];
                let back = e.choose(NodeKind::Data, &opts[..n], 2) as usize;
                idx = newest - back;
                if back > 0 {
                    e.stale_used += 1;
                }
            }
        }
        let ep = e.th[t].vc[t];
        let s = &mut e.locs[li].stores[idx];
        val = s.val;
        sync = s.sync;
        if s.seen[t] == 0 {
            s.seen[t] = ep;
        }
        e.th[t].vc[t] += 1;
    }
    let th = &mut e.th[t];
    if is_acq(o) {
        join(&mut th.vc, &sync);
    } else {
        join(&mut th.acq_pend, &sync);
    }
    let h0 = th.h;
    th.h = mix(mix(th.h, addr.wrapping_sub(e.addr0) as u64), val.wrapping_add(0x11));
    if !::std::mem::take(&mut e.skip_push) {
        th.streak.push(StreakEnt { addr, ver, kind: Kind::Load, h0, ph: th.ph, sh: th.sh });
    }
    tr(if val == cur { "load" } else { "load(stale)" }, addr, o, val, None);
    val
}

/// Does a weak compare-and-exchange that could succeed fail spuriously?
pub fn spurious() -> bool {
    let e = eng();
    if e.spur_used >= e.cfg.spurious {
        return false;
    }
    let _s = sys();
    let c = e.choose(NodeKind::Data, &[0, 1], 4);
    if c != 0 {
        e.spur_used += 1;
    }
    c != 0
}
/// A spurious failure is no wait for another thread.
pub fn do_cas_spurious(addr: usize, o: Ordering, cur: u64) {
    do_cas_fail(addr, o, cur);
    let e = eng();
    let t = e.cur;
    e.th[t].h = mix(e.th[t].h, 0x5b0);
    e.th[t].streak.clear();
}

pub fn do_cas_fail(addr: usize, o: Ordering, cur: u64) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let l = e.loc(addr, cur);
    let (sync, ver) = (l.sync, l.ver);
    let th = &mut e.th[t];
    if is_acq(o) {
        join(&mut th.vc, &sync);
    } else {
        join(&mut th.acq_pend, &sync);
    }
    let h0 = th.h;
    th.h = mix(mix(th.h, addr.wrapping_sub(e.addr0) as u64), cur.wrapping_add(0x77));
    if !::std::mem::take(&mut e.skip_push) {
        th.streak.push(StreakEnt { addr, ver, kind: Kind::Cas, h0, ph: th.ph, sh: th.sh });
    }
    tr("cas-fail", addr, o, cur, None);
}

fn push_store(e: &mut Engine, addr: usize, val: u64, sync: Vc, o: Ordering) {
    let t = e.cur;
    let ep = e.th[t].vc[t];
    let stale = e.cfg.stale > 0;
    let i = e.loc_idx(addr).unwrap();
    let l = &mut e.locs[i];
    l.sync = sync;
    l.val = val;
    if stale {
        let mut seen = [0; MAXT];
        seen[t] = ep;
        l.stores.push(StoreRec { val, sync, tid: t, epoch: ep, seen });
        if o == Ordering::SeqCst {
            l.last_sc = l.stores.len() - 1;
        }
    }
    e.th[t].vc[t] += 1;
}

pub fn do_store(addr: usize, o: Ordering, old: u64, new: u64) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let l = e.loc(addr, old);
    if old != new {
        l.ver += 1;
    }
    let sync = if is_rel(o) { e.th[t].vc } else { e.th[t].rel_fence };
    push_store(e, addr, new, sync, o);
    let th = &mut e.th[t];
    th.h = mix(mix(th.h, addr.wrapping_sub(e.addr0) as u64), new.wrapping_add(0x22));
    th.streak.clear();
    tr("store", addr, o, old, Some(new));
}

pub fn do_rmw(addr: usize, o: Ordering, old: u64, new: u64) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let l = e.loc(addr, old);
    if old != new {
        l.ver += 1;
    }
    let (lsync, ver) = (l.sync, l.ver);
    let th = &mut e.th[t];
    if is_acq(o) {
        join(&mut th.vc, &lsync);
    } else {
        join(&mut th.acq_pend, &lsync);
    }
    // an RMW continues the release sequence it reads from
    let mut sync = lsync;
    if is_rel(o) {
        join(&mut sync, &th.vc);
    } else {
        join(&mut sync, &th.rel_fence);
    }
    push_store(e, addr, new, sync, o);
    let th = &mut e.th[t];
    let h0 = th.h;
    th.h = mix(mix(mix(th.h, addr.wrapping_sub(e.addr0) as u64), old.wrapping_add(0x33)), new);
    let skip = ::std::mem::take(&mut e.skip_push);
    if old != new {
        th.streak.clear();
    } else if !skip {
        th.streak.push(StreakEnt { addr, ver, kind: Kind::Rmw, h0, ph: th.ph, sh: th.sh });
    }
    tr("rmw", addr, o, old, Some(new));
}

pub fn do_fence(o: Ordering) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let sc = e.sc_vc;
    let th = &mut e.th[t];
    if is_acq(o) {
        let a = th.acq_pend;
        join(&mut th.vc, &a);
    }
    if o == Ordering::SeqCst {
        join(&mut th.vc, &sc);
    }
    if is_rel(o) {
        th.rel_fence = th.vc;
    }
    if o == Ordering::SeqCst {
        e.sc_vc = th.vc;
    }
    e.th[t].vc[t] += 1;
    e.th[t].h = mix(e.th[t].h, 0x44);
    tr("fence", 0, o, 0, None);
}

pub fn do_lock(addr: usize) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let l = e.loc(addr, 0);
    l.lock = true;
    let s = l.sync;
    join(&mut e.th[t].vc, &s);
    e.th[t].h = mix(mix(e.th[t].h, addr.wrapping_sub(e.addr0) as u64), 0x55);
    e.th[t].streak.clear();
    tr("lock", addr, Ordering::Acquire, 0, None);
}
pub fn do_unlock(addr: usize) {
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let vc = e.th[t].vc;
    let l = e.loc(addr, 0);
    l.lock = true;
    join(&mut l.sync, &vc);
    l.ver += 1;
    e.th[t].vc[t] += 1;
    e.th[t].h = mix(mix(e.th[t].h, addr.wrapping_sub(e.addr0) as u64), 0x66);
    e.th[t].streak.clear();
    tr("unlock", addr, Ordering::Release, 0, None);
}

// ---------------------------------------------------------------- plain accesses (races)

/// Access to a harness-owned object (e.g. the wrapped iterator): race check by vector clocks.
pub fn obj_access(id: u64, write: bool, what: &str) {
    if !active() {
        return;
    }
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let vc = e.th[t].vc;
    let s = e.obj.entry(id).or_insert(Shadow { mask: 0xff, wt: -1, we: 0, re: [0; MAXT] });
    let mut bad = None;
    if s.wt >= 0 && s.wt as usize != t && s.we > vc[s.wt as usize] {
        bad = Some((s.wt as usize, "write"));
    }
    if write {
        for u in 0..MAXT {
            if u != t && s.re[u] > vc[u] {
                bad = Some((u, "read"));
            }
        }
        s.wt = t as i8;
        s.we = vc[t];
    } else {
        s.re[t] = vc[t];
    }
    if let Some((u, k)) = bad {
        e.races.push(format!("{what}: access by T{t} is not ordered after the {k} by T{u}"));
    }
}

/// Plain memory access of `size` bytes at `addr` by instrumented code.
pub fn mem_access(addr: usize, size: usize, write: bool) {
    unsafe {
        if !ACTIVE || SYS > 0 {
            return;
        }
    }
    let _s = sys();
    let e = eng();
    let t = e.cur;
    let st = e.th[t].stack as usize;
    if addr >= st && addr < st + STACK {
        return;
    }
    e.plain_accesses += 1;
    let vc = e.th[t].vc;
    let mut a = addr;
    let end = addr + size;
    while a < end {
        let g = a & !7;
        let hi = (g + 8).min(end);
        let mut mask = 0u8;
        for b in a..hi {
            mask |= 1 << (b - g);
        }
        a = hi;
        let v = e.shadow.entry(g as u64).or_default();
        let mut bad = None;
        let mut mine = false;
        for s in v.iter_mut() {
            if s.mask & mask == 0 {
                continue;
            }
            if s.wt >= 0 && s.wt as usize != t && s.we > vc[s.wt as usize] {
                bad = Some((s.wt as usize, "write"));
            }
            if write {
                for u in 0..MAXT {
                    if u != t && s.re[u] > vc[u] {
                        bad = Some((u, "read"));
                    }
                }
            }
            if s.mask == mask {
                mine = true;
                let known = if write { s.wt == t as i8 && s.we == vc[t] } else { s.re[t] == vc[t] };
                if !known {
                    e.shadow_h = e.shadow_h.wrapping_sub(s.hash(g as u64));
                    if write {
                        s.wt = t as i8;
                        s.we = vc[t];
                    } else {
                        s.re[t] = vc[t];
                    }
                    e.shadow_h = e.shadow_h.wrapping_add(s.hash(g as u64));
                }
            }
        }
        if !mine {
            let mut s = Shadow { mask, wt: -1, we: 0, re: [0; MAXT] };
            if write {
                s.wt = t as i8;
                s.we = vc[t];
            } else {
                s.re[t] = vc[t];
            }
            e.shadow_h = e.shadow_h.wrapping_add(s.hash(g as u64));
            v.push(s);
        }
        if let Some((u, k)) = bad {
            let k2 = if write { "write" } else { "read" };
            let m = format!(
                "data race: {k2} of {size} byte(s) at {} by T{t} is not ordered after the {k} by T{u}",
                arena_name(addr)
            );
            if e.races.len() < 8 {
                e.races.push(m);
            }
        }
    }
}
fn mem_clear(addr: usize, size: usize) {
    let e = unsafe { ENG.as_mut() };
    if let Some(e) = e {
        if e.shadow.is_empty() {
            return;
        }
        let mut g = addr & !7;
        while g < addr + size {
            for s in e.shadow.remove(&(g as u64)).unwrap_or_default() {
                e.shadow_h = e.shadow_h.wrapping_sub(s.hash(g as u64));
            }
            g += 8;
        }
    }
}

// ---------------------------------------------------------------- harness interface

/// Reports a violation and abandons the execution (from a virtual thread: does not return).
pub fn fail(msg: String) {
    let e = eng();
    let _s = sys();
    if e.viol.is_none() {
        e.viol = Some(msg);
    }
    if active() {
        e.finish(Outcome::Violation);
    }
}
pub fn violated() -> bool {
    eng().viol.is_some()
}
/// Environment nondeterminism: explored exhaustively like a scheduling choice.
pub fn choose(n: usize) -> usize {
    if n <= 1 || !active() {
        return 0;
    }
    let _s = sys();
    let opts = [0u8, 1, 2, 3, 4, 5, 6, 7];
    let c = eng().choose(NodeKind::Data, &opts[..n], 3) as usize;
    drop(_s);
    note(c as u64 + 1000);
    c
}
pub fn cur() -> usize {
    eng().cur
}
pub fn thread_hash(t: usize) -> u64 {
    eng().th[t].h
}
pub fn stuck_desc() -> String {
    let e = eng();
    let mut s = String::new();
    for t in 0..e.n {
        if !e.th[t].done {
            s += &format!(" T{t}:{:?}", e.th[t].pend.1);
        }
    }
    s
}
/// forgets visited states (start of a new configuration)
pub fn new_config(cfg: Cfg) {
    let e = eng();
    e.cfg = cfg;
    e.private_off = false;
    e.private_broken = false;
    e.nodes.clear();
    if e.visited.capacity() > 1 << 16 {
        e.visited = IdSet::default();
    } else {
        e.visited.clear();
    }
    e.stats = Stats::default();
    e.replay_only = false;
    e.verbose = false;
}

/// Explores all executions of `run`.
pub fn explore(cfg: Cfg, deadline: ::std::time::Instant, run: &mut dyn FnMut()) -> (Stats, Option<Viol>) {
    new_config(cfg);
    let e = eng();
    loop {
        e.begin_run();
        run();
        e.stats.execs += 1;
        e.stats.max_depth = e.stats.max_depth.max(e.depth as u64);
        match e.outcome {
            Outcome::Pruned => e.stats.pruned += 1,
            _ => e.stats.complete += 1,
        }
        if ::std::mem::take(&mut e.private_broken) && !e.private_off {
            let st = e.stats;
            e.nodes.clear();
            e.visited.clear();
            e.stats = st;
            e.private_off = true;
            continue;
        }
        if let Some(m) = e.viol.take() {
            let choices = e.nodes[..e.depth.min(e.nodes.len())].iter().map(|n| n.cur).collect();
            e.stats.states = e.visited.len() as u64;
            return (e.stats, Some(Viol { msg: m, choices }));
        }
        loop {
            match e.nodes.last_mut() {
                Some(n) if n.cur + 1 < n.n => {
                    n.cur += 1;
                    break;
                }
                Some(_) => {
                    e.nodes.pop();
                }
                None => break,
            }
        }
        if e.nodes.is_empty() {
            break;
        }
        if e.stats.execs >= cfg.max_execs
            || (e.stats.execs % 64 == 0 && ::std::time::Instant::now() > deadline)
        {
            e.stats.capped = true;
            break;
        }
    }
    e.stats.states = e.visited.len() as u64;
    (e.stats, None)
}

/// Re-executes one recorded schedule; returns the violation it produces, if any, and the trace.
pub fn replay(cfg: Cfg, choices: &[u8], verbose: bool, run: &mut dyn FnMut()) -> (Option<String>, Vec<String>) {
    let mut off = false;
    loop {
        new_config(cfg);
        let e = eng();
        e.private_off = off;
        for c in choices {
            // n == 0 marks "key unknown" nodes
            e.nodes.push(Node { key: 0, kind: NodeKind::Sched, n: 0, choices: [0; 8], cur: *c });
        }
        e.replay_only = true;
        e.begin_run();
        e.verbose = verbose;
        run();
        e.verbose = false;
        e.replay_only = false;
        if e.private_broken && !off {
            off = true;
            continue;
        }
        return (e.viol.take(), e.trace.clone());
    }
}
#[allow(clippy::needless_pass_by_value)]
pub fn trace(s: impl FnOnce() -> String) {
    let e = eng();
    if e.verbose {
        let _s = sys();
        let x = s();
        e.trace.push(x);
    }
}
pub fn verbose() -> bool {
    eng().verbose
}

// ---------------------------------------------------------------- arena allocator

// Region 0 serves the setup and the end of an execution, region t + 1 serves virtual thread t:
// addresses do not depend on the interleaving.
const ARENA: usize = 64 << 20;
const MAIN: usize = 24 << 20;
const REGION: usize = 8 << 20;
const LIVE: u64 = 0xA110_C8ED_0000_0001;
const FREED: u64 = 0xF4EE_D000_0000_0002;
static mut A_BASE: usize = 0;
static mut A_TOPS: [usize; MAXT + 1] = [0; MAXT + 1];
static mut A_LIVE: i64 = 0;
static mut A_BLOCKS: i64 = 0;
static mut A_BAD: u32 = 0;
static mut A_BADMSG: &str = "";
static mut A_TOTAL: u64 = 0;

fn region_base(r: usize) -> usize {
    unsafe { if r == 0 { A_BASE } else { A_BASE + MAIN + (r - 1) * REGION } }
}
fn region_end(r: usize) -> usize {
    region_base(r) + if r == 0 { MAIN } else { REGION }
}
/// end of the used part of the region that holds `a`
fn top_of(a: usize) -> usize {
    unsafe {
        let r = if a < A_BASE + MAIN { 0 } else { 1 + (a - A_BASE - MAIN) / REGION };
        if r <= MAXT { A_TOPS[r] } else { 0 }
    }
}
fn arena_init() {
    const { assert!(MAIN + MAXT * REGION <= ARENA) };
    unsafe {
        A_BASE = System.alloc(Layout::from_size_align(ARENA, 4096).unwrap()) as usize;
    }
    arena_reset();
}
pub fn arena_reset() {
    unsafe {
        for r in 0..=MAXT {
            A_TOPS[r] = region_base(r);
        }
        A_LIVE = 0;
        A_BLOCKS = 0;
        A_BAD = 0;
        A_BADMSG = "";
    }
}
fn arena_hash(n: usize) -> u64 {
    unsafe {
        let mut k = mix(A_BAD as u64, 0xA4);
        for r in 0..=n {
            let (b, t) = (region_base(r), A_TOPS[r]);
            k = mix(k, (t - b) as u64);
            if t > b {
                k = mix(k, stack_hash(b, t));
            }
        }
        k
    }
}
/// (live bytes, live blocks, number of invalid deallocations, description)
pub fn arena_stats() -> (i64, i64, u32, &'static str) {
    unsafe { (A_LIVE, A_BLOCKS, A_BAD, A_BADMSG) }
}
pub fn arena_total() -> u64 {
    unsafe { A_TOTAL }
}
/// `a` is the start of a live arena block
pub fn arena_live(a: usize) -> bool {
    unsafe { a >= A_BASE + 24 && a < A_BASE + ARENA && a < top_of(a) && a % 8 == 0 && *((a - 8) as *const u64) == LIVE }
}
fn arena_name(a: usize) -> String {
    unsafe {
        if a >= A_BASE && a < A_BASE + ARENA {
            format!("heap+{}", a - A_BASE)
        } else {
            "non-heap memory".to_string()
        }
    }
}

pub struct McAlloc;
unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if SYS > 0 {
                return System.alloc(l);
            }
            SYS += 1;
            let p = arena_alloc(l);
            SYS -= 1;
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let a = p as usize;
            if a >= A_BASE && a < A_BASE + ARENA {
                SYS += 1;
                arena_free(a, l);
                SYS -= 1;
            } else if SYS > 0 {
                System.dealloc(p, l)
            } else {
                // code under test frees something it did not allocate from the arena: foreign
                // pointer, e.g. inline storage or a stack address
                A_BAD += 1;
                A_BADMSG = "deallocation of memory that was never allocated";
            }
        }
    }
}
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    unsafe {
        let al = l.align().max(16);
        let r = if ACTIVE { eng().cur + 1 } else { 0 };
        let old = A_TOPS[r];
        let start = (old + 32 + al - 1) & !(al - 1);
        if l.size() > ARENA || start + l.size() + 8 > region_end(r) {
            return ::std::ptr::null_mut();
        }
        let end = (start + l.size() + 7) & !7;
        ::std::ptr::write_bytes(old as *mut u8, 0, start - old);
        let h = (start - 24) as *mut u64;
        *h = l.size() as u64;
        *h.add(1) = l.align() as u64;
        *h.add(2) = LIVE;
        A_TOPS[r] = end;
        A_LIVE += l.size() as i64;
        A_BLOCKS += 1;
        A_TOTAL += 1;
        ::std::ptr::write_bytes(start as *mut u8, 0xCD, l.size());
        ::std::ptr::write_bytes((start + l.size()) as *mut u8, 0, end - start - l.size());
        mem_clear(start, l.size());
        start as *mut u8
    }
}
unsafe fn arena_free(a: usize, l: Layout) {
    unsafe {
        let h = (a - 24) as *mut u64;
        if a % 8 != 0 || a < A_BASE + 24 || a > top_of(a) {
            A_BAD += 1;
            A_BADMSG = "deallocation of a pointer that is not the start of a block";
            return;
        }
        match *h.add(2) {
            LIVE => {
                if *h != l.size() as u64 || *h.add(1) != l.align() as u64 {
                    A_BAD += 1;
                    A_BADMSG = "deallocation with a layout that differs from the allocation";
                }
                *h.add(2) = FREED;
                if ACTIVE && a < A_BASE + eng().snap.len() * 8 {
                    exclude(a - 24, *h as usize + 24);
                }
                A_LIVE -= *h as i64;
                A_BLOCKS -= 1;
                ::std::ptr::write_bytes(a as *mut u8, 0xDE, *h as usize);
            }
            FREED => {
                A_BAD += 1;
                A_BADMSG = "memory freed twice";
            }
            _ => {
                A_BAD += 1;
                A_BADMSG = "deallocation of a pointer that is not the start of a block";
            }
        }
    }
}
