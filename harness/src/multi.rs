//! Several concurrent iterators over one collection, and clones taken at any moment.
//!
//! Thread `t` works on iterator `t % 2`; `X` clones the iterator the thread is working on and the rest
//! of the program runs on the clone. An iterator used by one thread only must behave exactly like a
//! sequential cursor whatever the other threads do to the other iterators.
use crate::elem::*;
use crate::prog::*;
use crate::run::rc;
use orx_concurrent_iter::*;
use orx_verif_std::mc::{self, Outcome};
use std::time::Instant;

const NM: usize = 32;

pub const KINDS: [&str; 4] = ["slice", "vec", "arr", "range"];

#[derive(Clone, Copy, Default)]
struct Inst {
    /// the cursor, exactly known
    pos: Option<usize>,
    /// otherwise: bounds of the start of a clone
    lo: usize,
    hi: usize,
    shared: bool,
    skipped: bool,
    cnt: [u8; NM],
}
struct MM {
    len: usize,
    inst: [Inst; 16],
    n: usize,
    inflight: [(usize, usize); mc::MAXT],
    skip_begun: [bool; 16],
    /// the call each thread is about to start: instance, elements asked for, skip, clone
    next: [(usize, usize, bool, bool); mc::MAXT],
    /// lower bound of the position of the clone being taken
    lo: [usize; mc::MAXT],
}
static mut MMON: MM = MM {
    len: 0,
    inst: [Inst { pos: None, lo: 0, hi: 0, shared: false, skipped: false, cnt: [0; NM] }; 16],
    n: 0,
    inflight: [(0, 0); mc::MAXT],
    skip_begun: [false; 16],
    next: [(0, 0, false, false); mc::MAXT],
    lo: [0; mc::MAXT],
};
#[allow(static_mut_refs)]
fn mm() -> &'static mut MM {
    unsafe { &mut MMON }
}
/// everything this monitor knows
pub fn state() -> u64 {
    let m = mm();
    let mut h = m.n as u64;
    for i in 0..m.n {
        let it = &m.inst[i];
        h = mc::mix(h, it.pos.map(|p| p as u64 + 1).unwrap_or(0));
        h = mc::mix(h, it.lo as u64 | (it.hi as u64) << 32);
        h = mc::mix(h, it.shared as u64 | (it.skipped as u64) << 1 | (m.skip_begun[i] as u64) << 2);
        for p in 0..m.len.min(NM) {
            h = mc::mix(h, it.cnt[p] as u64);
        }
    }
    for f in m.inflight {
        h = mc::mix(h, (f.0 as u64) << 32 | f.1 as u64);
    }
    for x in m.lo {
        h = mc::mix(h, x as u64);
    }
    h
}
fn bad(m: String) {
    let _s = mc::sys();
    mc::trace(|| format!("!! {m}"));
    mc::fail(m);
}
fn max_done(i: usize) -> usize {
    (0..mm().len).rev().find(|p| mm().inst[i].cnt[*p] > 0).map(|p| p + 1).unwrap_or(0)
}
fn sync() {
    // what a clone of a shared iterator may be judged against
    let mut h = 0;
    for i in 0..2 {
        if mm().inst[i].shared {
            for p in 0..mm().len {
                h = mc::mix(h, mm().inst[i].cnt[p] as u64);
            }
            h = mc::mix(h, mm().inst[i].skipped as u64 | (mm().skip_begun[i] as u64) << 1);
            for f in mm().inflight {
                h = mc::mix(h, (f.0 * 1000 + f.1) as u64);
            }
        }
    }
    mc::eng().mon_hash = h;
}
fn begin(i: usize, n: usize, what: &Op) {
    let _s = mc::sys();
    let t = mc::cur();
    mm().next[t] = (i, n, what.is_skip(), matches!(what, Op::X));
    mc::trace(|| format!("T{t} iterator {i}: {what}"));
    mc::op_begin();
}
/// first step of the current call of thread `t`
pub fn on_start(t: usize) {
    let (i, n, skip, clone) = mm().next[t];
    mm().inflight[t] = (i + 1, n);
    if skip {
        mm().skip_begun[i] = true;
    }
    if clone {
        mm().lo[t] = if mm().inst[i].skipped { mm().len } else { max_done(i) };
        mc::note(mm().lo[t] as u64);
    }
    sync();
}
/// the call has returned
fn end() {
    if mc::op_end() {
        on_start(mc::cur());
    }
}
fn done() {
    let t = mc::cur();
    mm().inflight[t] = (0, 0);
    mm().lo[t] = 0;
    sync();
}
/// a pull of at most `n` on instance `i` answered `r`
fn pulled(i: usize, n: usize, r: Option<(usize, usize)>) {
    let _s = mc::sys();
    end();
    let t = mc::cur();
    mc::trace(|| format!("T{t}   -> {r:?}"));
    let len = mm().len;
    let it = &mut mm().inst[i];
    if let Some((b, c)) = r {
        for p in b..b.saturating_add(c).min(NM) {
            if p >= len {
                bad(format!("T{t}: position {p} delivered by an iterator over {len} elements"));
                return;
            }
            it.cnt[p] += 1;
            if it.cnt[p] > 1 {
                bad(format!("T{t}: iterator {i} delivered position {p} twice"));
            }
        }
    }
    if it.shared {
        done();
        return;
    }
    if it.pos.is_none() {
        // first answer of a clone of a shared iterator
        let p = r.map(|(b, _)| b).unwrap_or(len);
        if p < it.lo || p > it.hi {
            let (lo, hi) = (it.lo, it.hi);
            bad(format!("T{t}: the clone starts at {p}; the original was between {lo} and {hi}"));
        }
        it.pos = Some(p);
    }
    let pos = it.pos.unwrap();
    let want = if pos < len { Some((pos, n.min(len - pos))) } else { None };
    if r != want {
        bad(format!("T{t}: iterator {i}, used by this thread only, is at {pos} of {len} and answers {r:?} to a pull of {n}"));
    }
    it.pos = Some((pos + n).min(len));
    done();
}

fn exec<C>(c: &C, i: usize, prog: &[Op], tid: usize)
where
    C: ConcurrentIter + Clone,
    C::Item: Obs,
{
    for (k, op) in prog.iter().enumerate() {
        match *op {
            Op::N => {
                begin(i, 1, op);
                let r = c.next_id_and_value();
                let r = r.map(|x| {
                    let p = x.value.obs();
                    if p != x.idx {
                        bad(format!("T{tid}: element {p} delivered with index {}", x.idx));
                    }
                    (p, 1)
                });
                pulled(i, 1, r);
            }
            Op::C(n, part) => {
                begin(i, n, op);
                let r = c.next_chunk(n);
                let a = r.as_ref().map(|x| (x.begin_idx, x.values.len()));
                pulled(i, n, a);
                if let Some(ch) = r {
                    for (j, x) in ch.values.enumerate() {
                        if part.map(|m| j >= m as usize).unwrap_or(false) {
                            break;
                        }
                        let p = x.obs();
                        if p != ch.begin_idx + j {
                            bad(format!("T{tid}: chunk element {j} of {} is {p}", ch.begin_idx));
                        }
                    }
                }
            }
            Op::B(n, _) => {
                begin(i, n, op);
                let mut b = c.buffered_iter(n);
                let r = b.next();
                let a = r.as_ref().map(|x| (x.begin_idx, x.values.len()));
                pulled(i, n, a);
                if let Some(ch) = r {
                    for (j, x) in ch.values.enumerate() {
                        let p = x.obs();
                        if p != ch.begin_idx + j {
                            bad(format!("T{tid}: chunk element {j} of {} is {p}", ch.begin_idx));
                        }
                    }
                }
            }
            Op::LN => loop {
                begin(i, 1, op);
                let r = c.next_id_and_value().map(|x| (x.value.obs(), 1));
                let e = r.is_none();
                pulled(i, 1, r);
                if e {
                    break;
                }
            },
            Op::Skip => {
                begin(i, 0, op);
                c.skip_to_end();
                end();
                let it = &mut mm().inst[i];
                it.skipped = true;
                if !it.shared {
                    it.pos = Some(mm().len);
                }
                done();
            }
            Op::QL => {
                begin(i, 0, op);
                let r = c.try_get_len();
                end();
                let it = &mm().inst[i];
                mc::trace(|| format!("T{tid}   -> {r:?}"));
                mc::note(r.unwrap_or(77) as u64);
                if let (Some(p), false) = (it.pos, it.shared) {
                    let want = mm().len - p.min(mm().len);
                    if r != Some(want) {
                        bad(format!("T{tid}: iterator {i}, used by this thread only, reports {r:?} remaining, {want} are"));
                    }
                }
                done();
            }
            Op::V => {
                begin(i, 1, op);
                for x in c.values() {
                    let p = x.obs();
                    pulled(i, 1, Some((p, 1)));
                    begin(i, 1, op);
                }
                pulled(i, 1, None);
            }
            Op::X => {
                begin(i, 0, op);
                let c2 = Box::new(c.clone());
                end();
                mc::private(&*c2 as *const C as usize, std::mem::size_of::<C>());
                let lo = mm().lo[tid];
                let j = {
                    let _s = mc::sys();
                    let m = mm();
                    let j = m.n;
                    m.n += 1;
                    let o = m.inst[i];
                    let mut x = Inst::default();
                    if !o.shared && o.pos.is_some() {
                        x.pos = o.pos;
                    } else if !o.shared {
                        // clone of a clone that has not been pulled from
                        x.lo = o.lo;
                        x.hi = o.hi;
                    } else {
                        let del = (0..m.len).filter(|p| o.cnt[*p] > 0).count();
                        let fl: usize = m.inflight.iter().filter(|f| f.0 == i + 1).map(|f| f.1).sum();
                        x.lo = lo;
                        x.hi = if m.skip_begun[i] { m.len } else { m.len.min(del.saturating_add(fl)) };
                        mc::note(x.hi as u64 + 50);
                        if x.lo == x.hi {
                            x.pos = Some(x.lo);
                        }
                    }
                    m.inst[j] = x;
                    mc::trace(|| format!("T{tid}   -> iterator {j}"));
                    j
                };
                done();
                exec(&*c2, j, &prog[k + 1..], tid);
                if rc().cfg.end != Ending::Drop || tid == 0 {
                    remainder(*c2, j);
                } else {
                    drop(c2);
                }
                return;
            }
            _ => panic!("operation {op} is not supported here"),
        }
    }
}
fn remainder<C: ConcurrentIter>(c: C, i: usize)
where
    C::Item: Obs,
{
    let mut got = [0usize; NM];
    let mut n = 0;
    for x in c.into_seq_iter() {
        got[n] = x.obs();
        n += 1;
        if n == NM {
            break;
        }
    }
    let m = mm();
    if let (Some(p), false) = (m.inst[i].pos, m.inst[i].shared) {
        let ok = n == m.len - p.min(m.len) && (0..n).all(|j| got[j] == p + j);
        if !ok {
            let g = got;
            bad(format!("iterator {i} is at {p} of {} and converts to the sequence {:?}", m.len, &g[..n]));
        }
    }
}

struct Ctx<C> {
    its: [C; 2],
}
fn body<C>(ctx: *const (), tid: usize)
where
    C: ConcurrentIter + Clone,
    C::Item: Obs,
{
    let cx = unsafe { &*(ctx as *const Ctx<C>) };
    let prog = &rc().cfg.progs[tid];
    if let Err(e) = mc::catch(|| exec(&cx.its[tid % 2], tid % 2, prog, tid)) {
        let _s = mc::sys();
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        mc::fail(format!("T{tid}: a call panicked: {m}"));
    }
}
fn drive<C>(a: C, b: C)
where
    C: ConcurrentIter + Clone,
    C::Item: Obs,
{
    let cfg = rc().cfg;
    let ctx = mc::user(|| Box::new(Ctx { its: [a, b] }));
    let o = mc::go(cfg.progs.len(), body::<C>, &*ctx as *const Ctx<C> as *const (), &*ctx as *const Ctx<C> as usize);
    match o {
        Outcome::Complete => {
            rc().complete += 1;
            if let Some(f) = crate::run::finals() {
                let _s = mc::sys();
                f.insert(state());
            }
            let c = *ctx;
            let [x, y] = c.its;
            let r = mc::catch(|| {
                mc::user(|| {
                    if mm().inst[0].shared {
                        drop(x);
                    } else {
                        remainder(x, 0);
                    }
                    remainder(y, 1);
                })
            });
            if r.is_err() {
                bad("converting or dropping an iterator panicked".into());
            }
            if let Some(b) = l().bad.clone() {
                bad(b);
            }
            for i in 0..cfg.len.min(rc().src_e.len()) {
                rc().src_e[i].obs_src(i);
            }
            if let Some(b) = l().bad.clone() {
                bad(b);
            }
            if l().dropped.iter().any(|d| *d > 0) || l().delivered.iter().any(|d| *d > 0) {
                bad("an element of the collection was moved out or destroyed".into());
            }
        }
        Outcome::Pruned | Outcome::Violation => std::mem::forget(ctx),
        _ => {
            std::mem::forget(ctx);
            bad("a call does not return".into());
        }
    }
}

fn one() {
    let cfg = rc().cfg;
    *l() = Ledger::new();
    l().src_len = cfg.len;
    l().src_base = rc().src_e.as_ptr() as usize;
    l().src_stride = std::mem::size_of::<E<()>>();
    pm().busy = -1;
    crate::mon::reset(0, cfg.len, true, false);
    l().src_len = cfg.len;
    l().src_base = rc().src_e.as_ptr() as usize;
    l().src_stride = std::mem::size_of::<E<()>>();
    let m = mm();
    m.len = cfg.len;
    m.n = 2;
    m.inst = [Inst::default(); 16];
    m.inflight = [(0, 0); mc::MAXT];
    m.skip_begun = [false; 16];
    m.lo = [0; mc::MAXT];
    m.inst[0].pos = Some(0);
    m.inst[1].pos = Some(0);
    m.inst[0].shared = cfg.progs.len() > 2;
    m.inst[1].shared = cfg.progs.len() > 3;
    let n = cfg.len;
    let v: &'static Vec<E<()>> = unsafe { &*(&rc().src_e as *const _) };
    match &cfg.kind["multi:".len()..] {
        "slice" => drive(v[..n].into_con_iter(), v[..n].into_con_iter()),
        "vec" => drive(v.con_iter(), v.con_iter()),
        "arr" => {
            macro_rules! go {
                ($k:expr) => {{
                    let a: &'static [E<()>; $k] = v[..].try_into().unwrap();
                    drive(a.con_iter(), a.con_iter())
                }};
            }
            match n {
                0 => go!(0),
                1 => go!(1),
                2 => go!(2),
                3 => go!(3),
                4 => go!(4),
                _ => go!(5),
            }
        }
        "range" => {
            let r = 0..n;
            drive(r.con_iter(), r.con_iter())
        }
        k => panic!("unknown kind {k}"),
    }
}

pub fn explore(cfg: &Config, deadline: Instant) -> (mc::Stats, Option<mc::Viol>) {
    crate::run::setup(cfg.clone(), 0, false);
    mc::explore(crate::run::mc_cfg(cfg), deadline, &mut one)
}
pub fn replay(cfg: &Config, choices: &[u8]) -> (Option<String>, Vec<String>) {
    crate::run::setup(cfg.clone(), 0, false);
    mc::replay(crate::run::mc_cfg(cfg), choices, true, &mut one)
}
