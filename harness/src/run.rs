//! Builds the concurrent iterator of a configuration, runs one execution and judges its end.
use crate::body::{body, fold_weight, Ctx};
use crate::elem::*;
use crate::mon::{self, bad, m};
use crate::prog::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use orx_verif_std::mc::{self, Outcome};
use std::collections::BTreeSet;
use std::time::Instant;

pub struct RunCtx {
    pub cfg: &'static Config,
    pub ck: u32,
    pub src_e: Vec<E<()>>,
    pub src_k: Vec<K>,
    pub outcomes: Option<BTreeSet<u64>>,
    pub outcomes_text: std::collections::BTreeMap<u64, String>,
    pub complete: u64,
    pub stuck: u64,
    pub deliveries: u64,
    pub multi: bool,
    pub with_conc: u64,
}

static mut RC: Option<RunCtx> = None;
#[allow(static_mut_refs)]
pub fn rc() -> &'static mut RunCtx {
    unsafe { RC.as_mut().unwrap() }
}

pub fn setup(cfg: Config, ck: u32, collect: bool) {
    let cfg: &'static Config = Box::leak(Box::new(cfg));
    *l() = Ledger::new();
    let n = cfg.len.min(NP) + cfg.revive;
    // exactly-sized allocations: an access past the end is not another element
    let src_e: Vec<E<()>> = (0..n).map(E::new).collect();
    let src_k: Vec<K> = (0..n).map(K::new).collect();
    unsafe {
        if let Some(old) = (*std::ptr::addr_of_mut!(RC)).take() {
            std::mem::forget(old.src_e);
        }
        RC = Some(RunCtx {
            cfg,
            ck,
            src_e,
            src_k,
            outcomes: if collect { Some(BTreeSet::new()) } else { None },
            outcomes_text: Default::default(),
            complete: 0,
            stuck: 0,
            deliveries: 0,
            multi: cfg.kind.starts_with("multi:"),
            with_conc: 0,
        });
    }
}

pub fn mc_cfg(cfg: &Config) -> mc::Cfg {
    mc::Cfg {
        bound: cfg.bound,
        race: cfg.race,
        stale: cfg.stale,
        spurious: cfg.spur,
        impatience: cfg.impat,
        no_wait: cfg.nowait,
        no_prune: unsafe { NO_PRUNE },
        max_steps: 3000 + 60 * cfg.len.min(NP) as u32,
        ..Default::default()
    }
}

/// explores one configuration
pub fn explore(cfg: &Config, ck: u32, deadline: Instant, collect: bool) -> (mc::Stats, Option<mc::Viol>) {
    setup(cfg.clone(), ck, collect);
    mc::explore(mc_cfg(cfg), deadline, &mut one)
}
pub fn replay(cfg: &Config, ck: u32, choices: &[u8]) -> (Option<String>, Vec<String>) {
    setup(cfg.clone(), ck, false);
    mc::replay(mc_cfg(cfg), choices, true, &mut one)
}

fn probe<T>(make: fn(usize) -> T) -> Probe<T> {
    let c = rc().cfg;
    Probe {
        pos: 0,
        len: c.len,
        hint: c.hint,
        revive: c.revive,
        panic_at: match c.panic {
            Some(('n', k)) => Some(k),
            _ => None,
        },
        calls: 0,
        point: c.pp,
        make,
    }
}
fn ref_e(i: usize) -> &'static E<()> {
    unsafe { &*(&rc().src_e[i] as *const E<()>) }
}
fn ref_k(i: usize) -> &'static K {
    unsafe { &*(&rc().src_k[i] as *const K) }
}
fn slice_e() -> &'static [E<()>] {
    let n = rc().cfg.len;
    unsafe { &*(&rc().src_e[..n] as *const [E<()>]) }
}
fn slice_k() -> &'static [K] {
    let n = rc().cfg.len;
    unsafe { &*(&rc().src_k[..n] as *const [K]) }
}
fn make_vec<P: Payload>() -> Vec<E<P>> {
    let c = rc().cfg;
    let mut v = Vec::with_capacity(c.len + c.cap);
    for i in 0..c.len {
        v.push(E::<P>::new(i));
    }
    v
}
fn make_arr<P: Payload, const N: usize>() -> [E<P>; N] {
    std::array::from_fn(E::<P>::new)
}

macro_rules! arr {
    ($len:expr, |$n:ident| $b:expr) => {
        match $len {
            0 => { const $n: usize = 0; $b }
            1 => { const $n: usize = 1; $b }
            2 => { const $n: usize = 2; $b }
            3 => { const $n: usize = 3; $b }
            4 => { const $n: usize = 4; $b }
            _ => { const $n: usize = 5; $b }
        }
    };
}

macro_rules! arr_big {
    ($len:expr, |$n:ident| $b:expr) => {
        match $len {
            40 => { const $n: usize = 40; $b }
            130 => { const $n: usize = 130; $b }
            _ => { const $n: usize = 1030; $b }
        }
    };
}

/// one execution
pub fn one() {
    let cfg = rc().cfg;
    mon::reset(rc().ck, cfg.len, cfg.known_size(), cfg.kind.ends_with(":Z"));
    m().uses = cfg.uses;
    {
        let l = l();
        if let Some(('c', k)) = cfg.panic {
            l.clone_panic_at = Some(k as u32);
        }
        if let Some(('f', k)) = cfg.panic {
            m().closure_panic_at = Some(k);
        }
        l.clone_point = cfg.pp;
        l.src_len = cfg.len + if cfg.kind.contains("iter") { cfg.revive } else { 0 };
        l.range_start = 0;
        if cfg.kind.ends_with(":K") || cfg.kind.starts_with("copied") {
            l.src_base = rc().src_k.as_ptr() as usize;
            l.src_stride = std::mem::size_of::<K>();
        } else {
            l.src_base = rc().src_e.as_ptr() as usize;
            l.src_stride = std::mem::size_of::<E<()>>();
        }
        if cfg.kind.starts_with("cloned") {
            l.expect_gen = 1;
        }
    }
    macro_rules! go {
        ($e:expr) => {{
            match mc::catch(|| mc::user(|| Box::new($e))) {
                Ok(c) => drive(c),
                Err(_) => bad(mon::NOPANIC, || "the constructor panicked".into()),
            }
        }};
    }
    type LB = [u64; 6];
    match cfg.kind.as_str() {
        "vec:E" => go!(make_vec::<()>().into_con_iter()),
        "vec:B" => go!(make_vec::<Box<u64>>().into_con_iter()),
        "vec:L" => go!(make_vec::<LB>().into_con_iter()),
        "vec:Z" => go!((0..cfg.len).map(|_| Z::new()).collect::<Vec<_>>().into_con_iter()),
        "vec:K" => go!((0..cfg.len).map(K::new).collect::<Vec<_>>().into_con_iter()),
        "vecfrom:E" => go!(ConIterOfVec::from(make_vec::<()>())),
        "arr:E" if cfg.len > 5 => arr_big!(cfg.len, |N| go!(make_arr::<(), N>().into_con_iter())),
        "arrref:E" if cfg.len > 5 => arr_big!(cfg.len, |N| {
            let a: &'static [E<()>; N] = slice_e().try_into().unwrap();
            go!(a.con_iter())
        }),
        "arr:E" => arr!(cfg.len, |N| go!(make_arr::<(), N>().into_con_iter())),
        "arr:B" => arr!(cfg.len, |N| go!(make_arr::<Box<u64>, N>().into_con_iter())),
        "arr:L" => arr!(cfg.len, |N| go!(make_arr::<LB, N>().into_con_iter())),
        "arr:Z" => arr!(cfg.len, |N| go!(std::array::from_fn::<Z, N, _>(|_| Z::new()).into_con_iter())),
        "slice:E" => go!(slice_e().into_con_iter()),
        "slicecon:E" => {
            let s: &'static &'static [E<()>] = Box::leak(Box::new(slice_e()));
            go!(s.con_iter())
        }
        "slice:K" => go!(slice_k().into_con_iter()),
        "vecref:E" => {
            let v: &'static Vec<E<()>> = unsafe { &*(&rc().src_e as *const _) };
            go!(v.con_iter())
        }
        "arrref:E" => arr!(cfg.len, |N| {
            let a: &'static [E<()>; N] = slice_e().try_into().unwrap();
            go!(a.con_iter())
        }),
        "range" => go!(IntoConcurrentIter::into_con_iter(0..cfg.len)),
        "rangecon" => {
            let r = 0..cfg.len;
            go!(r.con_iter())
        }
        "iter:E" => go!(probe(E::<()>::new).into_con_iter()),
        "iter:B" => go!(probe(E::<Box<u64>>::new).into_con_iter()),
        "iter:L" => go!(probe(E::<LB>::new).into_con_iter()),
        "iter:Z" => go!(probe(|_| Z::new()).into_con_iter()),
        "iter:K" => go!(probe(K::new).into_con_iter()),
        "iterref:E" => go!(probe(ref_e).into_con_iter()),
        "iterref:K" => go!(probe(ref_k).into_con_iter()),
        "cloned:slice" => go!(slice_e().into_con_iter().cloned()),
        "cloned:vecref" => {
            let v: &'static Vec<E<()>> = unsafe { &*(&rc().src_e as *const _) };
            go!(v.con_iter().cloned())
        }
        "cloned:arrref" => arr!(cfg.len, |N| {
            let a: &'static [E<()>; N] = slice_e().try_into().unwrap();
            go!(a.con_iter().cloned())
        }),
        "cloned:iterref" => go!(probe(ref_e).into_con_iter().cloned()),
        "copied:slice" => go!(slice_k().into_con_iter().copied()),
        "copied:iterref" => go!(probe(ref_k).into_con_iter().copied()),
        k if k.starts_with("rng:") => {
            let (a, b) = k[4..].split_once("..").unwrap();
            let (a, b) = (unnum(a), unnum(b));
            m().len = b.saturating_sub(a);
            l().src_len = b.saturating_sub(a);
            l().range_start = a;
            go!(IntoConcurrentIter::into_con_iter(a..b))
        }
        k => panic!("unknown kind {k}"),
    }
}

fn drive<C>(c: Box<C>)
where
    C: ConcurrentIter + AtomicIter<<C as ConcurrentIter>::Item>,
    C::Item: Obs,
{
    let cfg = rc().cfg;
    let ctx = Ctx { c: &*c as *const C, progs: &cfg.progs };
    let o = mc::go(cfg.progs.len(), body::<C>, &ctx as *const Ctx<C> as *const (), &*c as *const C as usize);
    match o {
        Outcome::Complete => {
            rc().complete += 1;
            if let Some(f) = finals() {
                let _s = mc::sys();
                f.insert(mon::state());
            }
            finish(c, cfg);
        }
        Outcome::Pruned | Outcome::Violation => std::mem::forget(c),
        Outcome::Stuck | Outcome::Horizon | Outcome::Waits => {
            std::mem::forget(c);
            rc().stuck += 1;
            let d = mc::stuck_desc();
            match o {
                Outcome::Stuck => {
                    bad(mon::PROGRESS | mon::PANICC, || format!("no thread can make progress; unfinished:{d}"))
                }
                Outcome::Horizon => bad(mon::PROGRESS | mon::PANICC, || format!("an execution does not end; unfinished:{d}")),
                _ => bad(mon::PROGRESS, || format!("a pull on a source of known size waits for another thread:{d}")),
            }
            if rc().outcomes.is_some() {
                outcome(0x57C4, || format!("stuck {d}"));
            }
        }
    }
}

/// Monitor states of complete executions, if `Some` (validation of the state abstraction: the set
/// must not depend on whether visited states are pruned).
pub static mut FINALS: Option<BTreeSet<u64>> = None;
#[allow(static_mut_refs)]
pub fn finals() -> Option<&'static mut BTreeSet<u64>> {
    unsafe { FINALS.as_mut() }
}
pub static mut NO_PRUNE: bool = false;

fn outcome(h: u64, t: impl FnOnce() -> String) {
    let rc = rc();
    if let Some(o) = rc.outcomes.as_mut() {
        if o.insert(h) && rc.outcomes_text.len() < 200 {
            rc.outcomes_text.insert(h, t());
        }
    }
}

fn finish<C>(c: Box<C>, cfg: &Config)
where
    C: ConcurrentIter + AtomicIter<<C as ConcurrentIter>::Item>,
    C::Item: Obs,
{
    rc().deliveries += m().total as u64;
    let mut rem: [usize; NP] = [0; NP];
    let mut nrem = 0usize;
    let mut ended = false;
    let mut hint = (0, None);
    let end = cfg.end;
    let r = mc::catch(|| {
        mc::user(|| match end {
            Ending::Drop => drop(c),
            Ending::Seq(k) => {
                let mut it = (*c).into_seq_iter();
                hint = it.size_hint();
                if m().len > NP {
                    // long remainder: the first two positions, the last one, the end
                    let und = m().len - m().ndeliv.min(m().len);
                    for _ in 0..2 {
                        if let Some(x) = it.next() {
                            rem[nrem] = x.obs();
                            nrem += 1;
                        }
                    }
                    if !m().skip_begun && und > 3 {
                        if let Some(x) = it.nth(und - 3) {
                            rem[nrem] = x.obs();
                            nrem += 1;
                        }
                    }
                    ended = it.next().is_none();
                    return;
                }
                if k >= NP.min(99) && [1, 3, 6].contains(&m().uses) {
                    // internal iteration, after the first element or not
                    if m().uses == 6 {
                        if let Some(x) = it.next() {
                            rem[0] = x.obs();
                            nrem = 1;
                        }
                    }
                    let mut put = |x: C::Item| {
                        let p = x.obs();
                        if nrem < NP {
                            rem[nrem] = p;
                        }
                        nrem += 1;
                    };
                    if m().uses == 3 {
                        it.collect::<Vec<_>>().into_iter().for_each(&mut put);
                    } else {
                        it.for_each(&mut put);
                    }
                    nrem = nrem.min(NP);
                    ended = true;
                    return;
                }
                loop {
                    if nrem >= k || nrem >= NP {
                        break;
                    }
                    match it.next() {
                        Some(x) => {
                            rem[nrem] = x.obs();
                            nrem += 1;
                        }
                        None => {
                            ended = true;
                            break;
                        }
                    }
                }
                drop(it);
            }
        })
    });
    let x = m();
    if mc::verbose() {
        mc::trace(|| format!("end: {:?}: remainder {:?}{}", end, &rem[..nrem], if ended { " end" } else { "" }));
    }
    let mut final_panic = false;
    if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        mc::user(|| drop(e));
        final_panic = true;
        if !msg.starts_with("injected panic") {
            bad(mon::NOPANIC | mon::LEDGER | mon::LEAK, || format!("dropping / converting the iterator panicked: {msg}"));
        }
    }
    let any_end = x.th[..cfg.progs.len()].iter().any(|t| t.seen_end);
    let died = x.th[..cfg.progs.len()].iter().any(|t| t.died);
    let clean = !x.panicked && !x.skip_begun && !died;
    let len = m().len;
    // exactly once
    if any_end && clean {
        if x.anon || len > NP {
            if x.ndeliv != len {
                bad(mon::ONCE | mon::VISIT, || format!("{} of {len} elements delivered although the end was reported", m().ndeliv));
            }
        } else if let Some(p) = (0..len).find(|p| x.cnt[*p] != 1) {
            bad(mon::ONCE | mon::VISIT, || {
                format!("all calls returned and the end was reported, but position {p} was delivered {} times", m().cnt[p])
            });
        }
    }
    // folds
    if clean && cfg.progs.iter().all(|p| p.iter().all(|o| matches!(o, Op::O(_)))) && !cfg.progs.is_empty() && !x.anon && len <= NP {
        let sum = x.th[..cfg.progs.len()].iter().fold(0u64, |a, t| a.wrapping_add(t.fold));
        let want: u64 = (0..len).map(fold_weight).sum();
        if sum != want {
            bad(mon::VISIT, || format!("the combined fold is {sum:#x}, the sequential fold {want:#x}"));
        }
    }
    // remainder
    if let (Ending::Seq(_), false, false, false) = (end, x.panicked, died, final_panic) {
        if len > NP {
            let und = len - x.ndeliv.min(len);
            let d = x.ndeliv;
            let want: Vec<usize> = match und {
                0 => vec![],
                1 => vec![d],
                2 | 3 => vec![d, d + 1],
                _ => vec![d, d + 1, len - 1],
            };
            let ok = if x.skip_begun {
                nrem == 0 || (rem[0] >= d && rem[..nrem].iter().all(|p| *p < len))
            } else {
                rem[..nrem] == want[..] && ended == (und != 3)
            };
            if !ok {
                bad(mon::REM, || format!("the remainder starts / ends with {:?} (ended: {ended}), expected {want:?}", &rem[..nrem]));
            }
        } else if x.anon {
            let und = len - x.ndeliv.min(len);
            let ok = if ended { if x.skip_begun { nrem <= und } else { nrem == und } } else { nrem <= und };
            if !ok {
                bad(mon::REM, || format!("the remainder has {nrem} elements, {und} were not delivered"));
            }
        } else {
            let und: Vec<usize> = (0..len).filter(|p| x.cnt[*p] == 0).collect();
            let got = &rem[..nrem];
            let ok = if x.skip_begun {
                if ended {
                    und.ends_with(got)
                } else {
                    got.is_empty() || und.windows(nrem).any(|w| w == got)
                }
            } else if ended {
                got == &und[..]
            } else {
                und.starts_with(got)
            };
            if !ok && cfg.revive == 0 {
                bad(mon::REM, || format!("the remainder is {got:?}, the undelivered positions are {und:?}"));
            }
            if let Some(p) = got.iter().find(|p| **p < NP && x.cnt[**p] > 0) {
                bad(mon::ONCE | mon::SKIP, || format!("position {p} was delivered and is in the remainder as well"));
            }
            let _ = hint;
        }
    }
    // ledger
    let owned_fixed = cfg.kind.starts_with("vec:") || cfg.kind.starts_with("vecfrom") || cfg.kind.starts_with("arr:");
    let owned = owned_fixed || cfg.kind.starts_with("iter:");
    let lg = l();
    let tracked = cfg.len.max(lg.src_len).min(NP - 8) + 8;
    let own_flags = mon::LEDGER | mon::PANICC;
    if owned {
        for p in 0..tracked {
            if lg.created[p] == 0 {
                continue;
            }
            let (d, r) = (lg.delivered[p], lg.dropped[p]);
            if d + r != 1 {
                bad(own_flags, || {
                    if d + r == 0 {
                        format!("element {p} was neither delivered nor destroyed")
                    } else {
                        format!("element {p} was delivered {d} times and destroyed {r} times")
                    }
                });
            }
        }
        if lg.z_created != lg.z_delivered + lg.z_dropped {
            bad(own_flags, || {
                let g = l();
                format!("{} elements: {} delivered, {} destroyed", g.z_created, g.z_delivered, g.z_dropped)
            });
        }
    } else if lg.dropped[..tracked].iter().any(|d| *d > 0) || lg.delivered[..tracked].iter().any(|d| *d > 0) {
        bad(mon::SOURCE | mon::TRANSPARENT | mon::LEDGER, || "an element of a borrowed source was moved out or destroyed".into());
    }
    if lg.clones != lg.clone_delivered + lg.clone_dropped {
        bad(mon::LEDGER | mon::PANICC | mon::LEAK, || {
            let g = l();
            format!("{} clones were made, {} delivered, {} destroyed", g.clones, g.clone_delivered, g.clone_dropped)
        });
    }
    if let Some(b) = lg.bad.clone() {
        bad(mon::LEDGER | mon::SOURCE | mon::TRANSPARENT | mon::PANICC | mon::OWNERS, || b);
    }
    // memory
    let (live, blocks, badf, bmsg) = mc::arena_stats();
    if mc::verbose() {
        mc::trace(|| format!("heap at the end: {live} bytes in {blocks} blocks, {badf} invalid deallocations"));
    }
    if badf > 0 {
        bad(mon::LEAK | mon::LEDGER | mon::PANICC, || format!("invalid deallocation: {bmsg}"));
    }
    if live != 0 || blocks != 0 {
        bad(mon::LEAK, || format!("{live} bytes in {blocks} heap blocks are still allocated after everything was dropped"));
    }
    // races
    if let Some(o) = pm().overlap.clone() {
        bad(mon::RACE, || o);
    }
    if let Some(r) = mc::eng().races.first().cloned() {
        bad(mon::RACE, || r);
    }
    // source intact
    if m().ck & (mon::SOURCE | mon::TRANSPARENT) != 0 {
        for i in 0..cfg.len.min(rc().src_e.len()) {
            let before = l().bad.is_some();
            let _ = (&rc().src_e[i]).obs_src(i);
            if !before && l().bad.is_some() {
                bad(mon::SOURCE | mon::TRANSPARENT, || format!("element {i} of the source was modified"));
            }
        }
    }
    if rc().outcomes.is_some() {
        let mut h = 0u64;
        for t in 0..cfg.progs.len() {
            h = mc::mix(h, m().th[t].tr);
            h = mc::mix(h, m().th[t].fold);
        }
        for p in &rem[..nrem] {
            h = mc::mix(h, *p as u64);
        }
        h = mc::mix(h, ended as u64 | (final_panic as u64) << 1);
        let prof = m().ck & mon::PROFILE != 0;
        if prof {
            h = mc::mix(h, hint.0 as u64);
            for p in 0..tracked {
                h = mc::mix(h, (lg.delivered[p] as u64) << 8 | lg.dropped[p] as u64);
            }
            h = mc::mix(h, (lg.z_dropped as u64) << 32 | lg.z_delivered as u64);
            h = mc::mix(h, live as u64 ^ (blocks as u64) << 32);
            h = mc::mix(h, badf as u64);
            h = mc::mix(h, lg.bad.is_some() as u64);
        }
        let rem = rem[..nrem].to_vec();
        outcome(h, || {
            let g = l();
            format!(
                "delivered={:?} remainder={rem:?} moved={:?} destroyed={:?} live={live} panicked={} end_panic={final_panic}",
                &m().cnt[..m().len.min(NP)],
                &g.delivered[..m().len.min(NP)],
                &g.dropped[..m().len.min(NP)],
                m().panicked
            )
        });
    }
}
