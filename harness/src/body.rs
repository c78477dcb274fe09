//! Thread bodies: interpret a program against any `ConcurrentIter`.
use crate::elem::{l, Obs, NP};
use crate::mon::{self, m};
use crate::prog::Op;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::{ConcurrentIter, NextChunk};
use orx_verif_std::mc;

pub struct Ctx<C> {
    pub c: *const C,
    pub progs: &'static [Vec<Op>],
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> (bool, String) {
    let _s = mc::sys();
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    drop(_s);
    drop(e);
    let inj = s.starts_with("injected panic");
    (inj, s)
}

/// runs one call; an unwinding call ends up in the monitor
fn guarded(f: impl FnOnce()) {
    if let Err(e) = mc::catch(f) {
        let (inj, msg) = panic_msg(e);
        mon::op_panicked(inj, &msg);
        let _s = mc::sys();
        drop(msg);
    }
}

fn got<T: Obs, I: ExactSizeIterator<Item = T>>(
    r: &Option<NextChunk<T, I>>,
    n: usize,
    buffered: bool,
) -> Option<(usize, usize)> {
    match r {
        None => {
            mon::pull_end(None, n, false, buffered);
            None
        }
        Some(ch) => {
            let a = ch.values.len();
            let h = ch.values.size_hint();
            mon::pull_end(Some((ch.begin_idx, a)), n, false, buffered);
            mon::chunk_size_hint(ch.begin_idx, a, h);
            Some((ch.begin_idx, a))
        }
    }
}
fn consume<T: Obs, I: ExactSizeIterator<Item = T>>(mut it: I, b: usize, a: usize, part: Option<u8>) {
    let mut i = 0;
    let uses = if m().len > NP { 0 } else { m().uses };
    match (uses, part) {
        (0 | 7, _) => {}
        (2 | 8, p) => {
            // every second element, or jumps of various lengths that may lead beyond the end
            let max = p.map_or(usize::MAX, |k| k as usize);
            let mut jumps = if uses == 2 { [1, 1, 1, 1] } else { [2, 0, 3, 1] }.into_iter().cycle();
            while i < max && i < NP {
                let j = jumps.next().unwrap_or(0);
                match it.nth(j) {
                    Some(x) => {
                        mon::chunk_elem(b, i + j, x.obs(), a, it.len());
                        mon::chunk_rest(b, it.len(), it.size_hint());
                        i += j + 1;
                    }
                    None => {
                        mon::chunk_done(b, if i + j >= a { a } else { i }, a);
                        exhausted(&mut it, b, i, a);
                        break;
                    }
                }
            }
            return;
        }
        (_, Some(_)) => {}
        (1, _) => {
            it.for_each(|x| {
                mon::chunk_elem(b, i, x.obs(), a, a.wrapping_sub(i + 1));
                i += 1;
            });
            mon::chunk_done(b, i, a);
            return;
        }
        (3, _) => {
            let v: Vec<T> = it.collect();
            let n = v.len();
            for x in v {
                mon::chunk_elem(b, i, x.obs(), a, a.wrapping_sub(i + 1));
                i += 1;
            }
            mon::chunk_done(b, n, a);
            return;
        }
        (4, _) => {
            mon::chunk_done(b, it.count(), a);
            return;
        }
        (5, _) => {
            match it.last() {
                Some(x) => mon::chunk_elem(b, a.wrapping_sub(1), x.obs(), a, 0),
                None => mon::chunk_done(b, 0, a),
            }
            return;
        }
        _ => {
            if let Some(x) = it.next() {
                mon::chunk_elem(b, 0, x.obs(), a, it.len());
                i = 1;
            }
            it.for_each(|x| {
                mon::chunk_elem(b, i, x.obs(), a, a.wrapping_sub(i + 1));
                i += 1;
            });
            mon::chunk_done(b, i, a);
            return;
        }
    }
    loop {
        if let Some(k) = part {
            if i >= k as usize {
                break;
            }
        }
        if m().len > NP && i >= 3 {
            break;
        }
        match it.next() {
            Some(x) => {
                let p = x.obs();
                mon::chunk_elem(b, i, p, a, it.len());
                mon::chunk_rest(b, it.len(), it.size_hint());
                i += 1;
                if i > NP {
                    break;
                }
            }
            None => {
                mon::chunk_done(b, i, a);
                mon::chunk_rest(b, it.len(), it.size_hint());
                if it.len() != 0 {
                    mon::chunk_done(b, i + it.len(), a);
                }
                if uses == 7 {
                    exhausted(&mut it, b, i, a);
                }
                break;
            }
        }
    }
    drop(it);
}

/// nothing follows, however often one asks
fn exhausted<T: Obs, I: ExactSizeIterator<Item = T>>(it: &mut I, b: usize, i: usize, a: usize) {
    for k in 0..3 {
        let n = it.len();
        if n != 0 {
            mon::chunk_done(b, i.wrapping_add(n), a);
        }
        mon::chunk_rest(b, n, it.size_hint());
        if let Some(x) = if k == 1 { it.nth(1) } else { it.next() } {
            mon::chunk_elem(b, a.wrapping_add(k), x.obs(), a, it.len());
        }
    }
}

fn closure_call() {
    let x = m();
    let k = x.closure_calls;
    x.closure_calls += 1;
    if mc::active() && x.closure_panic_at.is_some() {
        mc::note(k as u64 + 0xF00);
        let e = mc::eng();
        e.probe_hash = mc::mix(e.probe_hash, 0xF00);
    }
    if x.closure_panic_at == Some(k) {
        {
            let _s = mc::sys();
            l().injected = true;
            mc::trace(|| "    injected panic in the closure".into());
        }
        panic!("injected panic in closure");
    }
}

/// a fold value from which every element and its multiplicity can be read off
pub fn fold_weight(p: usize) -> u64 {
    match p {
        0..15 => 1u64 << (4 * p),
        _ => mc::mix(0xF01D, p as u64) | 1,
    }
}
/// bound of a loop that ends when the source does
fn lim() -> usize {
    m().len.min(NP) + 64
}

type Pull<'a> = &'a mut dyn FnMut(usize, Option<u8>) -> bool;

fn exec<C>(c: &C, prog: &[Op], pull: Pull, tid: usize)
where
    C: ConcurrentIter + AtomicIter<<C as ConcurrentIter>::Item>,
    C::Item: Obs,
{
    for (i, op) in prog.iter().enumerate() {
        if m().th[tid].died {
            return;
        }
        let rest = &prog[i + 1..];
        if let Op::B(0, _) | Op::F(0) | Op::E(0) | Op::O(0) = *op {
            let mut returned = false;
            let r = mc::catch(|| {
                match *op {
                    Op::B(..) => drop(c.buffered_iter(0)),
                    Op::F(_) => c.for_each(0, |x| drop(x.obs())),
                    Op::E(_) => c.enumerate_for_each(0, |_, x| drop(x.obs())),
                    _ => drop(c.fold(0, 0usize, |a, x| a ^ x.obs())),
                }
                returned = true;
            });
            if let Err(e) = r {
                let (_, msg) = panic_msg(e);
                let _s = mc::sys();
                drop(msg);
            }
            mon::zero_size(op, returned);
            continue;
        }
        match *op {
            Op::N => guarded(|| {
                mon::op_begin(op, false);
                let r = c.next();
                mon::single_end(r.map(|x| x.obs()), None);
            }),
            Op::I => guarded(|| {
                mon::op_begin(op, false);
                let r = c.next_id_and_value();
                let (p, x) = match r {
                    Some(n) => (Some(n.value.obs()), Some(n.idx)),
                    None => (None, None),
                };
                mon::single_end(p, x);
            }),
            Op::V1 => guarded(|| {
                mon::op_begin(op, false);
                let r = c.values().next();
                mon::single_end(r.map(|x| x.obs()), None);
            }),
            Op::W1 => guarded(|| {
                mon::op_begin(op, false);
                let r = c.ids_and_values().next();
                let (x, p) = match r {
                    Some((i, v)) => (Some(i), Some(v.obs())),
                    None => (None, None),
                };
                mon::single_end(p, x);
            }),
            Op::C(n, part) => guarded(|| {
                mon::op_begin(op, false);
                let r = c.next_chunk(n);
                if let Some((b, a)) = got(&r, n, false) {
                    consume(r.unwrap().values, b, a, part);
                }
            }),
            Op::B(n, part) => guarded(|| {
                mon::op_begin(op, false);
                pull(n, part);
            }),
            Op::LN => {
                for _ in 0..lim() {
                    let mut end = false;
                    guarded(|| {
                        mon::op_begin(op, false);
                        let r = c.next();
                        end = r.is_none();
                        mon::single_end(r.map(|x| x.obs()), None);
                    });
                    if end || m().th[tid].died {
                        break;
                    }
                }
            }
            Op::LI => {
                for _ in 0..lim() {
                    let mut end = false;
                    guarded(|| {
                        mon::op_begin(op, false);
                        let r = c.next_id_and_value();
                        let (p, x) = match r {
                            Some(n) => (Some(n.value.obs()), Some(n.idx)),
                            None => (None, None),
                        };
                        end = p.is_none();
                        mon::single_end(p, x);
                    });
                    if end || m().th[tid].died {
                        break;
                    }
                }
            }
            Op::LC(n) => {
                for _ in 0..lim() {
                    let mut end = false;
                    guarded(|| {
                        mon::op_begin(op, false);
                        let r = c.next_chunk(n);
                        match got(&r, n, false) {
                            Some((b, a)) => consume(r.unwrap().values, b, a, None),
                            None => end = true,
                        }
                    });
                    if end || m().th[tid].died {
                        break;
                    }
                }
            }
            Op::LB(n) => {
                for _ in 0..lim() {
                    let mut end = false;
                    guarded(|| {
                        mon::op_begin(op, false);
                        end = !pull(n, None);
                    });
                    if end || m().th[tid].died {
                        break;
                    }
                }
            }
            Op::V => guarded(|| {
                mon::op_begin(op, true);
                match m().uses {
                    1 => c.values().for_each(|x| mon::deliver(x.obs(), None)),
                    3 => {
                        // takes some, then the rest
                        if let Some(x) = c.values().next() {
                            mon::deliver(x.obs(), None);
                        }
                        c.values().fold((), |_, x| mon::deliver(x.obs(), None));
                    }
                    7 => {
                        let mut v = c.values();
                        for x in v.by_ref() {
                            mon::deliver(x.obs(), None);
                        }
                        for x in v {
                            mon::deliver(x.obs(), None);
                        }
                    }
                    _ => {
                        for x in c.values() {
                            mon::deliver(x.obs(), None);
                        }
                    }
                }
                mon::composite_end();
            }),
            Op::W => guarded(|| {
                mon::op_begin(op, true);
                match m().uses {
                    1 => c.ids_and_values().for_each(|(i, x)| mon::deliver(x.obs(), Some(i))),
                    3 => {
                        if let Some((i, x)) = c.ids_and_values().next() {
                            mon::deliver(x.obs(), Some(i));
                        }
                        c.ids_and_values().fold((), |_, (i, x)| mon::deliver(x.obs(), Some(i)));
                    }
                    7 => {
                        let mut v = c.ids_and_values();
                        for (i, x) in v.by_ref() {
                            mon::deliver(x.obs(), Some(i));
                        }
                        for (i, x) in v {
                            mon::deliver(x.obs(), Some(i));
                        }
                    }
                    _ => {
                        for (i, x) in c.ids_and_values() {
                            mon::deliver(x.obs(), Some(i));
                        }
                    }
                }
                mon::composite_end();
            }),
            Op::F(n) => guarded(|| {
                mon::op_begin(op, true);
                c.for_each(n, |x| {
                    mon::deliver(x.obs(), None);
                    closure_call();
                });
                mon::composite_end();
            }),
            Op::E(n) => guarded(|| {
                mon::op_begin(op, true);
                c.enumerate_for_each(n, |i, x| {
                    mon::deliver(x.obs(), Some(i));
                    closure_call();
                });
                mon::composite_end();
            }),
            Op::O(n) => guarded(|| {
                mon::op_begin(op, true);
                let r = c.fold(n, 0u64, |acc, x| {
                    let p = x.obs();
                    mon::deliver(p, None);
                    closure_call();
                    acc + fold_weight(p)
                });
                m().th[tid].fold = m().th[tid].fold.wrapping_add(r);
                mon::composite_end();
            }),
            Op::Skip => guarded(|| {
                mon::op_begin(op, false);
                c.skip_to_end();
                mon::skip_end();
            }),
            Op::G1 => guarded(|| {
                mon::op_begin(op, false);
                let r = c.fetch_one();
                let (p, x) = match r {
                    Some(n) => (Some(n.value.obs()), Some(n.idx)),
                    None => (None, None),
                };
                mon::single_end(p, x);
            }),
            Op::GC(n, part) => guarded(|| {
                mon::op_begin(op, false);
                let r = c.fetch_n(n);
                if let Some((b, a)) = got(&r, n, false) {
                    consume(r.unwrap().values, b, a, part);
                }
            }),
            Op::GX => guarded(|| {
                mon::op_begin(op, false);
                c.early_exit();
                mon::skip_end();
            }),
            Op::GP(n) => guarded(|| {
                mon::op_begin(op, true);
                let _ = c.progress_and_get_begin_idx(n);
                m().skip_begun = true;
                mon::neutral_end();
            }),
            Op::GA(n) => guarded(|| {
                mon::op_begin(op, true);
                c.counter().fetch_and_add(n);
                m().skip_begun = true;
                mon::neutral_end();
            }),
            Op::X => panic!("clone is not supported here"),
            Op::QL => guarded(|| {
                mon::op_begin(op, false);
                let r = c.try_get_len();
                mon::len_end(r, None);
            }),
            Op::QM => guarded(|| {
                mon::op_begin(op, false);
                let r = c.has_more();
                mon::len_end(None, Some(r));
            }),
            Op::H(n) => {
                let mut done = false;
                guarded(|| {
                    mon::op_begin(op, false);
                    let r = c.next_chunk(n);
                    if let Some((b, a)) = got(&r, n, false) {
                        let it = r.unwrap().values;
                        exec(c, rest, pull, tid);
                        done = true;
                        mc::point(0x4000 + tid);
                        consume(it, b, a, None);
                    }
                });
                if done {
                    return;
                }
            }
            Op::HB(n) => {
                let mut done = false;
                guarded(|| {
                    mon::op_begin(op, false);
                    let mut bi = c.buffered_iter(n);
                    let r = bi.next();
                    if let Some((b, a)) = got(&r, n, true) {
                        let it = r.unwrap().values;
                        exec(c, rest, pull, tid);
                        done = true;
                        mc::point(0x4000 + tid);
                        consume(it, b, a, None);
                    }
                });
                if done {
                    return;
                }
            }
        }
    }
}

pub fn body<C>(ctx: *const (), tid: usize)
where
    C: ConcurrentIter + AtomicIter<<C as ConcurrentIter>::Item>,
    C::Item: Obs,
{
    let cx = unsafe { &*(ctx as *const Ctx<C>) };
    let c = unsafe { &*cx.c };
    let mut bufs = [None, None];
    let mut pull = |n: usize, part: Option<u8>| -> bool {
        let k = match (&bufs[0], &bufs[1]) {
            (Some((a, _)), _) if *a == n => 0,
            (_, Some((a, _))) if *a == n => 1,
            (None, _) => 0,
            (_, None) => 1,
            _ => 0,
        };
        if !matches!(&bufs[k], Some((a, _)) if *a == n) {
            bufs[k] = Some((n, c.buffered_iter(n)));
        }
        let r = bufs[k].as_mut().unwrap().1.next();
        match got(&r, n, true) {
            Some((b, a)) => {
                consume(r.unwrap().values, b, a, part);
                true
            }
            None => false,
        }
    };
    exec(c, &cx.progs[tid], &mut pull, tid);
}
