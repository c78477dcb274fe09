//! Online oracles. Every judgement is made against what the property states; which properties are
//! judged in a run is selected by `ck`.
use crate::elem::{l, pm, BADPOS, NP};
use crate::prog::*;
use orx_verif_std::mc::{self, MAXT};

pub const ONCE: u32 = 1 << 1;
pub const IDX: u32 = 1 << 2;
pub const CHUNK: u32 = 1 << 3;
pub const ORDER: u32 = 1 << 4;
pub const END: u32 = 1 << 5;
pub const SKIP: u32 = 1 << 6;
pub const RACE: u32 = 1 << 7;
pub const LEDGER: u32 = 1 << 8;
pub const PROGRESS: u32 = 1 << 9;
pub const REM: u32 = 1 << 10;
pub const LEN: u32 = 1 << 11;
pub const VISIT: u32 = 1 << 12;
pub const TRANSPARENT: u32 = 1 << 13;
pub const OWNERS: u32 = 1 << 14;
pub const LEAK: u32 = 1 << 15;
pub const BOUND: u32 = 1 << 16;
pub const PROFILE: u32 = 1 << 17;
pub const PANICC: u32 = 1 << 18;
pub const SOURCE: u32 = 1 << 19;
/// an unexpected panic contradicts the property
pub const NOPANIC: u32 = ONCE | CHUNK | ORDER | END | SKIP | PROGRESS | REM | VISIT | TRANSPARENT | PANICC | LEN | BOUND;

#[derive(Clone, Copy, Default)]
pub struct Snap {
    pub max_done: i128,
    pub end: bool,
    pub skip: bool,
    pub min_len: usize,
    pub zero: bool,
    pub single_end: bool,
}
#[derive(Clone, Copy, Default)]
pub struct ThMon {
    pub snap: Snap,
    pub open: bool,
    pub composite: bool,
    pub is_skip: bool,
    pub last: i128,
    pub seen_end: bool,
    pub pulled_end: bool,
    pub tr: u64,
    pub fold: u64,
    pub died: bool,
}
pub struct Mon {
    pub ck: u32,
    pub len: usize,
    /// try_get_len must be exact while quiescent
    pub known: bool,
    pub anon: bool,
    pub uses: u8,
    pub cnt: [u8; NP],
    pub visits: [u8; NP],
    pub ndeliv: usize,
    pub maxdeliv: i128,
    pub max_done: i128,
    pub end: bool,
    pub skip: bool,
    pub skip_begun: bool,
    pub min_len: usize,
    pub zero: bool,
    pub single_end: bool,
    pub panicked: bool,
    pub anom: u32,
    pub inflight: u32,
    pub iso: usize,
    pub total: usize,
    /// delivered intervals of a source with more than NP positions
    pub spans: [(usize, usize); 16],
    pub nspans: usize,
    pub closure_calls: usize,
    pub closure_panic_at: Option<usize>,
    pub th: [ThMon; MAXT],
}
static mut MON: Mon = Mon {
    ck: 0,
    len: 0,
    known: true,
    anon: false,
    uses: 0,
    cnt: [0; NP],
    visits: [0; NP],
    ndeliv: 0,
    maxdeliv: -1,
    max_done: -1,
    end: false,
    skip: false,
    skip_begun: false,
    min_len: usize::MAX,
    zero: false,
    single_end: false,
    panicked: false,
    anom: 0,
    inflight: 0,
    iso: usize::MAX,
    total: 0,
    spans: [(0, 0); 16],
    nspans: 0,
    closure_calls: 0,
    closure_panic_at: None,
    th: [ThMon {
        snap: Snap { max_done: -1, end: false, skip: false, min_len: usize::MAX, zero: false, single_end: false },
        open: false,
        composite: false,
        is_skip: false,
        last: -1,
        seen_end: false,
        pulled_end: false,
        tr: 0,
        fold: 0,
        died: false,
    }; MAXT],
};
#[allow(static_mut_refs)]
#[inline]
pub fn m() -> &'static mut Mon {
    unsafe { &mut MON }
}

pub fn reset(ck: u32, len: usize, known: bool, anon: bool) {
    let x = m();
    x.ck = ck;
    x.len = len;
    x.known = known;
    x.anon = anon;
    x.cnt = [0; NP];
    x.visits = [0; NP];
    x.ndeliv = 0;
    x.maxdeliv = -1;
    x.max_done = -1;
    x.end = false;
    x.skip = false;
    x.skip_begun = false;
    x.min_len = usize::MAX;
    x.zero = false;
    x.single_end = false;
    x.panicked = false;
    x.anom = 0;
    x.inflight = 0;
    x.iso = usize::MAX;
    x.total = 0;
    x.nspans = 0;
    x.closure_calls = 0;
    x.closure_panic_at = None;
    for t in x.th.iter_mut() {
        *t = ThMon { last: -1, snap: snap0(), ..Default::default() };
    }
    *l() = crate::elem::Ledger::new();
    pm().busy = -1;
    pm().overlap = None;
}
fn snap0() -> Snap {
    Snap { max_done: -1, min_len: usize::MAX, ..Default::default() }
}

/// reports a violation if it belongs to a property under check
pub fn bad(flags: u32, msg: impl FnOnce() -> String) {
    let _s = mc::sys();
    m().anom |= flags;
    if m().ck & flags != 0 {
        let s = msg();
        mc::trace(|| format!("!! {s}"));
        mc::fail(s);
    }
}

fn bytes(h: u64, b: &[u8]) -> u64 {
    b.chunks(8).fold(h, |h, c| {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        mc::mix(h, u64::from_le_bytes(w))
    })
}
/// Everything the monitors know and may judge by later.
pub fn state() -> u64 {
    let x = m();
    let ck = x.ck;
    let order = ck & (ORDER | SKIP) != 0;
    let history = ck & (TRANSPARENT | PROFILE) != 0 || crate::run::rc().outcomes.is_some();
    let n = if x.len <= NP { x.len } else { 0 };
    let g = l();
    let p = n.max((g.src_len).min(NP));
    let mut h = bytes(ck as u64, &x.cnt[..n]);
    h = bytes(h, &x.visits[..n]);
    h = bytes(h, &g.created[..p]);
    h = bytes(h, &g.delivered[..p]);
    h = bytes(h, &g.dropped[..p]);
    for w in [
        x.ndeliv as u64,
        x.maxdeliv as u64,
        x.inflight as u64 | (x.nspans as u64) << 32,
        x.iso as u64,
        x.closure_calls as u64 | (x.anom as u64) << 32,
        g.clones as u64 | (g.clone_delivered as u64) << 32,
        g.clone_dropped as u64 | (g.z_created as u64) << 32,
        g.z_delivered as u64 | (g.z_dropped as u64) << 32,
        g.clone_panic_at.map(|x| x as u64 + 1).unwrap_or(0),
        x.closure_panic_at.map(|x| x as u64 + 1).unwrap_or(0),
        pm().busy as u64,
        mc::eng().races.len() as u64,
        x.skip_begun as u64
            | (x.panicked as u64) << 1
            | (g.bad.is_some() as u64) << 2
            | (pm().overlap.is_some() as u64) << 3
            | (g.injected as u64) << 4
            | (x.end as u64) << 5
            | (x.skip as u64) << 6
            | (x.zero as u64) << 7
            | (x.single_end as u64) << 8,
    ] {
        h = mc::mix(h, w);
    }
    if order {
        h = mc::mix(h, x.max_done as u64);
    }
    if ck & LEN != 0 {
        h = mc::mix(h, x.min_len as u64);
    }
    for (a, b) in &x.spans[..x.nspans] {
        h = mc::mix(mc::mix(h, *a as u64), *b as u64);
    }
    for t in &x.th {
        h = mc::mix(
            h,
            t.open as u64
                | (t.composite as u64) << 1
                | (t.is_skip as u64) << 2
                | (t.seen_end as u64) << 3
                | (t.pulled_end as u64) << 4
                | (t.died as u64) << 5,
        );
        h = mc::mix(h, t.fold);
        if order {
            h = mc::mix(h, t.last as u64);
        }
        if history {
            h = mc::mix(h, t.tr);
        }
        if t.open {
            let s = &t.snap;
            h = mc::mix(h, s.end as u64 | (s.skip as u64) << 1 | (s.zero as u64) << 2 | (s.single_end as u64) << 3);
            if order {
                h = mc::mix(h, s.max_done as u64);
            }
            if ck & LEN != 0 {
                h = mc::mix(h, s.min_len as u64);
            }
        }
    }
    mc::mix(h, crate::multi::state())
}

fn sync() {
    let x = m();
    let ck = x.ck;
    let mut h = 0u64;
    if ck & (ORDER | SKIP) != 0 {
        h = mc::mix(h, x.max_done as u64);
    }
    if ck & (ORDER | LEN | SKIP | REM) != 0 {
        h = mc::mix(h, x.iso as u64);
    }
    if ck & END != 0 {
        h = mc::mix(h, x.end as u64 + 10);
    }
    if ck & (SKIP | LEN) != 0 {
        h = mc::mix(h, x.skip as u64 + 20);
    }
    if ck & LEN != 0 {
        h = mc::mix(h, x.min_len as u64);
        h = mc::mix(h, x.zero as u64 | (x.single_end as u64) << 1);
    }
    h = mc::mix(h, x.skip_begun as u64);
    mc::eng().mon_hash = h;
}

/// first step of the current call of thread `t`
pub fn on_start(t: usize) {
    if crate::run::rc().multi {
        return crate::multi::on_start(t);
    }
    let x = m();
    let ck = x.ck;
    if !x.th[t].open {
        x.th[t].open = true;
        x.inflight += 1;
    }
    if x.th[t].is_skip {
        x.skip_begun = true;
    }
    x.iso = if x.inflight == 1 && !x.th[t].composite { t } else { usize::MAX };
    let s = Snap {
        max_done: x.max_done,
        end: x.end,
        skip: x.skip,
        min_len: x.min_len,
        zero: x.zero,
        single_end: x.single_end,
    };
    x.th[t].snap = s;
    let mut h = 0u64;
    if ck & (ORDER | SKIP) != 0 {
        h = mc::mix(h, s.max_done as u64);
    }
    if ck & END != 0 {
        h = mc::mix(h, s.end as u64);
    }
    if ck & (SKIP | LEN) != 0 {
        h = mc::mix(h, s.skip as u64);
    }
    if ck & LEN != 0 {
        h = mc::mix(h, s.min_len as u64);
        h = mc::mix(h, s.zero as u64 | (s.single_end as u64) << 1);
    }
    if h != 0 {
        mc::note(h);
    }
    sync();
}

pub fn op_begin(op: &Op, composite: bool) {
    let _s = mc::sys();
    let t = mc::cur();
    let th = &mut m().th[t];
    th.composite = composite;
    th.is_skip = matches!(op, Op::Skip);
    th.open = false;
    mc::op_begin();
    mc::trace(|| format!("T{t} calls {op}"));
}
/// response of the current call; returns whether it ran without any overlap
fn close(t: usize) -> bool {
    if mc::op_end() {
        on_start(t);
    }
    let iso = m().iso == t;
    m().inflight -= 1;
    m().th[t].open = false;
    if iso {
        m().iso = usize::MAX;
    }
    iso
}
fn tr(t: usize, x: u64) {
    let th = &mut m().th[t];
    th.tr = mc::mix(th.tr, x);
}

fn judge_span(t: usize, b: usize, n: usize) {
    let x = m();
    let s = x.th[t].snap;
    if n == 0 {
        return;
    }
    if x.anon {
        x.ndeliv += n;
        if x.ndeliv > x.len {
            bad(ONCE | LEDGER, || format!("{} elements delivered from a source of {}", m().ndeliv, m().len));
        }
    } else {
        if x.len > NP {
            let end = b as u128 + n as u128;
            if end > x.len as u128 {
                bad(ONCE | IDX | CHUNK | ORDER | END | SKIP | VISIT | REM | LEN, || {
                    format!("positions {b}..{end} delivered from a source of {} elements", m().len)
                });
            }
            for (c, k) in &x.spans[..x.nspans] {
                if (b as u128) < *c as u128 + *k as u128 && (*c as u128) < end {
                    bad(ONCE | SKIP | ORDER | PANICC | REM | LEN, || format!("positions {b}..{end} overlap the delivered {c}+{k}"));
                }
            }
            if x.nspans < 16 {
                x.spans[x.nspans] = (b, n);
                x.nspans += 1;
            }
            x.ndeliv = x.ndeliv.saturating_add(n);
            x.maxdeliv = x.maxdeliv.max(end as i128 - 1);
        } else {
        for p in b..b.saturating_add(n).min(b.saturating_add(NP)) {
            if p >= x.len {
                bad(ONCE | IDX | CHUNK | ORDER | END | SKIP | VISIT | REM | LEN, || {
                    format!("position {p} delivered from a source of {} elements", m().len)
                });
                continue;
            }
            x.cnt[p] = x.cnt[p].saturating_add(1);
            if x.cnt[p] == 1 {
                x.ndeliv += 1;
                x.maxdeliv = x.maxdeliv.max(p as i128);
            } else {
                bad(ONCE | SKIP | ORDER | PANICC | REM | LEN, || format!("position {p} delivered twice"));
            }
        }
        }
        let last = m().th[t].last;
        if (b as i128) <= last {
            bad(ORDER | SKIP, || format!("T{t} received position {b} after position {last}"));
        }
        if (b as i128) <= s.max_done {
            bad(ORDER | SKIP, || {
                format!("T{t} received position {b} by a pull that started after position {} had been returned", s.max_done)
            });
        }
        m().th[t].last = b as i128 + n as i128 - 1;
    }
    if s.end {
        bad(END, || format!("T{t} received position {b} by a pull that started after the end had been reported"));
    }
    if s.skip {
        bad(SKIP, || format!("T{t} received position {b} by a pull that started after skip_to_end had returned"));
    }
    if s.zero {
        bad(LEN, || format!("T{t} received position {b} by a pull that started after a query had answered 0 / No"));
    }
}
fn publish(b: usize, n: usize) {
    let x = m();
    if n > 0 && !x.anon {
        x.max_done = x.max_done.max(b as i128 + n as i128 - 1);
    }
}
fn quiescent() {
    let x = m();
    if x.inflight == 0 && !x.skip_begun && !x.anon && !x.panicked && x.maxdeliv + 1 != x.ndeliv as i128 {
        bad(ORDER, || {
            format!("no call in flight, yet the delivered positions {:?} are not a prefix", &m().cnt[..m().len.min(NP)])
        });
    }
}

/// a pull returned: `r` = (begin position, length)
pub fn pull_end(r: Option<(usize, usize)>, n: usize, single: bool, buffered: bool) {
    let _s = mc::sys();
    let t = mc::cur();
    let before = m().ndeliv;
    if mc::op_end() {
        on_start(t);
    }
    let x = m();
    let s = x.th[t].snap;
    x.total += 1;
    match r {
        Some((b, c)) => {
            mc::trace(|| format!("T{t}   returns {c} element(s) from position {b}"));
            tr(t, mc::mix(b as u64, c as u64));
            if c == 0 {
                bad(CHUNK, || format!("T{t} received an empty chunk (begin {b})"));
            }
            if c > n {
                bad(CHUNK, || format!("T{t} asked for {n} elements and received a chunk of {c}"));
            }
            if n == 0 {
                bad(CHUNK | ORDER | ONCE, || format!("T{t} asked for zero elements and received {c}"));
            }
            if c < n && b.saturating_add(c) != x.len && !x.panicked {
                bad(CHUNK, || {
                    format!("T{t} asked for {n} elements and received {c} from position {b}, which does not end at the last element")
                });
            }
            judge_span(t, b, c);
        }
        None => {
            mc::trace(|| format!("T{t}   reports the end"));
            tr(t, 0xE0D);
            if n > 0 {
                x.th[t].seen_end = true;
                x.th[t].pulled_end = true;
            }
        }
    }
    let x = m();
    let iso = x.iso == t;
    if iso && !x.skip_begun && !x.panicked && n > 0 {
        // not overlapped by any other call: must be exactly the sequential cursor's answer
        let want = if before < x.len { Some((before, n.min(x.len - before))) } else { None };
        let got = match r {
            Some((_, c)) if x.anon => Some((before, c)),
            r => r,
        };
        if got != want {
            bad(ORDER, || format!("a call that overlaps no other returned {got:?}, the sequential cursor gives {want:?}"));
        }
    }
    close(t);
    let x = m();
    match r {
        Some((b, c)) => publish(b, c),
        None => {
            if n > 0 {
                x.end = true;
                if !buffered {
                    x.single_end = true;
                }
            }
        }
    }
    let _ = (single, s);
    quiescent();
    sync();
}

/// an element of a composite call (for_each, for-loop adaptor, ...) arrived
pub fn deliver(pos: usize, idx: Option<usize>) {
    let _s = mc::sys();
    let t = mc::cur();
    if pos == BADPOS {
        not_source(t);
        return;
    }
    mc::trace(|| format!("T{t}   gets element {pos}{}", idx.map(|i| format!(" with index {i}")).unwrap_or_default()));
    tr(t, (pos as u64).wrapping_add(5));
    let anon = m().anon;
    if let Some(i) = idx {
        tr(t, i as u64);
        if !anon && i != pos {
            bad(IDX | VISIT | SKIP, || format!("T{t} received element {pos} with index {i}"));
        }
    }
    if pos < NP && !anon {
        m().visits[pos] = m().visits[pos].saturating_add(1);
    }
    judge_span(t, pos, 1);
    publish(pos, 1);
    m().total += 1;
    if m().total > 200 + 4 * m().len.min(NP) {
        bad(PROGRESS | ONCE | VISIT | END, || format!("more than {} deliveries from a source of {} elements", m().total - 1, m().len));
    }
    // the next internal pull starts after this delivery
    m().th[t].open = true;
    mc::op_begin();
    sync();
}
pub fn composite_end() {
    let _s = mc::sys();
    let t = mc::cur();
    mc::trace(|| format!("T{t}   returns"));
    close(t);
    let x = m();
    x.th[t].seen_end = true;
    x.end = true;
    tr(t, 0xF0);
    quiescent();
    sync();
}
fn not_source(t: usize) {
    bad(ONCE | IDX | CHUNK | ORDER | END | SKIP | LEDGER | VISIT | TRANSPARENT | SOURCE, || {
        format!("T{t} received something that is not an element of the source: {}", l().bad.clone().unwrap_or_default())
    });
}

/// single pull returned
pub fn single_end(pos: Option<usize>, idx: Option<usize>) {
    let _s = mc::sys();
    let t = mc::cur();
    if pos == Some(BADPOS) {
        not_source(t);
    }
    if let (Some(p), Some(i)) = (pos, idx) {
        if !m().anon && p != i {
            bad(IDX | SKIP, || format!("T{t} received element {p} with index {i}"));
        }
        tr(t, (i as u64).wrapping_add(3));
    }
    pull_end(pos.map(|p| (p, 1)), 1, true, false);
}

/// element number `i` of a chunk that began at `b`
pub fn chunk_elem(b: usize, i: usize, pos: usize, announced: usize, left: usize) {
    let _s = mc::sys();
    let t = mc::cur();
    mc::trace(|| format!("T{t}     chunk[{i}] = element {pos}"));
    if pos == BADPOS {
        not_source(t);
        return;
    }
    tr(t, (pos as u64).wrapping_add(9));
    if !m().anon && pos != b.wrapping_add(i) {
        bad(IDX | CHUNK | SKIP | ONCE | ORDER, || format!("T{t}: element {i} of the chunk that begins at {b} is element {pos}"));
    }
    if left != announced.wrapping_sub(i + 1) {
        bad(CHUNK, || format!("T{t}: after {} of {announced} elements the chunk announces {left} more", i + 1));
    }
    if i >= announced {
        bad(CHUNK | ONCE, || format!("T{t}: a chunk that announced {announced} elements yields element {i}"));
    }
}
pub fn chunk_size_hint(b: usize, announced: usize, hint: (usize, Option<usize>)) {
    if hint != (announced, Some(announced)) {
        bad(CHUNK, || format!("the chunk at {b} announces len() = {announced} but size_hint() = {hint:?}"));
    }
}
/// between two elements
pub fn chunk_rest(b: usize, len: usize, hint: (usize, Option<usize>)) {
    if hint != (len, Some(len)) {
        bad(CHUNK, || format!("the partly consumed chunk at {b} announces len() = {len} but size_hint() = {hint:?}"));
    }
}
pub fn chunk_done(b: usize, n: usize, announced: usize) {
    let t = mc::cur();
    if n != announced {
        bad(CHUNK | ONCE, || format!("T{t}: the chunk at {b} announced {announced} elements and yielded {n}"));
    }
}

pub fn len_end(r: Option<usize>, has: Option<orx_concurrent_iter::HasMore>) {
    use orx_concurrent_iter::HasMore;
    let _s = mc::sys();
    let t = mc::cur();
    if mc::op_end() {
        on_start(t);
    }
    let iso = m().iso == t;
    let x = m();
    let s = x.th[t].snap;
    mc::trace(|| format!("T{t}   answers {:?}", has.map(|h| format!("{h:?}")).unwrap_or(format!("{r:?}"))));
    let (val, is_hm) = match has {
        Some(HasMore::Yes(n)) => (Some(n), true),
        Some(HasMore::No) => (Some(0), true),
        Some(HasMore::Maybe) => (None, true),
        None => (r, false),
    };
    tr(t, val.map(|v| (v as u64).wrapping_add(100)).unwrap_or(99) ^ is_hm as u64);
    if has == Some(HasMore::Yes(0)) {
        bad(LEN, || "has_more answered Yes(0)".into());
    }
    if let Some(v) = val {
        if v > s.min_len {
            bad(LEN, || format!("length {v} reported after {} had been reported", s.min_len));
        }
        if v > 0 && s.end {
            bad(END, || format!("length {v} reported by a query that started after the end had been reported"));
        }
        if v > 0 && s.skip {
            bad(SKIP, || format!("length {v} reported by a query that started after skip_to_end had returned"));
        }
    }
    if s.skip && is_hm && val != Some(0) {
        bad(SKIP, || format!("has_more answered {has:?} after skip_to_end had returned"));
    }
    if iso && !x.panicked {
        let rem = if x.skip { 0 } else { x.len - x.ndeliv.min(x.len) };
        match val {
            Some(v) => {
                if v != rem {
                    bad(LEN, || format!("no call in flight: {v} reported, {rem} elements will be delivered"));
                }
            }
            None => {
                if x.known {
                    bad(LEN, || "no answer for a source of known size".into());
                }
                if s.single_end {
                    bad(LEN, || "Maybe / None answered although a single or one-shot chunk pull has reported the end".into());
                }
            }
        }
    } else if val.is_none() && x.known {
        bad(LEN, || "no answer for a source of known size".into());
    }
    close(t);
    let x = m();
    if let Some(v) = val {
        x.min_len = x.min_len.min(v);
        x.zero |= v == 0;
    }
    sync();
}
pub fn neutral_end() {
    let _s = mc::sys();
    close(mc::cur());
    sync();
}
pub fn skip_end() {
    let _s = mc::sys();
    let t = mc::cur();
    mc::trace(|| format!("T{t}   skip_to_end returned"));
    close(t);
    m().skip = true;
    m().skip_begun = true;
    tr(t, 0x5C1F);
    sync();
}
/// the call panicked
pub fn op_panicked(injected: bool, msg: &str) {
    let _s = mc::sys();
    let t = mc::cur();
    mc::trace(|| format!("T{t}   unwinds: {msg}"));
    m().panicked = true;
    if m().th[t].open || { let p = mc::op_end(); if p { on_start(t); } p } {
        m().th[t].open = true;
        close(t);
    }
    tr(t, 0xDEAD);
    if !injected {
        bad(NOPANIC, || format!("T{t}: the call panicked: {msg}"));
        m().th[t].died = true;
    }
    sync();
}

/// buffered_iter(0), for_each(0, ..), fold(0, ..): documented to panic
pub fn zero_size(op: &Op, returned: bool) {
    let _s = mc::sys();
    let t = mc::cur();
    mc::trace(|| format!("T{t} calls {op}: {}", if returned { "returns" } else { "panics" }));
    tr(t, 0x2E60 + returned as u64);
    if returned {
        bad(BOUND, || format!("{op} (chunk size zero) returned instead of panicking"));
    }
}
