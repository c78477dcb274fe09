//! The configurations of every property and the shard runner.
use crate::mon::*;
use crate::prog::*;
use crate::{multi, run};
use orx_verif_std::mc;
use std::io::Write;
use std::time::{Duration, Instant};

pub fn ck(p: &str) -> u32 {
    match p {
        "C01" => ONCE,
        "C02" => IDX,
        "C03" => CHUNK,
        "C04" => ORDER,
        "C05" => END,
        "C06" => SKIP,
        "C07" => RACE,
        "C08" => LEDGER,
        "C09" => PROGRESS,
        "C10" => REM,
        "C11" => LEN,
        "C12" => VISIT,
        "C13" => TRANSPARENT,
        "C14" => OWNERS,
        "C15" => LEAK,
        "C16" => BOUND | ONCE | IDX | CHUNK | ORDER | END | LEN | REM,
        "C17" => PROFILE,
        "C18" => PANICC | PROGRESS,
        "C19" => SOURCE,
        _ => panic!("unknown property {p}"),
    }
}

const KNOWN_REF: [&str; 5] = ["slice:E", "slicecon:E", "vecref:E", "arrref:E", "slice:K"];
const KNOWN_ADAPT: [&str; 4] = ["cloned:slice", "cloned:vecref", "cloned:arrref", "copied:slice"];
const RANGES: [&str; 2] = ["range", "rangecon"];
const OWNED: [&str; 8] = ["vec:E", "vec:B", "vec:L", "vec:Z", "arr:E", "arr:B", "arr:L", "arr:Z"];
const WRAP: [&str; 4] = ["iter:E", "iterref:E", "cloned:iterref", "copied:iterref"];
const WRAP_OWNED: [&str; 4] = ["iter:E", "iter:B", "iter:L", "iter:Z"];

fn known() -> Vec<&'static str> {
    let mut v = vec!["vec:E", "vec:Z", "vec:K", "arr:E", "arr:Z"];
    v.extend(KNOWN_REF);
    v.extend(KNOWN_ADAPT);
    v.extend(RANGES);
    v
}
/// one representative per implementation (constructors differ, the iterator type does not)
fn known_core() -> Vec<&'static str> {
    vec!["vec:E", "arr:E", "slice:E", "range", "cloned:slice", "copied:slice"]
}
fn all_kinds() -> Vec<&'static str> {
    let mut v = known();
    v.extend(WRAP);
    v
}
fn ops(s: &str) -> Vec<Op> {
    s.split_whitespace().map(parse_op).collect()
}
fn progs(s: &str) -> Vec<Prog> {
    s.split_whitespace().map(parse_prog).collect()
}
fn wraps(k: &str) -> bool {
    k.starts_with("iter") || k.ends_with("iterref")
}
/// every prefix followed by every suffix
fn prefixed(pre: &[Prog], suf: &[Prog]) -> Vec<Prog> {
    let mut v = Vec::new();
    for a in pre {
        for b in suf {
            let mut x = a.clone();
            x.extend(b);
            v.push(x);
        }
    }
    v
}

struct B {
    v: Vec<Config>,
    thorough: bool,
}
impl B {
    fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough { t } else { q }
    }
    /// programs × kinds × lengths, `f` adjusts or rejects
    fn add(&mut self, kinds: &[&str], lens: &[usize], ps: &[Vec<Prog>], f: impl Fn(&mut Config) -> bool) {
        for p in ps {
            for k in kinds {
                for l in lens {
                    if k.contains("arr") && *l > 5 && !(["arr:E", "arrref:E"].contains(k) && [40, 130, 1030].contains(l)) {
                        continue;
                    }
                    let mut c = Config::new(k, *l, p.clone());
                    if f(&mut c) {
                        self.v.push(c);
                    }
                }
            }
        }
    }
}
fn single(ps: Vec<Prog>) -> Vec<Vec<Prog>> {
    ps.into_iter().map(|p| vec![p]).collect()
}
fn yes(_: &mut Config) -> bool {
    true
}
fn ends(c: &Config, es: &[Ending], out: &mut Vec<Config>) {
    for e in es {
        let mut d = c.clone();
        d.end = *e;
        out.push(d);
    }
}
/// the same configurations under every ending
fn with_ends(b: &mut B, es: &[Ending], f: impl FnOnce(&mut B)) {
    let mut q = B { v: vec![], thorough: b.thorough };
    f(&mut q);
    for c in &q.v {
        ends(c, es, &mut b.v);
    }
}

pub fn configs(p: &str, tier: &str) -> Vec<Config> {
    let mut b = B { v: vec![], thorough: tier == "thorough" };
    let th = b.thorough;
    let k = known();
    let kc = known_core();
    let all = all_kinds();
    let loops = progs("LN LI LC1 LC2 LC3 LB1 LB2 LB3 V W F1 F2 E1 E2 O1 O2");
    match p {
        "C01" | "C02" => {
            let c01 = p == "C01";
            let lp = if c01 { loops } else { progs("LI LC1 LC2 LC3 LB1 LB2 LB3 W E1 E2 E3 LN F2") };
            b.add(&all, &[0, 1, 2, 3, 4], &multisets(&lp, 2), yes);
            let pre = progs("N C2/0 C2/1 H2 HB2 B2/1 B3/0 I");
            let suf = if c01 { progs("LN LC2 LB2 F2 V") } else { progs("LI LC2 LB2 E2 W") };
            let pp = prefixed(&pre, &suf);
            b.add(&kc, &b.pick(vec![1, 3, 5], vec![0, 1, 2, 3, 4, 5, 6]), &multisets(&pp, 2), yes);
            b.add(&["iter:E"], &b.pick(vec![2, 4], vec![1, 2, 3, 4, 5]), &multisets(&pp, 2), yes);
            if th {
                b.add(&["iterref:E", "cloned:iterref"], &[3], &multisets(&pp, 2), yes);
            }
            let three = if c01 { progs("LN LC2 LB2 F2 V") } else { progs("LI LC2 LB2 E2 W") };
            b.add(&kc, &b.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 4, 5]), &multisets(&three, 3), yes);
            b.add(&["iter:E"], &b.pick(vec![0, 1, 2], vec![0, 1, 2, 3, 4]), &multisets(&three, 3), yes);
            b.add(&kc, &[0, 2, 3], &multisets(&progs(if c01 { "LN LC2 LB2" } else { "LI LC2 LB2" }), 4), yes);
            if th {
                b.add(&["iter:E"], &[0, 1], &multisets(&progs(if c01 { "LN LC2" } else { "LI LB2" }), 4), yes);
            }
            // skips and non-fused sources must not disturb indices
            if !c01 {
                let a = seqs_upto(&ops("I C2/1 B2 S"), 2, 3);
                b.add(&all, &[3, 5], &single(a), yes);
            }
        }
        "C03" => {
            let al = ops("C1 C2 C3/1 C2/0 B2 B3/1 B2/0 N");
            for h in 0..5 {
                b.add(&["iter:E"], &[0, 1, 2, 3, 4, 5, 6], &single(seqs_upto(&al, 1, 3)), |c| {
                    c.hint = h;
                    true
                });
            }
            b.add(&all, &b.pick(vec![3, 5], vec![0, 1, 2, 3, 4, 5]), &single(seqs_upto(&al, 1, b.pick(3, 4))), yes);
            b.add(&all, &[0, 1, 2, 3, 4, 5], &single(seqs(&ops("C2/1 B2/1 B3/0 HB2 H3 B3 C0"), 3)), yes);
            let two = seqs(&ops("C2 C3/1 B2/1 B3 N"), 2);
            b.add(&kc, &[1, 3, 4, 5], &multisets(&two, 2), yes);
            b.add(&["iter:E"], &b.pick(vec![3], vec![1, 2, 3, 4, 5]), &multisets(&two, 2), yes);
            let lp = progs("LC1 LC2 LC3 LB1 LB2 LB3 LN");
            b.add(&all, &[1, 2, 3, 4, 5], &multisets(&lp, 2), yes);
            b.add(&kc, &[3, 4], &multisets(&progs("LC2 LB2 LB3 LN"), 3), yes);
            b.add(&["iter:E"], &b.pick(vec![3], vec![1, 2, 3, 4]), &multisets(&progs("LC2 LB2 LN"), 3), yes);
            // chunks next to a skip
            b.add(&all, &[4], &product(&progs("C3,C2 B3,B3 B2/1,B2"), &progs("S N,S")), yes);
            if th {
                b.add(&["iterref:E", "cloned:iterref"], &[3, 4], &multisets(&two, 2), yes);
            }
        }
        "C04" => {
            let al = ops("N I C2 C3/1 B2 B3/1");
            b.add(&all, &b.pick(vec![0, 1, 3, 5], vec![0, 1, 2, 3, 4, 5, 6]), &single(seqs_upto(&ops("N I C2 C3/1 B2 B3/1 V1 W1"), 1, b.pick(3, 4))), yes);
            let seq2 = progs("F1 F2 E2 O2 V W LN LC2 LB2 C0 ?L ?M");
            b.add(&all, &[0, 1, 2, 3, 4], &single(prefixed(&seqs(&ops("N C2/1 B2 I"), 1), &prefixed(&seq2, &seq2))), yes);
            let three = seqs(&ops("N C2 B2"), 3);
            let two = seqs(&al, 2);
            b.add(&kc, &[2, 3, 4], &multisets(&two, 2), yes);
            b.add(&kc, &[4], &multisets(&three, 2), yes);
            b.add(&["iter:E"], &b.pick(vec![2, 3], vec![1, 2, 3, 4, 5]), &multisets(&two, 2), yes);
            b.add(&["iter:E"], &b.pick(vec![], vec![3, 4]), &multisets(&three, 2), yes);
            b.add(&kc, &[2, 3], &multisets(&seqs(&ops("N C2 B2"), 2), 3), yes);
            b.add(&["iter:E"], &b.pick(vec![], vec![2, 3]), &multisets(&seqs(&ops("N B2"), 2), 3), yes);
            b.add(&["iter:E"], &[2, 3], &multisets(&progs("N C2 B2 I"), 3), yes);
            b.add(&all, &[3, 4], &multisets(&progs("LN LC2 LB2 V E2 H2,N HB2,N"), 2), yes);
        }
        "C05" => {
            let al = ops("N I C1 C2 C3 B2 B3 V1 W1 ?L ?M C0");
            b.add(&all, &b.pick(vec![0, 1], vec![0, 1, 2, 3]), &single(seqs_upto(&al, 1, 3)), yes);
            let deep = ops("N C2 B2 B3/1 ?L");
            b.add(&all, &[0, 1, 2, 3], &single(seqs(&deep, b.pick(4, 5))), yes);
            // far beyond the end: chunk sizes whose sum passes the largest index
            let huge = ops("N C2 Cmax-0 Chalf+1 Cmax-1 B2");
            b.add(&all, &[0, 1, 2, 3], &single(seqs_upto(&huge, 1, 4)), yes);
            b.add(&k, &[0, 1, 2, 3], &single(prefixed(&seqs(&ops("Bmax-0 Bhalf+1 C2"), 2), &seqs(&ops("Bmax-0 Bhalf+1 N"), 2))), yes);
            b.add(&all, &[0, 2, 3], &single(prefixed(&progs("LN LC2 LC3 LB2 LB3 F2 F3 E3 O2 V W"), &seqs_upto(&ops("N C2 B2 F1 F2 V ?L ?M LN"), 1, 2))), yes);
            // wrapped iterators that are not fused or do not know their size
            let nf = ops("N C2 C3 B2 B3 F2 ?L ?M");
            for hint in [0, 1, 2] {
                for rv in [1, 2] {
                    b.add(&["iter:E"], &[0, 1, 2, 3], &single(seqs_upto(&nf, 2, b.pick(3, 4))), |c| {
                        c.revive = rv;
                        c.hint = hint;
                        true
                    });
                }
            }
            let two = seqs(&ops("N C2 B2"), 2);
            for rv in [0, 2] {
                b.add(&["iter:E"], &b.pick(vec![0, 1], vec![0, 1, 2, 3]), &multisets(&two, 2), |c| {
                    c.revive = rv;
                    true
                });
                b.add(&["iter:E"], &b.pick(vec![1], vec![0, 1, 2, 3]), &product(&seqs(&ops("N C3 B3 ?L"), 2), &seqs(&ops("N C2 B2 ?M"), 2)), |c| {
                    c.revive = rv;
                    c.hint = if c.len == 1 { 1 } else { 0 };
                    true
                });
                b.add(&["iter:E"], &[0, 1, 2, 3], &multisets(&progs("LN,N LC2,N LB2,N LB3,C2 LC3,B2 F2,N"), 2), |c| {
                    c.revive = rv;
                    true
                });
                b.add(&["iter:E"], &b.pick(vec![1], vec![0, 1, 2]), &multisets(&progs("N C2 B2 N,N"), 3), |c| {
                    c.revive = rv;
                    true
                });
            }
            b.add(&kc, &[0, 1, 2, 3], &multisets(&seqs(&ops("N C2 B3 ?L Cmax-0"), 2), 2), yes);
            b.add(&kc, &[0, 1, 2], &multisets(&seqs(&ops("N C2"), 3), 2), yes);
            b.add(&kc, &[1, 2], &multisets(&seqs(&ops("N C2 B2"), 2), 3), yes);
        }
        "C06" => {
            let al = ops("N I C2 B2 B3/1 S ?M");
            let has_skip = |c: &mut Config| c.progs.iter().flatten().any(|o| o.is_skip());
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(99)], |b| {
                b.add(&all, &[0, 1, 3, 5], &single(seqs_upto(&al, 1, b.pick(3, 4))), has_skip);
            });
            b.add(&all, &[3], &single(prefixed(&seqs_upto(&ops("N C2/1 B2 H2 HB2"), 0, 1), &prefixed(&progs("S"), &seqs_upto(&ops("N C2 B2 Cmax-0 Chalf+1 S F2 V ?M ?L"), 2, 3)))), yes);
            let x = seqs_upto(&ops("N I C2 B2"), 1, 2);
            let y = prefixed(&seqs_upto(&ops("N C2 B2"), 0, 1), &prefixed(&progs("S"), &seqs_upto(&ops("N C2 B2 ?M"), 0, 1)));
            b.add(&kc, &[1, 2, 3, 4], &product(&x, &y), yes);
            b.add(&["iter:E"], &b.pick(vec![2, 3], vec![0, 1, 2, 3, 4]), &product(&x, &y), yes);
            let y2 = progs("S S,N S,C2 S,B2 N,S S,?M S,N,N");
            b.add(&all, &[0, 2, 4], &product(&progs("LN LC2 LB2 V W F2 E2 O2 H2,N HB2,N LN,N"), &y2), yes);
            b.add(&all, &[2, 3], &multisets(&progs("S S,N N,S C2,S,N B2,S,B2"), 2), yes);
            let mut three = vec![];
            for m in multisets(&progs("LN LC2 LB2 N,N C2 B2"), 2) {
                for s in progs("S S,N N,S") {
                    let mut q = m.clone();
                    q.push(s);
                    three.push(q);
                }
            }
            b.add(&kc, &[2, 3], &three, yes);
            b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &three, yes);
            if th {
                b.add(&["iterref:E", "cloned:iterref"], &[2, 3], &product(&x, &y), yes);
                for h in [1, 2] {
                    b.add(&["iter:E"], &[2], &product(&x, &y), |c| {
                        c.hint = h;
                        true
                    });
                }
            }
        }
        "C07" | "C07T" => {
            let tsan = p == "C07T";
            let lp = progs("LN LC2 LB2 LB1 V F2 N,N C2,N B2,N N,C2 S,N N,S ?L,N LC1,?M H2,N HB2,N");
            let mut it = vec!["iter:E", "iterref:E", "cloned:iterref"];
            if tsan {
                it = vec!["iter:E", "iter:B"];
                it.extend(["vec:E", "vec:B", "arr:E", "arr:B", "slice:E", "range", "cloned:slice"]);
            }
            for stale in 0..b.pick(2, 3) {
                b.add(&it, &b.pick(vec![0, 1, 2], vec![0, 1, 2, 3]), &multisets(&lp, 2), |c| {
                    c.race = true;
                    c.pp = c.kind == "iter:E" && stale == 0;
                    c.stale = stale;
                    true
                });
            }
            if !tsan {
                b.add(&it, &[3, 4], &multisets(&progs("LN LC2 LB2 F2"), 2), |c| {
                    c.race = true;
                    c.pp = true;
                    c.stale = 1;
                    true
                });
            }
            let t3 = progs("N C2 B2 S LN");
            b.add(&["iter:E"], &b.pick(vec![1, 2], vec![1, 2, 3]), &multisets(&t3, 3), |c| {
                c.race = true;
                c.pp = true;
                true
            });
            b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("N C2 B2 S"), 3), |c| {
                c.race = true;
                c.stale = 1;
                true
            });
            // wrap-around of tickets, panics and non-fused sources must not break exclusivity
            b.add(&["iter:E"], &[1, 2], &multisets(&progs("S,N N,N C2,S,N S,Cmax-0,N Cmax-0,N N,Chalf+1,N"), 2), |c| {
                c.race = true;
                c.pp = true;
                true
            });
            for k in 0..3 {
                b.add(&["iter:E"], &[2], &multisets(&progs("N,N C2,N B2,N F2,N LN"), 2), |c| {
                    c.race = true;
                    c.pp = true;
                    c.panic = Some(('n', k));
                    true
                });
            }
            b.add(&["iter:E"], &[1, 2], &multisets(&progs("N,N,N C2,N B3,N LB2,C2"), 2), |c| {
                c.race = true;
                c.pp = true;
                c.revive = 2;
                c.hint = 1;
                true
            });
        }
        "C08" | "C15" => {
            let es = [Ending::Drop, Ending::Seq(99), Ending::Seq(0), Ending::Seq(1)];
            let caps: Vec<usize> = if p == "C15" { vec![0, 3] } else { vec![0] };
            let mut own: Vec<&str> = OWNED.to_vec();
            own.push("vecfrom:E");
            own.extend(WRAP_OWNED);
            let al = ops("N C2/1 C3/0 B2/1 B3/0 S C2");
            with_ends(&mut b, &es, |b| {
                for cap in &caps {
                    b.add(&own, &b.pick(vec![0, 1, 3, 5], vec![0, 1, 2, 3, 4, 5]), &single(seqs_upto(&al, 0, b.pick(2, 3))), |c| {
                        c.cap = *cap;
                        *cap == 0 || c.kind.starts_with("vec")
                    });
                    b.add(&own, &[1, 2, 3, 4], &single(seqs_upto(&ops("H2 HB2 LN V1 F2 S N Cmax-0 Chalf+1"), 1, 2)), |c| {
                        c.cap = *cap;
                        *cap == 0 || c.kind.starts_with("vec")
                    });
                }
                let x = progs("N N,N C2 C2/1 B2/0 B3/1 LN LB2 H2,N HB2,N F2 S N,S");
                b.add(&OWNED, &[1, 2, 3, 4], &multisets(&x, 2), yes);
                b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3, 4]), &multisets(&x, 2), yes);
                b.add(&["vec:E", "arr:E"], &[2, 3], &multisets(&progs("N C2/1 B2/1 S LN N,S"), 3), yes);
                b.add(&["iter:E"], &b.pick(vec![], vec![2, 3]), &multisets(&progs("N C2/1 B2/1 S"), 3), yes);
            });
            // references and clones: nothing of the source may be destroyed, every clone accounted for
            b.add(&["cloned:slice", "cloned:vecref", "cloned:arrref", "cloned:iterref", "slice:E", "vecref:E"], &[0, 1, 3], &single(seqs_upto(&al, 1, 2)), yes);
            // non-fused and unsized wrapped iterators
            for (h, r) in [(1, 0), (0, 2), (2, 2)] {
                b.add(&["iter:E", "iter:B"], &[0, 1, 2, 3], &single(seqs_upto(&al, 1, 2)), |c| {
                    c.hint = h;
                    c.revive = r;
                    true
                });
            }
            if th {
                with_ends(&mut b, &es, |b| {
                    b.add(&["vec:E", "arr:E", "vec:B"], &[3, 4, 5], &multisets(&seqs(&al, 2), 2), yes);
                });
            }
        }
        "C09" => {
            let lp = progs("LN LC2 LB2 V F2 E2 O2 S S,N N,S N,N,N C2,C2 B2,B2 C3 ?L,N ?M,N");
            b.add(&all, &[0, 1, 2, 3], &multisets(&lp, 2), yes);
            b.add(&["iter:E"], &[1, 2, 3], &multisets(&lp, 2), |c| {
                c.pp = true;
                true
            });
            for h in [1, 2] {
                b.add(&["iter:E"], &[0, 1, 2], &multisets(&lp, 2), |c| {
                    c.hint = h;
                    c.revive = 2;
                    true
                });
            }
            b.add(&["iter:E"], &b.pick(vec![1, 2], vec![0, 1, 2, 3]), &multisets(&progs("LN LC2 LB2 S N,N C3"), 3), yes);
            b.add(&["iter:E"], &b.pick(vec![2], vec![0, 1, 2, 3]), &multisets(&seqs(&ops("N C2 B2 S"), 2), 2), yes);
            // nobody waits on a source of known size
            b.add(&k, &[0, 1, 2, 3], &multisets(&lp, 2), |c| {
                c.nowait = true;
                true
            });
            b.add(&kc, &[0, 2, 3], &multisets(&progs("LN LC2 LB2 V F2 S N ?L"), 3), |c| {
                c.nowait = true;
                true
            });
            // panics elsewhere, extreme chunk sizes
            b.add(&all, &[0, 2], &multisets(&progs("Cmax-0,N,N Chalf+1,Chalf+1,N LN S,N,Cmax-0,N Cmax-2,C2,N"), 2), yes);
            // single thread: programs followed by everything that may wait
            b.add(&all, &[0, 1, 2, 3], &single(seqs_upto(&ops("N C2 B2 S C0 ?L ?M F2 V C3/1 B3/0"), 1, 3)), yes);
            b.add(&["iter:E", "cloned:iterref"], &[0, 1, 2], &single(seqs(&ops("N C0 C2 B2 S"), 4)), yes);
            if th {
                b.add(&["iter:E"], &[1, 2], &multisets(&progs("N C2 B2 S"), 4), yes);
                b.add(&["iter:E"], &[3], &multisets(&seqs(&ops("N C2 B3 S"), 2), 2), |c| {
                    c.pp = true;
                    true
                });
            }
        }
        "C10" => {
            let mut kinds = all.clone();
            kinds.extend(["vec:B", "arr:B", "vec:L", "arr:L", "vecfrom:E"]);
            let al = ops("N I C2 C3/1 C2/0 B2 B3/1 S");
            with_ends(&mut b, &[Ending::Seq(99), Ending::Seq(1)], |b| {
                b.add(&kinds, &b.pick(vec![0, 1, 3, 5], vec![0, 1, 2, 3, 4, 5, 6]), &single(seqs_upto(&al, 0, 3)), yes);
                b.add(&kinds, &[0, 1, 2, 3, 4], &single(seqs_upto(&ops("LN LC2 LB3 V F2 H2 HB2 Cmax-0 Chalf+1 C0 ?L N"), 1, 2)), yes);
                for h in [1, 2, 3] {
                    b.add(&["iter:E", "cloned:iterref"], &[0, 1, 3], &single(seqs_upto(&al, 0, 2)), |c| {
                        c.hint = h;
                        true
                    });
                }
                let x = progs("N N,N C2 C2/1 B2/0 B3/1 LN S N,S H2,N I");
                b.add(&kc, &[1, 2, 3, 4], &multisets(&x, 2), yes);
                b.add(&["iter:E"], &b.pick(vec![3], vec![1, 2, 3, 4]), &multisets(&x, 2), yes);
                b.add(&kc, &[3], &multisets(&progs("N C2/1 B2/1 S"), 3), yes);
                b.add(&["iter:E"], &b.pick(vec![2], vec![2, 3]), &multisets(&progs("N C2/1 B2/1 S"), 3), yes);
            });
        }
        "C11" => {
            let al = ops("N C2 C3/1 B2 B3/0 ?L ?M S");
            b.add(&all, &b.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 4]), &single(seqs_upto(&al, 1, 3)), yes);
            b.add(&all, &[0, 1, 2, 3], &single(prefixed(&seqs_upto(&ops("N C2 B2 Cmax-0 Chalf+1 S C0"), 1, b.pick(2, 3)), &progs("?L,?M"))), yes);
            b.add(&all, &[0, 1, 2, 4], &single(prefixed(&progs("LN LC2 LC3 LB2 V F2 E1 O2"), &progs("?L,?M ?M,N,?M"))), yes);
            for h in 1..5 {
                b.add(&["iter:E", "iterref:E", "cloned:iterref"], &[0, 1, 2, 3], &single(seqs_upto(&al, 1, 3)), |c| {
                    c.hint = h;
                    true
                });
            }
            let q = progs("?L ?M ?L,?L ?M,?L ?M,N ?L,N N,?M C2,?L B2,?M N,?L,N");
            let x = progs("N C2 B2 C3 B3 N,N S N,S N,?L ?M,N LN LB2");
            b.add(&kc, &[0, 1, 2, 3], &product(&q, &x), yes);
            b.add(&["cloned:slice", "copied:slice"], &[2], &product(&q, &x), yes);
            for h in [0, 1, 2] {
                b.add(&["iter:E", "cloned:iterref"], &b.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 4]), &product(&q, &x), |c| {
                    c.hint = h;
                    true
                });
            }
            let mut three = vec![];
            for m in multisets(&progs("N C2 B2 S C3"), 2) {
                for s in progs("?L,?L ?M,N ?M,?M") {
                    let mut q = m.clone();
                    q.push(s);
                    three.push(q);
                }
            }
            b.add(&kc, &[1, 2, 3], &three, yes);
            for h in [0, 1] {
                b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &three, |c| {
                    c.hint = h;
                    true
                });
            }
        }
        "C12" => {
            let lp = progs("F1 F2 F3 E1 E2 E3 O1 O2 O3");
            b.add(&all, &[0, 1, 2, 3, 4, 5], &single(prefixed(&[vec![]], &lp)), yes);
            b.add(&all, &[0, 1, 2, 3, 4, 5], &single(prefixed(&lp, &lp)), yes);
            b.add(&all, &[0, 1, 2, 3, 4], &multisets(&lp, 2), yes);
            b.add(&kc, &[5, 6, 7], &multisets(&progs("F2 E3 O4 F7 E8 O1"), 2), yes);
            b.add(&kc, &[0, 2, 4, 5], &multisets(&progs("F1 F2 E2 E3 O2 O1"), 3), yes);
            b.add(&["iter:E"], &b.pick(vec![0, 1, 2], vec![0, 1, 2, 3, 4]), &multisets(&progs("F1 F2 E2 O2"), 3), yes);
            b.add(&["iter:E"], &b.pick(vec![4], vec![4, 5, 6]), &multisets(&progs("F2 F4 E3 E4 O2 O4 F5"), 2), yes);
            b.add(&kc, &[2, 3], &multisets(&progs("F1 F2 E2 O2"), 4), yes);
            for h in [1, 2, 4] {
                b.add(&["iter:E"], &[0, 1, 2, 3, 4], &multisets(&progs("F1 F2 E2 O3"), 2), |c| {
                    c.hint = h;
                    true
                });
            }
            b.add(&all, &[3, 4], &product(&lp, &progs("N C2 B2/1 N,N LB2 ?L")), yes);
            if th {
                b.add(&["iterref:E", "cloned:iterref", "copied:iterref"], &[2], &multisets(&progs("F1 F2 E2 O2"), 3), yes);
                b.add(&["iter:E"], &[1], &multisets(&progs("F2 E1 O2"), 4), yes);
            }
        }
        "C13" => {
            let ad = ["cloned:slice", "cloned:vecref", "cloned:arrref", "copied:slice", "cloned:iterref", "copied:iterref"];
            let al = ops("N I C2 C3/1 B2 B3/0 S ?L ?M V1 W1");
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(99)], |b| {
                b.add(&ad, &b.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 4]), &single(seqs_upto(&al, 1, b.pick(2, 3))), yes);
                b.add(&ad, &b.pick(vec![4], vec![4, 5]), &single(seqs(&ops("N C2 C3/1 B2 B3/1 S ?L"), 3)), yes);
                b.add(&ad, &[0, 2, 3], &single(seqs_upto(&ops("V W F1 F2 E2 O2 LN LB2 LC3 H2 HB2 C0 Cmax-0 F0 B0"), 1, 2)), yes);
                b.add(&ad, &[2, 3], &multisets(&progs("LN LC2 LB2 N,N C2,?L B2,N S,?M V W F2 E2 N,S HB2,N I,?M"), 2), |c| c.end == Ending::Drop);
                for h in [1, 2, 3] {
                    b.add(&["cloned:iterref", "copied:iterref"], &[0, 1, 3], &single(seqs_upto(&al, 1, 2)), |c| {
                        c.hint = h;
                        true
                    });
                }
            });
            b.add(&["cloned:slice", "copied:slice", "cloned:vecref"], &[2, 3], &multisets(&progs("N C2 B2 I S ?L LN"), 3), yes);
            b.add(&["cloned:iterref", "copied:iterref"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("N C2 B2"), 3), yes);
            for r in [1, 2] {
                b.add(&["cloned:iterref", "copied:iterref"], &[0, 1, 2, 3], &single(seqs_upto(&ops("N C2 B2 ?L"), 2, 3)), |c| {
                    c.revive = r;
                    true
                });
            }
        }
        "C14" => {
            let al = ops("G1 GC2/1 GX GP1 GP2 GA1 GAhalf+1 GAmax-0 N B2/0");
            let es = [Ending::Drop, Ending::Seq(99), Ending::Seq(1)];
            let kinds = ["vec:E", "vec:B", "arr:E", "arr:B", "vec:Z", "arr:Z"];
            with_ends(&mut b, &es, |b| {
                b.add(&kinds, &b.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 4]), &single(seqs_upto(&al, 0, 3)), yes);
                b.add(&kinds, &[3], &single(seqs(&ops("N C2 S GAmax-0 GA1 G1 B2"), 4)), yes);
                b.add(&["vec:E", "arr:E", "vec:B"], &[1, 2, 3], &multisets(&progs("G1 GC2 N C2/1 B2/1 S GX GP1 GA1,N GAmax-0,N S,N GX,GC2 N,GX,N GAhalf+1,GAhalf+1,N"), 2), yes);
                b.add(&["vec:E", "arr:E"], &[2, 3], &multisets(&progs("G1 GC2 B2/0 S GP1 GAmax-0"), 3), yes);
                // wrapped iterators: the low-level calls that take no ticket without serving it
                let w = ops("G1 GC2/1 GX N B2/0 Cmax-0");
                b.add(&["iter:E", "iter:B"], &[0, 1, 3], &single(seqs_upto(&w, 1, 3)), yes);
                b.add(&["iter:E", "iter:B"], &[2], &multisets(&progs("G1 GC2 N B2/1 S GX GX,GC2 G1,GX,N"), 2), yes);
            });
        }
        "C16" => {
            let kinds = all.clone();
            let n = "max-0 max-1 half+1 half+0 0 1 2";
            let mut al: Vec<Op> = vec![Op::N, Op::QL];
            for x in n.split(' ') {
                al.push(Op::C(unnum(x), None));
            }
            with_ends(&mut b, &[Ending::Seq(99), Ending::Drop], |b| {
                b.add(&kinds, &[0, 1, 3], &single(seqs_upto(&al, 1, b.pick(3, 4))), yes);
                b.add(&kinds, &[0, 1, 3], &single(seqs_upto(&ops("Bmax-0 Bhalf+1 Cmax-0 N C0 ?L B2"), 1, 3)), yes);
                b.add(&kinds, &[0, 3], &single(seqs_upto(&ops("B0 F0 E0 O0 C0 N C2 ?L"), 1, 3)), yes);
                b.add(&kinds, &[0, 3], &single(seqs_upto(&ops("Fmax-0 Emax-0 Omax-1 Fhalf+1 N C2 S Cmax-0"), 1, 2)), yes);
            });
            let two = progs("C0 C0,N Cmax-0 Cmax-0,N Chalf+1,Chalf+1,N N,Cmax-1,N LN Bmax-0,N S,Cmax-0,N C2,C0,C2 Fmax-0");
            b.add(&kc, &[0, 1, 3], &multisets(&two, 2), yes);
            b.add(&["iter:E", "cloned:iterref"], &[0, 1, 3], &multisets(&two, 2), yes);
            // ranges anywhere in the index space
            let bounds: Vec<(&str, &str)> = vec![
                ("0", "0"), ("0", "1"), ("0", "3"), ("5", "5"), ("5", "2"), ("max-0", "0"), ("max-0", "max-0"), ("max-1", "max-0"),
                ("max-3", "max-0"), ("max-4", "max-1"), ("max-0", "max-3"), ("0", "max-0"), ("1", "max-0"), ("0", "max-1"), ("half+0", "max-0"),
                ("half+1", "max-0"), ("half+1", "half+4"), ("half-2", "half+2"), ("0", "half+1"), ("3", "max-1"), ("2", "7"), ("half+3", "half+1"),
            ];
            let mut rk: Vec<String> = Vec::new();
            for (x, y) in bounds {
                rk.push(format!("rng:{x}..{y}"));
            }
            let rk: Vec<&str> = rk.iter().map(|s| s.as_str()).collect();
            let mut al: Vec<Op> = ops("N I S ?L ?M");
            for x in "max-0 max-1 max-3 half+1 half+0 0 1 2 3".split(' ') {
                al.push(Op::C(unnum(x), None));
            }
            for x in "max-0 half+1 2".split(' ') {
                al.push(Op::B(unnum(x), None));
            }
            with_ends(&mut b, &[Ending::Seq(99)], |b| {
                b.add(&rk, &[0], &single(seqs_upto(&al, 0, b.pick(3, 4))), yes);
            });
            let two = progs("N,N C2,N Cmax-0 Cmax-0,N Chalf+1 Chalf+1,Chalf+1,N Bmax-0,N Bhalf+1,B2 S,N S,C2 S,Cmax-0 N,?L C0,N Cmax-2,C3,N");
            with_ends(&mut b, &[Ending::Seq(99)], |b| {
                b.add(&rk, &[0], &multisets(&two, 2), yes);
            });
            let three = progs("N C2 Cmax-0 Chalf+1 Bmax-0 S,N C0");
            b.add(&rk, &[0], &multisets(&three, 3), yes);
            let small: Vec<&str> = rk.iter().copied().filter(|k| ["rng:0..3", "rng:5..5", "rng:5..2", "rng:max-0..0", "rng:max-0..max-0", "rng:max-1..max-0", "rng:max-3..max-0", "rng:max-4..max-1", "rng:half+1..half+4", "rng:half-2..half+2", "rng:half+3..half+1", "rng:2..7", "rng:max-0..max-3"].contains(k)).collect();
            b.add(&small, &[0], &multisets(&progs("LN LC2 LB2 V W F2 E2 O1 LCmax-0 LBmax-0 Fmax-0 Ehalf+1 LBhalf+1"), 2), yes);
        }
        "C17" => {
            let mut kinds: Vec<&str> = vec!["vec:E", "vec:B", "vec:Z", "vec:K", "arr:E", "arr:B", "arr:Z", "slice:E", "range", "cloned:slice", "copied:slice", "vecfrom:E", "arrref:E"];
            kinds.extend(WRAP);
            kinds.extend(["iter:B", "iter:Z", "rng:max-3..max-0", "rng:5..2", "rng:0..max-0", "rng:half+1..max-1"]);
            let al = ops("N I C2/1 C0 C3 B2/1 B3 S ?L ?M Cmax-0 Chalf+1 Bmax-0 V1");
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(99)], |b| {
                b.add(&kinds, &[0, 1, 3], &single(seqs_upto(&al, 0, b.pick(2, 3))), yes);
            });
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(1)], |b| {
                b.add(&kinds, &[3, 5], &single(seqs(&ops("N C2 B2/0 B3/1 S Cmax-0"), 3)), |c| !c.kind.starts_with("rng"));
                b.add(&kinds, &[0, 2], &single(seqs_upto(&ops("V W F1 F2 E2 O2 LN LB2 LC3 H2 HB2 F0 B0 S"), 1, 2)), |c| !c.kind.starts_with("rng:0") && !c.kind.starts_with("rng:half"));
            });
            for h in 1..5 {
                b.add(&["iter:E", "cloned:iterref"], &[0, 1, 3], &single(seqs_upto(&ops("N C2/1 B2 B3/1 S ?L F2 Cmax-0"), 1, 3)), |c| {
                    c.hint = h;
                    true
                });
            }
            for (ch, k) in [('n', 0), ('n', 1), ('n', 2), ('f', 1), ('c', 1)] {
                b.add(&["iter:E", "cloned:iterref", "vec:E", "cloned:slice"], &[3], &single(seqs_upto(&ops("N C2 B2 F2 E1 S"), 1, 2)), |c| {
                    c.panic = Some((ch, k));
                    true
                });
            }
            for r in [1, 2] {
                b.add(&["iter:E"], &[0, 1, 2, 3], &single(seqs_upto(&ops("N C2 B2 F2"), 1, 3)), |c| {
                    c.revive = r;
                    true
                });
            }
            let two = progs("LN LC2 LB2 N,N C2/1,N B2,N S,N N,S F2 V Cmax-0,N H2,N HB2,N ?L,N Chalf+1,Chalf+1,N");
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(99)], |b| {
                b.add(&["vec:E", "arr:E", "slice:E", "range", "cloned:slice", "vec:B", "rng:max-3..max-0"], &[0, 1, 3], &multisets(&two, 2), yes);
                b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&two, 2), yes);
            });
        }
        "C18" => {
            let lp = progs("LN LC2 LB2 F1 F2 E2 O2 V N,N C2,N B2,N C3,C2 B3,B2 N,?L B2,C2 HB2,N");
            for k in 0..b.pick(4, 5) {
                b.add(&["iter:E", "iterref:E", "cloned:iterref"], &b.pick(vec![3], vec![2, 3, 4]), &multisets(&lp, 2), |c| {
                    c.panic = Some(('n', k));
                    k <= c.len
                });
                for e in [Ending::Drop, Ending::Seq(99)] {
                    b.add(&["iter:E", "iter:B", "iter:L", "cloned:iterref", "copied:iterref"], &[0, 1, 2, 3, 4], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 F2 E1 S ?M"), 1, 3)), |c| {
                        c.panic = Some(('n', k));
                        c.end = e;
                        k <= c.len
                    });
                }
                b.add(&["iter:E"], &[3], &multisets(&progs("N,N C2,N B2,N F2"), 2), |c| {
                    c.panic = Some(('n', k));
                    c.hint = 1;
                    true
                });
            }
            for k in 0..3 {
                b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("N C2 B2 LN F2"), 3), |c| {
                    c.panic = Some(('n', k));
                    k <= c.len
                });
            }
            // closures
            let fl = progs("F1 F2 F3 E1 E2 E3 O1 O2 O3 LN LB2");
            for k in 0..4 {
                b.add(&["vec:E", "vec:B", "arr:E", "arr:B", "slice:E", "range", "iter:E", "cloned:slice", "cloned:iterref", "vec:Z", "arr:Z"], &b.pick(vec![3, 5], vec![1, 2, 3, 4, 5]), &multisets(&fl, 2), |c| {
                    c.panic = Some(('f', k));
                    k < c.len && c.progs.iter().flatten().any(|o| matches!(o, Op::F(_) | Op::E(_) | Op::O(_)))
                });
                for e in [Ending::Drop, Ending::Seq(99)] {
                    b.add(&["vec:E", "vec:B", "arr:E", "arr:B", "iter:E", "iter:B"], &[1, 3, 5], &single(prefixed(&progs("F1 F2 F3 E2 O3"), &progs("N C2 LN F2"))), |c| {
                        c.panic = Some(('f', k));
                        c.end = e;
                        true
                    });
                }
            }
            b.add(&["vec:E", "arr:E", "slice:E"], &[3, 4], &multisets(&progs("F2 E2 O3 LN"), 3), |c| {
                c.panic = Some(('f', 1));
                true
            });
            // clones
            let cl = progs("LN LC2 LB2 V W F2 E2 N,N C2/1,N B2/1,B2 H2,N");
            for k in 0..4 {
                b.add(&["cloned:slice", "cloned:vecref", "cloned:arrref", "cloned:iterref"], &b.pick(vec![3], vec![1, 2, 3, 4]), &multisets(&cl, 2), |c| {
                    c.panic = Some(('c', k));
                    k < c.len
                });
                b.add(&["cloned:slice", "cloned:iterref"], &[1, 2, 4], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 F2 V"), 1, 3)), |c| {
                    c.panic = Some(('c', k));
                    k < c.len
                });
            }
        }
        "C19" => {
            let al = ops("N I C2/1 B2/1 C3 B3/0 S ?L V F2");
            let src = ["slice:E", "slicecon:E", "vecref:E", "arrref:E", "cloned:slice", "cloned:vecref", "cloned:iterref", "copied:slice", "iterref:E", "rangecon"];
            with_ends(&mut b, &[Ending::Drop, Ending::Seq(99)], |b| {
                b.add(&src, &[0, 1, 3, 5], &single(seqs_upto(&al, 1, b.pick(2, 3))), yes);
                b.add(&src, &[2, 3], &multisets(&progs("LN LC2 LB2 V F2 N,S H2,N HB2,N E2 B2/0,N"), 2), |c| c.end == Ending::Drop || !wraps(&c.kind));
            });
            // several iterators over one collection, clones taken at any moment
            for kind in multi::KINDS {
                let mk = format!("multi:{kind}");
                let al = ops("N C2/1 B2 S ?L X");
                b.add(&[&mk], &b.pick(vec![0, 3], vec![0, 1, 2, 3, 5]), &single(seqs_upto(&al, 1, b.pick(4, 5))), yes);
                let two = seqs_upto(&ops("N C2 S X ?L"), 1, b.pick(2, 3));
                b.add(&[&mk], &b.pick(vec![3], vec![2, 3, 4]), &multisets(&two, 2), yes);
                let three = progs("N,N C2,N X,N X,X,N S N,X,N,N X,C2,N X,S,N LN X,LN B2,X,B2");
                b.add(&[&mk], &b.pick(vec![3, 4], vec![0, 1, 2, 3, 4, 5]), &multisets(&three, 3), yes);
                // threads 0 and 2 share the first iterator
                b.add(&[&mk], &[2, 4], &multisets(&progs("N,N X,N C2,X,N S,X,N"), b.pick(3, 4)), yes);
            }
        }
        _ => panic!("unknown property {p}"),
    }
    extend(p, &mut b);
    consumption(p, &mut b);
    if th {
        // the thorough tier contains the quick one
        b.v.extend(configs(p, "quick"));
    }
    let mut seen = std::collections::HashSet::new();
    b.v.retain(|c| seen.insert(c.to_string()));
    // cheap ones first: where the time is not sufficient, only the largest ones are cut
    b.v.sort_by_cached_key(cost);
    b.v
}

/// a rough estimate of the number of states
fn cost(c: &Config) -> u64 {
    let per = |o: &Op| -> u64 {
        let loops = |n: usize| (c.len / n.max(1) + 2) as u64 * if c.kind.contains("iter") { 2 } else { 1 };
        match o {
            Op::LN | Op::LI | Op::V | Op::W => loops(1),
            Op::LC(n) | Op::LB(n) | Op::F(n) | Op::E(n) | Op::O(n) => loops(*n),
            Op::QL | Op::QM | Op::X => 1,
            _ => 2,
        }
    };
    let states = c.progs.iter().map(|p| 1 + p.iter().map(per).sum::<u64>()).fold(1u64, |a, x| a.saturating_mul(x));
    let modes = [c.stale > 0, c.spur > 0, c.impat > 0, c.race, c.pp].iter().filter(|x| **x).count();
    (states << (2 * modes)).saturating_mul(1 + c.impat as u64 / 100_000).saturating_mul(if c.uses > 0 { 2 } else { 1 })
}

/// The elements of chunks, loops and remainders taken through the other iterator methods.
fn consumption(p: &str, b: &mut B) {
    let all = all_kinds();
    let kc = known_core();
    let own: Vec<&str> = OWNED.iter().copied().chain(["vecfrom:E"]).chain(WRAP_OWNED).collect();
    let big = ["vec:E", "vec:B", "arr:E", "slice:E", "range", "cloned:slice", "copied:slice", "iter:E", "iterref:E", "cloned:iterref"];
    let ad = ["cloned:slice", "cloned:vecref", "cloned:arrref", "copied:slice", "cloned:iterref", "copied:iterref"];
    for u in 1..9 {
        let on = move |c: &mut Config| {
            c.uses = u;
            true
        };
        match p {
            "C01" | "C02" => {
                let lp = if p == "C01" { progs("LC2 LC3 LB2 LB3 V W LC1 LN") } else { progs("LC2 LC3 LB2 LB3 W LI") };
                b.add(&all, &[0, 1, 2, 3, 4, 5], &single(lp.clone()), on);
                b.add(&kc, &b.pick(vec![3], vec![2, 3, 4, 5]), &multisets(&lp, 2), on);
                b.add(&["iter:E"], &b.pick(vec![3], vec![2, 3, 4]), &multisets(&lp, 2), on);
            }
            "C03" => {
                let al = ops("C2 C3 C3/1 B2 B3 B3/2 N C5/2 B4/0");
                b.add(&all, &[1, 2, 3, 4, 5, 6], &single(seqs_upto(&al, 1, b.pick(2, 3))), on);
                b.add(&big, &[17, 40], &single(seqs_upto(&ops("C7 C16/1 B7/2 B16 B33 C40"), 1, 2)), on);
                b.add(&kc, &[3, 4], &multisets(&progs("LC2 LB2 LB3 C3,C2 B3/1,B3"), 2), on);
                b.add(&["iter:E"], &[3, 4], &multisets(&progs("LC2 LB2 LB3 C3,C2 B3/1,B3"), 2), on);
            }
            "C04" => {
                b.add(&all, &[2, 3, 5], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 V W"), 1, 3)), on);
                b.add(&kc, &[3, 4], &multisets(&seqs(&ops("N C2 B2"), 2), 2), on);
            }
            "C05" => {
                b.add(&all, &[0, 1, 2, 3], &single(seqs_upto(&ops("N C2 B2 B3/1 V W ?L"), 2, 3)), on);
            }
            "C06" => {
                b.add(&all, &[2, 4], &product(&progs("LC2 LB2 V W LB3 LC3,N"), &progs("S N,S S,N")), on);
            }
            "C08" | "C15" => {
                let es = [Ending::Drop, Ending::Seq(99), Ending::Seq(1)];
                with_ends(b, &es, |b| {
                    b.add(&own, &[0, 1, 2, 3, 5], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 C5 B4/2 S"), 0, 2)), on);
                    b.add(&own, &[3, 5], &single(progs("LC2 LB2 LC3 LB3 V W H3 HB3 LN")), on);
                });
                b.add(&own, &[3, 4], &multisets(&progs("C2 C3/1 B2 B3/2 H2,N S LB2"), 2), on);
            }
            "C09" => {
                b.add(&all, &[0, 2, 3], &multisets(&progs("LC2 LB2 V W N,S"), 2), on);
            }
            "C10" => {
                let mut kinds = all.clone();
                kinds.extend(["vec:B", "arr:B", "vec:L", "arr:L", "vecfrom:E"]);
                with_ends(b, &[Ending::Seq(99)], |b| {
                    b.add(&kinds, &[0, 1, 2, 3, 5], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 S"), 0, 2)), on);
                    b.add(&big, &[17, 40], &single(seqs_upto(&ops("N C7/1 B16/3 C16 B9"), 0, 2)), on);
                });
            }
            "C12" => {
                b.add(&all, &[0, 1, 2, 3], &multisets(&progs("F2 E2 O2 C2 B2 V"), 2), on);
            }
            "C13" => {
                with_ends(b, &[Ending::Drop, Ending::Seq(99)], |b| {
                    b.add(&ad, &[0, 1, 2, 3, 5], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 C5 B4/2 S V W ?L"), 1, 2)), on);
                });
            }
            "C16" => {
                let rk = ["rng:0..3", "rng:5..5", "rng:5..2", "rng:max-0..0", "rng:max-0..max-0", "rng:max-1..max-0", "rng:max-3..max-0", "rng:max-4..max-1", "rng:half-2..half+2", "rng:2..7"];
                with_ends(b, &[Ending::Seq(99)], |b| {
                    b.add(&rk, &[0], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 S Cmax-0 Bhalf+1 V W"), 0, 2)), on);
                });
                b.add(&all, &[0, 1, 3], &single(seqs_upto(&ops("Cmax-0 Chalf+1 Bmax-0 C0 N C2"), 1, 2)), on);
            }
            "C17" => {
                let kinds = ["vec:E", "vec:B", "vec:Z", "vec:K", "arr:E", "arr:B", "arr:Z", "slice:E", "range", "cloned:slice", "copied:slice", "iter:E", "iter:B", "iterref:E", "cloned:iterref", "rng:max-3..max-0", "rng:5..2"];
                with_ends(b, &[Ending::Drop, Ending::Seq(99)], |b| {
                    b.add(&kinds, &[0, 1, 3], &single(seqs_upto(&ops("N C2 C3/1 B2 B3/1 S V W Cmax-0"), 0, 2)), on);
                });
            }
            "C18" => {
                for k in 0..3 {
                    b.add(&["cloned:slice", "cloned:vecref", "cloned:iterref"], &[3, 4], &single(seqs_upto(&ops("C2 C3/1 B2 B3/1 V N"), 1, 2)), |c| {
                        c.panic = Some(('c', k));
                        on(c)
                    });
                    b.add(&["cloned:slice", "cloned:iterref"], &[3], &multisets(&progs("LC2 LB2 B3/1,N V"), 2), |c| {
                        c.panic = Some(('c', k));
                        on(c)
                    });
                    b.add(&["iter:E", "iter:B", "cloned:iterref"], &[3], &single(seqs_upto(&ops("C2 C3/1 B2 B3/1 V N"), 1, 2)), |c| {
                        c.panic = Some(('n', k));
                        on(c)
                    });
                }
            }
            "C19" => {
                let src = ["slice:E", "slicecon:E", "vecref:E", "arrref:E", "cloned:slice", "cloned:vecref", "copied:slice", "iterref:E", "rangecon"];
                with_ends(b, &[Ending::Drop, Ending::Seq(99)], |b| {
                    b.add(&src, &[0, 1, 3], &single(seqs_upto(&ops("N C2/1 B2/1 C3 B3 S V W"), 1, 2)), on);
                });
            }
            _ => {}
        }
    }
}

/// Further families: more threads, longer sources, spurious CAS failures, stale loads, waits that give up.
fn extend(p: &str, b: &mut B) {
    let all = all_kinds();
    let kc = known_core();
    let th = b.thorough;
    let wr = ["iter:E", "iterref:E", "cloned:iterref"];
    let cw: Vec<&str> = kc.iter().copied().chain(["iter:E"]).collect();
    let big: Vec<&str> = vec!["vec:E", "vec:B", "arr:E", "arrref:E", "slice:E", "range", "cloned:slice", "copied:slice", "iter:E", "iterref:E", "cloned:iterref"];
    let own_big = ["vec:E", "vec:B", "vec:L", "vec:Z", "arr:E", "iter:E", "iter:B"];
    // waits: rounds after which an implementation might give up
    let rounds = b.pick(vec![300, 20_000], vec![300, 20_000, 3_000_000]);
    match p {
        "C01" | "C02" => {
            let l3 = if p == "C01" { progs("LN LC2 LB2 F2 V") } else { progs("LI LC2 LB2 E2 W") };
            let l4 = if p == "C01" { progs("LN LC2 LB2") } else { progs("LI LC2 LB2") };
            b.add(&["iterref:E", "cloned:iterref"], &b.pick(vec![1, 2], vec![0, 1, 2, 3]), &multisets(&l3, 3), yes);
            b.add(&["iter:E"], &b.pick(vec![3, 4], vec![5, 6]), &multisets(&l3, 3), yes);
            b.add(&["iter:E"], &b.pick(vec![1, 2], vec![3, 4]), &multisets(&l4, 4), yes);
            b.add(&kc, &b.pick(vec![5], vec![5, 7, 8]), &multisets(&l4, 4), yes);
            // pulls that end before the end, then loops
            let pre = progs("N,C2 C3/1,N B2/1,C2 H2,B2 HB2,N");
            b.add(&cw, &b.pick(vec![6], vec![5, 6, 7, 8]), &multisets(&prefixed(&pre, &l4), 2), yes);
            let ls = if p == "C01" { "LN LC7 LC16 LB7 LB16 LB33 V F7 E16 O33" } else { "LI LC7 LC16 LB7 LB16 LB33 W E7 E16" };
            b.add(&big, &[17, 40], &single(progs(ls)), yes);
            b.add(&big, &[130, 1030], &single(progs("LC64 LB64 LB100 LC1024 LB1029 E64 F1000")), yes);
            b.add(&cw, &b.pick(vec![9], vec![9, 12, 17]), &multisets(&progs("LN LC3 LB4 E2"), 2), yes);
            b.add(&cw, &[40], &multisets(&progs("LC7 LB16 E9"), 2), yes);
            b.add(&cw, &[130], &multisets(&progs("LC64 LB33 E16"), 2), yes);
            b.add(&cw, &[1030], &multisets(&progs("LC300 LB128 E256"), 2), yes);
            b.add(&cw, &[2, 3], &multisets(&l4, 2), |c| {
                c.spur = 1;
                true
            });
            for k in rounds {
                b.add(&wr, &[2], &multisets(&progs("N,N C2 B2 N"), 2), |c| {
                    c.impat = k;
                    true
                });
                if k < 1000 {
                    b.add(&["iter:E"], &[2, 3], &multisets(&l4, 3), |c| {
                        c.impat = k;
                        true
                    });
                }
            }
        }
        "C03" => {
            let two = seqs(&ops("C2 B2/1 B3 N"), 2);
            b.add(&["iter:E"], &b.pick(vec![3, 5], vec![2, 3, 4, 5, 6]), &multisets(&two, 3), yes);
            b.add(&["iterref:E", "cloned:iterref"], &[3, 5], &multisets(&seqs(&ops("C2 C3/1 B2/1 B3 N"), 2), 2), yes);
            b.add(&kc, &[4, 5], &multisets(&two, 3), yes);
            b.add(&wr, &[2, 4], &multisets(&progs("LC2 LB2 LB3 LN"), 3), yes);
            let ls = ops("C7 C16/1 B7/2 B16/0 B33 C40 HB7 N");
            b.add(&big, &[17, 40], &single(seqs_upto(&ls, 1, 3)), yes);
            b.add(&big, &[130, 1030], &single(seqs_upto(&ops("C64 B64/3 B100 C1024/2 B1029"), 1, 3)), yes);
            b.add(&big, &[130, 1030], &single(progs("LC64 LB64 LB100 LC1024 LB1029")), yes);
            b.add(&cw, &[17, 40], &multisets(&progs("LC7 LB16 LB7 C16/1,LC7 B9/2,LB9"), 2), yes);
            b.add(&cw, &[1030], &multisets(&progs("LC300 LB128 B512/5,LB512"), 2), yes);
        }
        "C04" => {
            let two = seqs(&ops("N C2 B2"), 2);
            b.add(&["iter:E"], &b.pick(vec![3], vec![2, 3, 4, 5]), &multisets(&two, 3), yes);
            b.add(&["iterref:E", "cloned:iterref"], &[3], &multisets(&seqs(&ops("N I C2 B2"), 2), 2), yes);
            b.add(&["iter:E"], &[4], &multisets(&seqs(&ops("N C2 B2"), 3), 2), yes);
            b.add(&cw, &[4, 5], &multisets(&progs("N C2 B2"), 4), yes);
            b.add(&cw, &[9, 17], &multisets(&progs("C7,N B4,B4 N,C3,N LB3 C5"), 2), yes);
            b.add(&big, &[17, 40], &single(seqs_upto(&ops("N C7 C16/1 B7/2 B16/0 V1"), 2, 3)), yes);
            b.add(&big, &[130, 1030], &single(seqs_upto(&ops("N C64 B64/3 B500 C1024/2"), 2, 3)), yes);
            b.add(&cw, &[3], &multisets(&two, 2), |c| {
                c.spur = 1;
                true
            });
            for k in rounds {
                b.add(&wr, &[3], &multisets(&progs("N,N C2,N B2 N"), 2), |c| {
                    c.impat = k;
                    true
                });
            }
        }
        "C05" => {
            // a panicking pull, then the end, then length queries
            for k in 0..3 {
                for h in [0, 1, 2] {
                    b.add(&["iter:E", "cloned:iterref"], &[2, 3], &single(seqs_upto(&ops("N C2 B2 F2 ?L ?M"), 2, b.pick(3, 4))), |c| {
                        c.panic = Some(('n', k));
                        c.hint = h;
                        true
                    });
                }
                b.add(&["iter:E"], &[2, 3], &multisets(&progs("N,N,?L C2,N B2,?M N,?L,N ?M"), 2), |c| {
                    c.panic = Some(('n', k));
                    true
                });
                b.add(&["vec:E", "arr:E", "slice:E", "iter:E"], &[2, 3], &multisets(&progs("F1,N,?L F2,C2 O2,?M N,?L E2,N"), 2), |c| {
                    c.panic = Some(('f', k));
                    true
                });
            }
            let two = seqs(&ops("N C2 B2"), 2);
            for rv in [0, 2] {
                b.add(&["iter:E"], &b.pick(vec![1], vec![0, 1, 2, 3]), &multisets(&two, 3), |c| {
                    c.revive = rv;
                    true
                });
                b.add(&["iterref:E", "cloned:iterref"], &b.pick(vec![1, 2], vec![0, 1, 2, 3]), &multisets(&two, 2), |c| {
                    c.revive = rv;
                    true
                });
                b.add(&["iter:E"], &[1, 2], &multisets(&progs("N C2 B2"), 4), |c| {
                    c.revive = rv;
                    true
                });
            }
            b.add(&big, &[17, 40], &single(prefixed(&progs("LN LC7 LB16 LB33 F9"), &seqs_upto(&ops("N C7 B16 F9 ?L"), 1, 2))), yes);
            b.add(&big, &[1030], &single(prefixed(&progs("LC64 LB1029 F100"), &seqs_upto(&ops("N C64 B1029 F9 ?L"), 1, 2))), yes);
            b.add(&kc, &[1, 2], &multisets(&seqs(&ops("N C2 ?L"), 2), 3), yes);
            b.add(&cw, &[1, 2], &multisets(&two, 2), |c| {
                c.spur = 1;
                true
            });
            for k in rounds {
                b.add(&wr, &[1], &multisets(&progs("N,N C2 B2 N"), 2), |c| {
                    c.impat = k;
                    true
                });
            }
        }
        "C06" => {
            let x = seqs_upto(&ops("N C2 B2"), 1, 2);
            let y = prefixed(&seqs_upto(&ops("N C2 B2"), 0, 1), &prefixed(&progs("S"), &seqs_upto(&ops("N C2 B2 ?M"), 0, 1)));
            b.add(&["iterref:E", "cloned:iterref", "copied:iterref"], &[2, 3], &product(&x, &y), yes);
            b.add(&["iter:E"], &[2, 4], &product(&x, &y), |c| {
                c.pp = true;
                true
            });
            let mut three = vec![];
            for m in multisets(&progs("LN LC2 LB2 N,N C2 B2"), 2) {
                for s in progs("S S,N N,S S,?M,N") {
                    let mut q = m.clone();
                    q.push(s);
                    three.push(q);
                }
            }
            b.add(&["iterref:E", "cloned:iterref", "copied:iterref"], &[2, 3], &three, yes);
            b.add(&["iter:E"], &b.pick(vec![3], vec![4, 5]), &three, yes);
            b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &three, |c| {
                c.pp = true;
                true
            });
            for h in [1, 2] {
                b.add(&["iter:E"], &[2], &three, |c| {
                    c.hint = h;
                    c.revive = 2;
                    true
                });
            }
            // two skips
            b.add(&cw, &[2, 3], &multisets(&progs("S,N N,S N C2 B2,S"), 3), yes);
            b.add(&cw, &[2, 3], &multisets(&progs("S,N N C2 B2"), 4), yes);
            b.add(&big, &[17, 40], &single(prefixed(&seqs_upto(&ops("N C7/1 B16"), 0, 2), &prefixed(&progs("S"), &seqs_upto(&ops("N C7 B16 F9 ?M S"), 1, 2)))), yes);
            b.add(&cw, &[17, 40], &product(&progs("LC7 LB16 F9 LC4"), &progs("S,N N,S,C7 B16,S,B16")), yes);
            b.add(&cw, &[2, 3], &product(&progs("N,N C2,N B2"), &progs("S,N N,S,?M S,C2")), |c| {
                c.spur = 1;
                true
            });
            for k in rounds {
                b.add(&wr, &[2], &product(&progs("N,N C2 B2"), &progs("S,N N,S")), |c| {
                    c.impat = k;
                    true
                });
            }
        }
        "C07" => {
            let lp = progs("LN LC2 LB2 F2 S,N N,?L C2,N");
            b.add(&wr, &b.pick(vec![2], vec![1, 2, 3]), &multisets(&lp, 3), |c| {
                c.race = true;
                c.pp = c.kind == "iter:E";
                true
            });
            b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("N C2 B2"), 4), |c| {
                c.race = true;
                true
            });
            // queries next to pulls
            for h in [0, 1, 2, 4] {
                b.add(&["iter:E", "cloned:iterref"], &[1, 2], &product(&progs("?L ?M ?L,N ?M,C2 X"), &progs("LN LC2 LB2 N,N S,N")), |c| {
                    c.race = true;
                    c.pp = true;
                    c.hint = h;
                    !c.progs.iter().flatten().any(|o| matches!(o, Op::X))
                });
            }
            for k in rounds {
                b.add(&wr, &[2], &multisets(&progs("N,N C2,N B2 LN"), 2), |c| {
                    c.race = true;
                    c.pp = true;
                    c.impat = k;
                    true
                });
            }
            b.add(&["iter:E"], &[2], &multisets(&progs("N,N C2 B2"), 2), |c| {
                c.race = true;
                c.spur = 1;
                true
            });
        }
        "C08" | "C15" => {
            let es = [Ending::Drop, Ending::Seq(99), Ending::Seq(1)];
            with_ends(b, &es, |b| {
                b.add(&own_big, &[17, 40], &single(seqs_upto(&ops("N C7/1 C16/0 B7/2 B16 S LB9 H9"), 1, b.pick(2, 3))), yes);
                b.add(&own_big, &[130, 1030], &single(seqs_upto(&ops("C64/3 B100/7 B1029/9 S LB64 LC1024"), 1, 2)), yes);
                b.add(&["vec:E", "arr:E", "iter:E"], &[17, 40], &multisets(&progs("C7/1 B16/3 LB9 N,S LC5"), 2), yes);
                b.add(&["vec:E", "arr:E", "iter:E"], &[9], &multisets(&progs("LN LB4 LC2"), 2), |c| !c.kind.starts_with("arr"));
                b.add(&["vec:E", "arr:E", "iter:E"], &[3, 4], &multisets(&progs("N C2/1 B2/1 S LN N,S H2,N"), 3), yes);
                b.add(&["iter:B", "vec:B", "arr:B"], &[3], &multisets(&progs("N C2/1 B2/0 S LN"), 3), yes);
                b.add(&["vec:E", "iter:E"], &[3], &multisets(&progs("N C2/1 B2/1 S"), 4), yes);
            });
            b.add(&["vec:E", "arr:E", "iter:E"], &[3], &multisets(&progs("N,S C2/1 B2/0,N"), 2), |c| {
                c.spur = 1;
                true
            });
            b.add(&["cloned:slice", "cloned:iterref"], &[2, 3], &multisets(&progs("N C2/1 B2/0 S LN F2"), 2), yes);
            // unwinding pulls and closures must not leak or destroy twice either
            for (ch, k) in [('n', 0), ('n', 1), ('n', 2), ('f', 0), ('f', 1), ('f', 2)] {
                b.add(&["vec:E", "vec:B", "arr:E", "arr:B", "iter:E", "iter:B"], &[1, 3], &single(seqs_upto(&ops("C2 B2/1 F2 F1 E3 O2 N"), 1, 2)), |c| {
                    c.panic = Some((ch, k));
                    ch == 'f' || c.kind.starts_with("iter")
                });
                b.add(&["vec:E", "arr:E", "iter:E"], &[3], &multisets(&progs("C2 F2 B2,N LN"), 2), |c| {
                    c.panic = Some((ch, k));
                    ch == 'f' || c.kind.starts_with("iter")
                });
            }
        }
        "C09" => {
            for k in rounds {
                b.add(&wr, &[1, 2], &multisets(&progs("N,N C2 B2 N S,N"), 2), |c| {
                    c.impat = k;
                    true
                });
            }
            let lp = progs("LN LC2 LB2 V F2 S,N N,S C2,C2 B2,B2 ?L,N");
            b.add(&wr, &b.pick(vec![1, 2], vec![0, 1, 2, 3]), &multisets(&lp, 3), yes);
            b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("LN LC2 LB2 S,N N C2"), 4), yes);
            b.add(&cw, &[1, 2], &multisets(&lp, 2), |c| {
                c.spur = 1;
                true
            });
            b.add(&["iter:E"], &[1, 2], &multisets(&progs("N,N C2,N B2,N S,N"), 2), |c| {
                c.stale = 1;
                true
            });
            b.add(&kc, &[2, 3], &multisets(&progs("LN LC2 LB2 S,N ?L C3"), 4), |c| {
                c.nowait = true;
                true
            });
            // nobody waits for a suspended destructor, clone or closure either
            for k in ["vec:E", "arr:E", "cloned:slice", "vec:B"] {
                b.add(&[k], &[2, 3], &multisets(&progs("C2/0,N B2/1,N N,S S,N F2 LN"), 2), |c| {
                    c.nowait = true;
                    c.pp = true;
                    true
                });
            }
            b.add(&big, &[40, 130], &multisets(&progs("LC16 LB33 F64 N,S C64,S,N"), 2), yes);
            for (ch, k) in [('n', 0), ('n', 1), ('n', 2), ('f', 1), ('c', 1)] {
                b.add(&["iter:E", "cloned:iterref"], &[2, 3], &multisets(&progs("LN LC2 LB2 F2 N,C2"), 2), |c| {
                    c.panic = Some((ch, k));
                    true
                });
            }
        }
        "C10" => {
            with_ends(b, &[Ending::Seq(2000), Ending::Seq(1)], |b| {
                b.add(&big, &[17, 40], &single(seqs_upto(&ops("N C7/1 C16/0 B7/2 B16 S H9 LB9"), 0, b.pick(2, 3))), yes);
                b.add(&big, &[130, 1030], &single(seqs_upto(&ops("N C64/3 B100/7 B1029/9 S C1024"), 0, 2)), yes);
                b.add(&cw, &[17, 40], &multisets(&progs("C7/1 B16/3 N,N N,S C16"), 2), yes);
                b.add(&cw, &[4, 5], &multisets(&progs("N,N C2/1 B2/1,N S C3"), 3), yes);
                b.add(&["iterref:E", "cloned:iterref"], &[3, 4], &multisets(&progs("N C2/1 B2/1 S N,N"), 2), yes);
                b.add(&cw, &[4], &multisets(&progs("N C2/1 B2/0"), 4), yes);
            });
            with_ends(b, &[Ending::Seq(99)], |b| {
                b.add(&cw, &[3], &multisets(&progs("N,N C2,N B2/1"), 2), |c| {
                    c.spur = 1;
                    true
                });
                b.add(&["iter:E", "cloned:iterref"], &[0, 1, 2, 3], &single(seqs_upto(&ops("N C2 B2 C3"), 1, 3)), |c| {
                    c.hint = 1;
                    true
                });
            });
        }
        "C11" => {
            let q = progs("?L,?L ?M,N ?M,?L ?L,N,?L");
            let x = progs("N,N C2,N B2,C2 S,N N,S");
            let mut three = vec![];
            for m in multisets(&progs("N C2 B2 S C3 N,?M"), 2) {
                for s in progs("?L,?L ?M,N ?M,?M ?L,?M") {
                    let mut q = m.clone();
                    q.push(s);
                    three.push(q);
                }
            }
            for h in [0, 1, 2] {
                b.add(&wr, &b.pick(vec![1, 3], vec![0, 1, 2, 3, 4]), &three, |c| {
                    c.hint = h;
                    true
                });
            }
            b.add(&cw, &[1, 2], &product(&q, &x), |c| {
                c.spur = 1;
                true
            });
            b.add(&big, &[17, 40], &single(seqs_upto(&ops("N C7/1 B16 ?L ?M S LB9"), 2, b.pick(3, 4))), yes);
            b.add(&big, &[130, 1030], &single(seqs_upto(&ops("C64/3 B100/7 B1029/9 ?L ?M S"), 2, 3)), yes);
            b.add(&cw, &[17], &product(&q, &progs("C7,C7,C7 LB9 LC4 F5")), yes);
            let mut four = vec![];
            for m in multisets(&progs("N C2 S"), 3) {
                let mut q = m.clone();
                q.push(ops("?L ?M"));
                four.push(q);
            }
            b.add(&cw, &[2, 3], &four, yes);
            for k in 0..2 {
                b.add(&["iter:E"], &[2, 3], &single(seqs_upto(&ops("N C2 B2 ?L ?M"), 2, 4)), |c| {
                    c.panic = Some(('n', k));
                    true
                });
            }
        }
        "C12" => {
            let lp = progs("F1 F2 E2 O2 E1 F3");
            b.add(&wr, &b.pick(vec![2, 3], vec![0, 1, 2, 3, 4]), &multisets(&lp, 3), yes);
            b.add(&["iter:E"], &b.pick(vec![1, 2], vec![1, 2, 3]), &multisets(&progs("F1 F2 E2 O2"), 4), yes);
            b.add(&kc, &b.pick(vec![6], vec![6, 8, 9]), &multisets(&progs("F2 E2 E3 O1 O2"), 3), yes);
            b.add(&big, &[17, 40, 130, 1030], &single(progs("F1 F7 F16 F64 E1 E9 E33 E1029 O1 O16 O100 O1030")), yes);
            b.add(&cw, &[17, 40], &multisets(&progs("F7 E16 O9 O5"), 2), yes);
            b.add(&cw, &b.pick(vec![9], vec![9, 12, 17]), &multisets(&progs("F1 E1 O1 E3 F4"), 2), yes);
            b.add(&cw, &b.pick(vec![130], vec![130, 300]), &multisets(&progs("F64 E100 E33 O128"), 2), yes);
            b.add(&cw, &[1030], &multisets(&progs("F300 E256 O512"), 2), yes);
            b.add(&cw, &b.pick(vec![23], vec![40]), &multisets(&progs("E9 F16 O7"), 3), yes);
            b.add(&cw, &[3], &multisets(&progs("F1 F2 E2 O2"), 2), |c| {
                c.spur = 1;
                true
            });
            for k in rounds {
                b.add(&wr, &[2], &multisets(&progs("F1 F2 E2 O2"), 2), |c| {
                    c.impat = k;
                    k < 1_000_000
                });
            }
        }
        "C13" => {
            let ad = ["cloned:slice", "cloned:vecref", "copied:slice", "cloned:iterref", "copied:iterref"];
            with_ends(b, &[Ending::Drop, Ending::Seq(2000)], |b| {
                b.add(&ad, &[17, 40], &single(seqs_upto(&ops("N C7/1 B16 ?L S H9 LB9 F7 E16"), 1, b.pick(2, 3))), yes);
                b.add(&ad, &[130, 1030], &single(seqs_upto(&ops("C64/3 B100/7 B1029/9 ?L S E64"), 1, 2)), yes);
            });
            b.add(&["cloned:iterref", "copied:iterref"], &b.pick(vec![3], vec![2, 3, 4]), &multisets(&progs("N C2 B2 S ?L N,N"), 3), yes);
            b.add(&ad, &[3, 4], &multisets(&seqs(&ops("N C2/1 B2 S ?L"), 2), 2), yes);
            for k in 0..3 {
                b.add(&["cloned:iterref", "copied:iterref"], &[2, 3], &multisets(&progs("N,N C2,N B2,N F2"), 2), |c| {
                    c.panic = Some(('n', k));
                    true
                });
            }
        }
        "C16" => {
            let n = "Cmax-0 Cmax-1 C16 B33 Bmax-0 N C0 F64 ?L";
            with_ends(b, &[Ending::Seq(2000)], |b| {
                b.add(&big, &[17, 40], &single(seqs_upto(&ops(n), 1, 3)), yes);
                b.add(&big, &[1030], &single(seqs_upto(&ops("Cmax-0 Chalf+1 C1029 B1031 N C0"), 1, 3)), yes);
            });
            let two = progs("C0,N Cmax-0,N Chalf+1,Chalf+1,N N,Cmax-1,N Bmax-0,N S,Cmax-0,N");
            b.add(&wr, &[1, 3], &multisets(&two, 3), yes);
            b.add(&kc, &[1, 3], &multisets(&two, 3), yes);
            b.add(&cw, &[1, 3], &multisets(&progs("C0,N Cmax-0,N Chalf+1,N S,Cmax-0"), 2), |c| {
                c.spur = 1;
                true
            });
        }
        "C17" => {
            with_ends(b, &[Ending::Drop, Ending::Seq(2000)], |b| {
                b.add(&big, &[17, 40], &single(seqs_upto(&ops("N C7/1 B16 ?L S H9 LB9 F7 Cmax-0"), 1, 2)), yes);
                b.add(&big, &[130, 1030], &single(seqs_upto(&ops("C64/3 B100/7 B1029/9 S E64"), 1, 2)), yes);
            });
            b.add(&cw, &[2, 3], &multisets(&progs("LN LC2 LB2 S,N N,S F2 B2,N"), 3), yes);
            b.add(&wr, &[2, 3], &multisets(&progs("LN LC2 LB2 S,N N,S F2 B2,N N,N Cmax-0,N"), 2), yes);
            for k in 0..3 {
                b.add(&["iter:E", "cloned:iterref"], &[3], &multisets(&progs("N,N C2,N B2,N F2"), 2), |c| {
                    c.panic = Some(('n', k));
                    true
                });
            }
        }
        "C18" => {
            let lp = progs("LN LC2 LB2 F2 N,N C2,N B2,N E1");
            for k in 0..3 {
                b.add(&wr, &b.pick(vec![3], vec![2, 3, 4]), &multisets(&lp, 3), |c| {
                    c.panic = Some(('n', k));
                    true
                });
                b.add(&["iter:E"], &b.pick(vec![2], vec![1, 2, 3]), &multisets(&progs("N C2 B2 LN"), 4), |c| {
                    c.panic = Some(('n', k));
                    th || c.progs.iter().flatten().filter(|o| matches!(o, Op::LN)).count() < 3
                });
                b.add(&["vec:E", "arr:E", "slice:E", "iter:E", "cloned:slice"], &[3, 5], &multisets(&progs("F1 F2 E2 O3 LN LB2"), 3), |c| {
                    c.panic = Some(('f', k));
                    c.progs.iter().flatten().any(|o| matches!(o, Op::F(_) | Op::E(_) | Op::O(_)))
                });
                b.add(&["cloned:slice", "cloned:iterref"], &[3], &multisets(&progs("LN LC2 LB2 F2 N,N"), 3), |c| {
                    c.panic = Some(('c', k));
                    true
                });
                b.add(&["iter:E"], &[3], &multisets(&progs("N,N C2,N B2,N LN"), 2), |c| {
                    c.panic = Some(('n', k));
                    c.pp = true;
                    true
                });
                b.add(&["iter:E"], &[3], &multisets(&progs("N,N C2,N B2,N"), 2), |c| {
                    c.panic = Some(('n', k));
                    c.stale = 1;
                    true
                });
                b.add(&["iter:E"], &[3], &multisets(&progs("N,N C2,N B2,N"), 2), |c| {
                    c.panic = Some(('n', k));
                    c.spur = 1;
                    true
                });
                b.add(&["iter:E"], &[3], &multisets(&progs("N,N C2,N B2,N"), 2), |c| {
                    c.panic = Some(('n', k));
                    c.impat = 20_000;
                    true
                });
            }
            for k in [8, 16, 30] {
                b.add(&["iter:E", "cloned:iterref"], &[40], &multisets(&progs("LC7 LB16 F9"), 2), |c| {
                    c.panic = Some(('n', k));
                    true
                });
                b.add(&["vec:E", "arr:E", "vec:B", "iter:E"], &[40], &multisets(&progs("F7 E16 LB9"), 2), |c| {
                    c.panic = Some(('f', k));
                    true
                });
            }
        }
        "C19" => {
            let src = ["slice:E", "vecref:E", "arrref:E", "cloned:slice", "iterref:E"];
            b.add(&src, &[17, 40, 130, 1030], &single(seqs_upto(&ops("N C7/1 B16/3 LB64 S V F33"), 1, 2)), |c| !c.kind.starts_with("arr") || c.len > 17);
            b.add(&src, &[2, 3], &multisets(&progs("LN LC2 LB2 V F2 N,S"), 3), yes);
        }
        _ => {}
    }
}

/// the underlying kind an adaptor must be indistinguishable from
fn underlying(k: &str) -> String {
    let (a, b) = k.split_once(':').unwrap();
    match (a, b) {
        ("cloned", "slice") => "slice:E",
        ("cloned", "vecref") => "vecref:E",
        ("cloned", "arrref") => "arrref:E",
        ("cloned", _) => "iterref:E",
        (_, "slice") => "slice:K",
        _ => "iterref:K",
    }
    .into()
}

#[derive(Default)]
pub struct Tot {
    pub configs: u64,
    pub execs: u64,
    pub complete: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_depth: u64,
    pub deliveries: u64,
    pub plain: u64,
    pub capped: u64,
    pub multi: u64,
}
impl Tot {
    fn add(&mut self, s: &mc::Stats) {
        self.execs += s.execs;
        self.complete += s.complete;
        self.pruned += s.pruned;
        self.states += s.states;
        self.transitions += s.transitions;
        self.max_depth = self.max_depth.max(s.max_depth);
        self.capped += s.capped as u64;
    }
}
fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn show_choices(c: &[u8]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn parse_choices(s: &str) -> Vec<u8> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// explores one configuration of `prop`; a violation comes back with its schedule
fn one_config(prop: &str, c: &Config, deadline: Instant, tot: &mut Tot, out: bool, idx: usize) -> Option<(String, Vec<u8>)> {
    tot.configs += 1;
    tot.multi += (c.progs.len() > 1) as u64;
    let pr = prop.trim_end_matches('T');
    if c.kind.starts_with("multi:") {
        let (st, v) = multi::explore(c, deadline);
        tot.add(&st);
        return v.map(|v| (v.msg, v.choices));
    }
    let collect = matches!(prop, "C13" | "C17");
    let (st, v) = run::explore(c, ck(pr), deadline, collect);
    tot.add(&st);
    tot.deliveries += run::rc().deliveries;
    if let Some(v) = v {
        return Some((v.msg, v.choices));
    }
    if st.capped {
        return None;
    }
    if prop == "C13" {
        let a = std::mem::take(run::rc().outcomes.as_mut().unwrap());
        let at = std::mem::take(&mut run::rc().outcomes_text);
        let mut u = c.clone();
        u.kind = underlying(&c.kind);
        let (st, _) = run::explore(&u, 0, deadline, true);
        tot.add(&st);
        if st.capped {
            return None;
        }
        let b = run::rc().outcomes.as_ref().unwrap();
        if let Some(x) = a.difference(b).next() {
            return Some((
                format!("the adaptor has an outcome that {} cannot have: {}", u.kind, at.get(x).cloned().unwrap_or_default()),
                vec![],
            ));
        }
        if let Some(x) = b.difference(&a).next() {
            let t = run::rc().outcomes_text.get(x).cloned().unwrap_or_default();
            return Some((format!("{} has an outcome that the adaptor cannot have: {t}", u.kind), vec![]));
        }
    }
    if out && prop == "C17" {
        let o = run::rc().outcomes.as_ref().unwrap();
        let mut h = 0u64;
        for x in o {
            h = mc::mix(h, *x);
        }
        println!("OUT {idx} {h:016x} {}", o.len());
    }
    None
}

pub fn run_shard(prop: &str, tier: &str, shard: usize, n: usize, d: Duration, status: &str) {
    let start = Instant::now();
    let deadline = start + d;
    let cs = configs(prop, tier);
    let total = cs.len();
    // big configurations are spread by striding
    let mut tot = Tot::default();
    let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(status).expect("status file");
    let mut viols = 0;
    let mut skipped = 0u64;
    let mut mine = 0u64;
    let slow = std::env::var("MC_SLOW").is_ok();
    let skip_list: Vec<usize> = std::env::var("MC_SKIP").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    for (i, c) in cs.iter().enumerate() {
        if i % n != shard || skip_list.contains(&i) {
            continue;
        }
        mine += 1;
        if Instant::now() > deadline {
            skipped += 1;
            continue;
        }
        {
            use std::os::unix::fs::FileExt;
            let s = format!("{i} {c}\n{:400}", "");
            let _ = f.write_at(s.as_bytes(), 0);
        }
        let t0 = Instant::now();
        let r = one_config(prop, c, deadline, &mut tot, true, i);
        if slow && t0.elapsed().as_millis() > 1000 {
            eprintln!("SLOW {:.1}s {c}", t0.elapsed().as_secs_f64());
        }
        if let Some((msg, ch)) = r {
            viols += 1;
            println!("VIOL {{\"config\":{},\"index\":{i},\"msg\":{},\"choices\":{}}}", esc(&c.to_string()), esc(&msg), esc(&show_choices(&ch)));
            if viols >= 20 {
                skipped += 1;
                break;
            }
        }
    }
    let _ = f.flush();
    println!(
        "STATS {{\"configs\":{},\"mine\":{mine},\"total\":{total},\"execs\":{},\"complete\":{},\"pruned\":{},\"states\":{},\"transitions\":{},\"max_depth\":{},\"deliveries\":{},\"multi\":{},\"capped\":{},\"skipped\":{skipped},\"secs\":{:.2}}}",
        tot.configs, tot.execs, tot.complete, tot.pruned, tot.states, tot.transitions, tot.max_depth, tot.deliveries, tot.multi, tot.capped, start.elapsed().as_secs_f64()
    );
}

pub fn run_one(p: &str, c: &str, d: Instant) {
    let c = parse_config(c);
    let mut tot = Tot::default();
    let t = Instant::now();
    let v = one_config(p, &c, d, &mut tot, true, 0);
    println!("{c}");
    println!("execs={} complete={} states={} transitions={} depth={} capped={} {:?}", tot.execs, tot.complete, tot.states, tot.transitions, tot.max_depth, tot.capped, t.elapsed());
    if !c.kind.starts_with("multi:") {
        for t in run::rc().outcomes_text.values() {
            println!("  {t}");
        }
    }
    if let Some((msg, ch)) = v {
        println!("VIOL {{\"config\":{},\"index\":0,\"msg\":{},\"choices\":{}}}", esc(&c.to_string()), esc(&msg), esc(&show_choices(&ch)));
        do_replay(p, &c, &ch);
    }
}
/// Explores each configuration with and without pruning of visited states: the sets of final monitor
/// states and of outcomes must agree.
pub fn selftest(d: Instant) -> bool {
    let mut all = true;
    let cfgs = [
        ("C01", "iter:E len=2 end=drop P=N,N|N,C2"),
        ("C01", "iter:E len=2 end=drop P=N,C2|LN"),
        ("C01", "iter:E len=1 end=drop P=LN|C2/1"),
        ("C04", "iter:E len=2 end=drop P=N,N|N,C2"),
        ("C04", "vec:E len=2 end=drop P=N,N|C2,N"),
        ("C04", "vec:E len=3 end=drop P=N|C2|N"),
        ("C04", "vec:E len=3 end=drop P=N|C2|B2"),
        ("C04", "iter:E len=2 end=drop P=N|B2"),
        ("C05", "vec:E len=2 end=drop P=LN|LC2"),
        ("C05", "iter:E len=1 end=drop P=LN|LB2"),
        ("C06", "vec:E len=3 end=seq P=N,S|N,C2"),
        ("C06", "vec:B len=3 end=drop P=N,S|N,C2/1"),
        ("C06", "iter:E len=2 end=drop P=S|N,N"),
        ("C06", "arr:E len=2 end=seq P=N|S|C2"),
        ("C08", "vec:B len=2 end=drop P=N,S|H2,N"),
        ("C10", "vec:E len=3 end=seq P=N|C2/1"),
        ("C11", "vec:E len=2 end=drop P=N,?L|?M,N"),
        ("C11", "iter:E len=2 end=drop P=?L|N,N"),
        ("C11", "iter:E hint=1 len=1 end=drop P=N,?M|C2"),
        ("C12", "vec:E len=2 end=drop P=O1|O2"),
        ("C12", "iter:E len=1 end=drop P=F1|E2"),
        ("C13", "cloned:slice len=2 end=drop P=N,N|C2"),
        ("C17", "vec:E len=2 end=drop P=N,N|C2"),
        ("C17", "iter:E len=2 end=drop P=N,N|C2"),
        ("C17", "iter:E len=2 end=seq P=N|B2"),
        ("C18", "iter:E len=2 end=drop panic=n1 P=N,N|N,N"),
        ("C18", "vec:E len=2 end=drop panic=f1 P=F1|N,N"),
        ("C04", "iter:E len=2 end=drop spur=1 P=N|C2"),
        ("C04", "vec:E len=3 end=drop spur=1 P=N,N|C2"),
        ("C04", "iter:E len=2 end=drop impat=50 P=N|C2"),
        ("C09", "vec:E len=3 end=drop nowait P=N,N|C2,N"),
        ("C07", "vec:E len=2 end=drop race P=N,N|C2"),
        ("C07", "iter:E len=1 end=drop race P=N|C2"),
        ("C04", "vec:E len=2 end=drop stale=2 P=N,N|C2"),
        ("C06", "vec:E len=2 end=drop stale=1 P=N,S|N"),
        ("C19", "multi:slice len=2 end=seq P=N,X,N|N|C2"),
        ("C19", "multi:vec len=2 end=drop P=N,X,N|N,S|N"),
    ];
    for (p, c) in cfgs {
        let mut r = vec![];
        for np in [false, true] {
            unsafe {
                run::FINALS = Some(Default::default());
                run::NO_PRUNE = np;
            }
            let cfg = parse_config(c);
            let (st, v) = if cfg.kind.starts_with("multi:") {
                multi::explore(&cfg, d)
            } else {
                run::explore(&cfg, ck(p), d, matches!(p, "C13" | "C17"))
            };
            let f = run::finals().unwrap();
            let h = f.iter().fold(0u64, |a, x| mc::mix(a, *x));
            let o = run::rc().outcomes.as_ref().map(|o| o.iter().fold(o.len() as u64, |a, x| mc::mix(a, *x))).unwrap_or(0);
            r.push((f.len(), h, o, v.is_some(), st.execs, st.capped));
        }
        let ok = (r[0].0, r[0].1, r[0].2, r[0].3) == (r[1].0, r[1].1, r[1].2, r[1].3);
        println!(
            "{} {p} {c}: {} final states; {} executions with, {} without pruning",
            if r[1].5 { "CAPPED" } else if ok { "agree" } else { "DIFFER" },
            r[0].0,
            r[0].4,
            r[1].4
        );
        all &= ok || r[1].5;
    }
    all
}
fn do_replay(p: &str, c: &Config, ch: &[u8]) {
    let p = p.trim_end_matches('T');
    let (m, tr) = if c.kind.starts_with("multi:") { multi::replay(c, ch) } else { run::replay(c, ck(p), ch) };
    for l in tr {
        println!("   {l}");
    }
    println!("REPLAY {}", esc(&m.unwrap_or_default()));
}
pub fn replay(p: &str, c: &str, ch: &str) {
    do_replay(p, &parse_config(c), &parse_choices(ch));
}

/// a few explored configurations with one executed trace each
pub fn samples(p: &str, tier: &str) {
    let cs = configs(p, tier);
    let n = cs.len();
    if n == 0 {
        return;
    }
    let conc: Vec<usize> = (0..n).filter(|i| cs[*i].progs.len() > 1).collect();
    let mut pick = vec![0, n / 2];
    if !conc.is_empty() {
        pick.push(conc[conc.len() / 3]);
        pick.push(conc[conc.len() * 4 / 5]);
    }
    for i in pick {
        let c = &cs[i];
        let mut t = Tot::default();
        let v = one_config(p, c, Instant::now() + Duration::from_secs(5), &mut t, false, i);
        let pr = p.trim_end_matches('T');
        let ch = v.map(|v| v.1).unwrap_or_default();
        // the first execution of the exploration
        let (_, tr) = if c.kind.starts_with("multi:") { multi::replay(c, &ch) } else { run::replay(c, ck(pr), &ch) };
        let tr: Vec<String> = tr.iter().take(40).map(|s| esc(s.trim_end())).collect();
        println!(
            "SAMPLE {{\"configuration\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"first_execution\":[{}]}}",
            esc(&c.to_string()), t.execs, t.states, t.transitions, tr.join(",")
        );
    }
}
