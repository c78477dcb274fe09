//! Operations, programs and configurations (textual form = replay artefact).
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    /// next
    N,
    /// next_id_and_value
    I,
    /// next_chunk(n), consuming at most `1` elements of the chunk
    C(usize, Option<u8>),
    /// buffered_iter(n).next(), the buffered iterator is kept by the thread
    B(usize, Option<u8>),
    /// values() / ids_and_values() loops
    V,
    W,
    /// for_each / enumerate_for_each / fold
    F(usize),
    E(usize),
    O(usize),
    /// loops until the end
    LN,
    LI,
    LC(usize),
    LB(usize),
    Skip,
    QL,
    QM,
    /// one-shot / buffered chunk that is held while the rest of the program runs
    H(usize),
    HB(usize),
    /// one-shot chunk dropped without consuming anything while other threads go on
    /// pull through a by-value adaptor: values().next() once
    V1,
    W1,
    /// AtomicIter: fetch_one, fetch_n, early_exit, progress_and_get_begin_idx, counter().fetch_and_add
    G1,
    GC(usize, Option<u8>),
    GX,
    GP(usize),
    GA(usize),
    /// clone the iterator, the rest of the program runs on the clone
    X,
}
use Op::*;
impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let part = |p: &Option<u8>| p.map(|k| format!("/{k}")).unwrap_or_default();
        match self {
            N => write!(f, "N"),
            I => write!(f, "I"),
            C(n, p) => write!(f, "C{}{}", num(*n), part(p)),
            B(n, p) => write!(f, "B{}{}", num(*n), part(p)),
            V => write!(f, "V"),
            W => write!(f, "W"),
            F(n) => write!(f, "F{n}"),
            E(n) => write!(f, "E{n}"),
            O(n) => write!(f, "O{n}"),
            LN => write!(f, "LN"),
            LI => write!(f, "LI"),
            LC(n) => write!(f, "LC{}", num(*n)),
            LB(n) => write!(f, "LB{}", num(*n)),
            Skip => write!(f, "S"),
            QL => write!(f, "?L"),
            QM => write!(f, "?M"),
            H(n) => write!(f, "H{n}"),
            HB(n) => write!(f, "HB{n}"),
            V1 => write!(f, "V1"),
            W1 => write!(f, "W1"),
            X => write!(f, "X"),
            G1 => write!(f, "G1"),
            GC(n, p) => write!(f, "GC{}{}", num(*n), part(p)),
            GX => write!(f, "GX"),
            GP(n) => write!(f, "GP{}", num(*n)),
            GA(n) => write!(f, "GA{}", num(*n)),
        }
    }
}
pub fn num(n: usize) -> String {
    if n > usize::MAX / 2 + 64 {
        format!("max-{}", usize::MAX - n)
    } else if n > usize::MAX / 4 {
        let h = usize::MAX / 2;
        if n >= h { format!("half+{}", n - h) } else { format!("half-{}", h - n) }
    } else {
        n.to_string()
    }
}
pub fn unnum(s: &str) -> usize {
    if let Some(x) = s.strip_prefix("max-") {
        usize::MAX - x.parse::<usize>().unwrap()
    } else if let Some(x) = s.strip_prefix("half+") {
        usize::MAX / 2 + x.parse::<usize>().unwrap()
    } else if let Some(x) = s.strip_prefix("half-") {
        usize::MAX / 2 - x.parse::<usize>().unwrap()
    } else {
        s.parse().unwrap_or_else(|_| panic!("bad number {s}"))
    }
}
pub fn parse_op(s: &str) -> Op {
    let np = |x: &str| -> (usize, Option<u8>) {
        match x.split_once('/') {
            Some((a, b)) => (unnum(a), Some(b.parse().unwrap())),
            None => (unnum(x), None),
        }
    };
    match s {
        "N" => N,
        "I" => I,
        "V" => V,
        "W" => W,
        "V1" => V1,
        "W1" => W1,
        "LN" => LN,
        "LI" => LI,
        "S" => Skip,
        "X" => X,
        "G1" => G1,
        "GX" => GX,
        "?L" => QL,
        "?M" => QM,
        _ => {
            if let Some(x) = s.strip_prefix("GC") {
                let (n, p) = np(x);
                GC(n, p)
            } else if let Some(x) = s.strip_prefix("GP") {
                GP(unnum(x))
            } else if let Some(x) = s.strip_prefix("GA") {
                GA(unnum(x))
            } else if let Some(x) = s.strip_prefix("LC") {
                LC(unnum(x))
            } else if let Some(x) = s.strip_prefix("LB") {
                LB(unnum(x))
            } else if let Some(x) = s.strip_prefix("HB") {
                HB(unnum(x))
            } else if let Some(x) = s.strip_prefix('H') {
                H(unnum(x))
            } else if let Some(x) = s.strip_prefix('C') {
                let (n, p) = np(x);
                C(n, p)
            } else if let Some(x) = s.strip_prefix('B') {
                let (n, p) = np(x);
                B(n, p)
            } else if let Some(x) = s.strip_prefix('F') {
                F(unnum(x))
            } else if let Some(x) = s.strip_prefix('E') {
                E(unnum(x))
            } else if let Some(x) = s.strip_prefix('O') {
                O(unnum(x))
            } else {
                panic!("bad op {s}")
            }
        }
    }
}
impl Op {
    pub fn is_skip(&self) -> bool {
        matches!(self, Skip | GX)
    }
}

pub type Prog = Vec<Op>;
pub fn show_prog(p: &[Op]) -> String {
    p.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",")
}
pub fn parse_prog(s: &str) -> Prog {
    if s.is_empty() {
        return vec![];
    }
    s.split(',').map(parse_op).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ending {
    Drop,
    /// into_seq_iter, taking at most n elements of the remainder
    Seq(usize),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub kind: String,
    pub len: usize,
    pub progs: Vec<Prog>,
    pub end: Ending,
    pub hint: u8,
    pub revive: usize,
    /// scheduling point inside the wrapped iterator's next / clone
    pub pp: bool,
    /// 'n' = k-th next, 'c' = k-th clone, 'f' = k-th closure call
    pub panic: Option<(char, usize)>,
    pub cap: usize,
    pub bound: Option<u32>,
    pub race: bool,
    pub stale: u32,
    pub spur: u32,
    /// steps one thread may wait while all others are suspended
    pub impat: u32,
    /// how the elements of chunks, loops and remainders are taken: 0 next, 1 for_each, 2 nth, 3 collect,
    /// 4 count, 5 last, 6 next and then for_each, 7 the end is asked for again, 8 nth with jumps beyond the end
    pub uses: u8,
    pub nowait: bool,
}
impl Config {
    pub fn new(kind: &str, len: usize, progs: Vec<Prog>) -> Self {
        Config {
            kind: kind.into(),
            len,
            progs,
            end: Ending::Drop,
            hint: 0,
            revive: 0,
            pp: false,
            panic: None,
            cap: 0,
            bound: None,
            race: false,
            stale: 0,
            spur: 0,
            impat: 0,
            uses: 0,
            nowait: false,
        }
    }
    pub fn known_size(&self) -> bool {
        !self.kind.contains("iter") || self.hint == 0
    }
}
impl fmt::Display for Config {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} len={}", self.kind, self.len)?;
        let e = match self.end {
            Ending::Drop => "drop".into(),
            Ending::Seq(n) if n >= 99 => "seq".into(),
            Ending::Seq(n) => format!("seq{n}"),
        };
        write!(f, " end={e}")?;
        if self.hint != 0 {
            write!(f, " hint={}", self.hint)?;
        }
        if self.revive != 0 {
            write!(f, " revive={}", self.revive)?;
        }
        if self.pp {
            write!(f, " pp")?;
        }
        if let Some((c, k)) = self.panic {
            write!(f, " panic={c}{k}")?;
        }
        if self.cap != 0 {
            write!(f, " cap={}", self.cap)?;
        }
        if let Some(b) = self.bound {
            write!(f, " bound={b}")?;
        }
        if self.race {
            write!(f, " race")?;
        }
        if self.stale != 0 {
            write!(f, " stale={}", self.stale)?;
        }
        if self.spur != 0 {
            write!(f, " spur={}", self.spur)?;
        }
        if self.uses != 0 {
            write!(f, " use={}", self.uses)?;
        }
        if self.impat != 0 {
            write!(f, " impat={}", self.impat)?;
        }
        if self.nowait {
            write!(f, " nowait")?;
        }
        write!(f, " P={}", self.progs.iter().map(|p| show_prog(p)).collect::<Vec<_>>().join("|"))
    }
}
pub fn parse_config(s: &str) -> Config {
    let mut it = s.split_whitespace();
    let mut c = Config::new(it.next().unwrap(), 0, vec![]);
    for w in it {
        let (k, v) = w.split_once('=').unwrap_or((w, ""));
        match k {
            "len" => c.len = unnum(v),
            "end" => {
                c.end = match v {
                    "drop" => Ending::Drop,
                    "seq" => Ending::Seq(99),
                    x => Ending::Seq(x[3..].parse().unwrap()),
                }
            }
            "hint" => c.hint = v.parse().unwrap(),
            "revive" => c.revive = v.parse().unwrap(),
            "pp" => c.pp = true,
            "panic" => c.panic = Some((v.chars().next().unwrap(), v[1..].parse().unwrap())),
            "cap" => c.cap = v.parse().unwrap(),
            "bound" => c.bound = Some(v.parse().unwrap()),
            "race" => c.race = true,
            "stale" => c.stale = v.parse().unwrap(),
            "spur" => c.spur = v.parse().unwrap(),
            "use" => c.uses = v.parse().unwrap(),
            "impat" => c.impat = v.parse().unwrap(),
            "nowait" => c.nowait = true,
            "P" => c.progs = v.split('|').map(parse_prog).collect(),
            _ => panic!("bad config word {w}"),
        }
    }
    c
}

/// all sequences of exactly `n` operations
pub fn seqs(alpha: &[Op], n: usize) -> Vec<Prog> {
    let mut r: Vec<Prog> = vec![vec![]];
    for _ in 0..n {
        let mut q = Vec::new();
        for p in &r {
            for o in alpha {
                let mut x = p.clone();
                x.push(*o);
                q.push(x);
            }
        }
        r = q;
    }
    r
}
pub fn seqs_upto(alpha: &[Op], lo: usize, hi: usize) -> Vec<Prog> {
    (lo..=hi).flat_map(|n| seqs(alpha, n)).collect()
}
/// all multisets of `k` programs
pub fn multisets(progs: &[Prog], k: usize) -> Vec<Vec<Prog>> {
    fn rec(progs: &[Prog], k: usize, from: usize, cur: &mut Vec<Prog>, out: &mut Vec<Vec<Prog>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..progs.len() {
            cur.push(progs[i].clone());
            rec(progs, k - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    rec(progs, k, 0, &mut Vec::new(), &mut out);
    out
}
/// every program of `a` against every one of `b`
pub fn product(a: &[Prog], b: &[Prog]) -> Vec<Vec<Prog>> {
    let mut out = Vec::new();
    for x in a {
        for y in b {
            out.push(vec![x.clone(), y.clone()]);
        }
    }
    out
}
