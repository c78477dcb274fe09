"""C14: bounded-exhaustive enumeration of client programs, decided by the compiler.

The space of programs is a product grammar (source x element type x use; source x thing held x
invalidation; call sequences that would create two owners).  Every program is a function of its own
and is given to rustc against the crate built from /repo's working tree (verification hook off).
The oracle knows, per program, whether safe Rust may accept it:

  must_fail  accepting it would let safe code break the property; if the compiler accepts it, that
             program is the counterexample (programs about ownership are also run: they are only
             reported if one element really gets two owners);
  must_pass  its twin: the same program with a legal type / without the invalidation.  A must_fail
             program counts only if its twin compiles, so that it fails for the right reason;
  any        the property does not say (not judged, only counted).
"""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build as B

PRELUDE = """#![allow(dead_code, unused, warnings)]
use orx_concurrent_iter::*;
use orx_concurrent_iter::iter::atomic_iter::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
pub fn any<T>() -> T { panic!() }
pub fn eat<T>(_: T) {}
"""


class P:
    """one program: a function body with the oracle's verdict"""

    def __init__(self, pid, want, body, twin=None, params="", ret="", gen="", run=None):
        self.pid, self.want, self.body, self.twin, self.run = pid, want, body, twin, run
        self.params, self.ret, self.gen = params, ret, gen

    def text(self, i):
        r = f" -> {self.ret}" if self.ret else ""
        return f"pub fn p{i}{self.gen}({self.params}){r} {{ {self.body} }}\n"


# ------------------------------------------------------------------ thread bounds

# element type -> (Send, Sync, Copy, Clone)
ELEMS = {
    "i32": (1, 1, 1, 1),
    "String": (1, 1, 0, 1),
    "Arc<i32>": (1, 1, 0, 1),
    "&'static str": (1, 1, 1, 1),
    "Vec<Arc<Mutex<i32>>>": (1, 1, 0, 1),
    "Cell<i32>": (1, 0, 0, 1),
    "RefCell<String>": (1, 0, 0, 1),
    "Rc<i32>": (0, 0, 0, 1),
    "*const i32": (0, 0, 1, 1),
    "&'static Cell<i32>": (0, 0, 1, 1),
    "Option<Rc<String>>": (0, 0, 0, 1),
    "(i32, Rc<i32>)": (0, 0, 0, 1),
    "Arc<Cell<i32>>": (0, 0, 0, 1),
    "Box<dyn Fn()>": (0, 0, 0, 0),
    "MutexGuard<'static, i32>": (0, 1, 0, 0),
    "Arc<Rc<i32>>": (0, 0, 0, 1),
    "std::sync::mpsc::Receiver<i32>": (1, 0, 0, 0),
}
# source -> (expression making the iterator from any::<..>(), what crosses threads: "own" needs Send, "ref" needs Sync, need)
THREAD_SRC = {
    "vec": ("any::<Vec<T>>().into_con_iter()", "own", None),
    "vec-new": ("ConIterOfVec::<T>::new(any())", "own", None),
    "array": ("any::<[T; 3]>().into_con_iter()", "own", None),
    "array-new": ("ConIterOfArray::<3, T>::new(any())", "own", None),
    "slice": ("any::<&'static [T]>().into_con_iter()", "ref", None),
    "slice-new": ("ConIterOfSlice::<'static, T>::new(any())", "ref", None),
    "slice-clone": ("any::<&'static [T]>().into_con_iter().clone()", "ref", None),
    "vec-ref": ("any::<&'static Vec<T>>().con_iter()", "ref", None),
    "array-ref": ("any::<&'static [T; 3]>().con_iter()", "ref", None),
    "slice-con": ("any::<&'static &'static [T]>().con_iter()", "ref", None),
    "cloned-slice": ("any::<&'static [T]>().into_con_iter().cloned()", "ref", "clone"),
    "cloned-vec-ref": ("any::<&'static Vec<T>>().con_iter().cloned()", "ref", "clone"),
    "copied-slice": ("any::<&'static [T]>().into_con_iter().copied()", "ref", "copy"),
    "copied-vec-ref": ("any::<&'static Vec<T>>().con_iter().copied()", "ref", "copy"),
    "iter-vec": ("any::<std::vec::IntoIter<T>>().into_con_iter()", "own", None),
    "iter-new": ("ConIterOfIter::<T, std::vec::IntoIter<T>>::new(any())", "own", None),
    "iter-box": ("any::<Box<dyn Iterator<Item = T> + Send>>().into_con_iter()", "own", None),
    "iter-slice": ("any::<std::slice::Iter<'static, T>>().into_con_iter()", "ref", None),
    "cloned-iter": ("any::<std::slice::Iter<'static, T>>().into_con_iter().cloned()", "ref", "clone"),
    "copied-iter": ("any::<std::slice::Iter<'static, T>>().into_con_iter().copied()", "ref", "copy"),
}
USES = {
    "share-next": "std::thread::scope(|s| { s.spawn(|| { let _ = it.next(); }); s.spawn(|| { let _ = it.next(); }); });",
    "share-id": "std::thread::scope(|s| { s.spawn(|| { let _ = it.next_id_and_value(); }); });",
    "share-chunk": "std::thread::scope(|s| { s.spawn(|| { if let Some(c) = it.next_chunk(2) { for x in c.values { eat(x); } }; }); });",
    "share-buffered": "std::thread::scope(|s| { s.spawn(|| { let mut b = it.buffered_iter(2); if let Some(c) = b.next() { for x in c.values { eat(x); } }; }); });",
    "share-values": "std::thread::scope(|s| { s.spawn(|| { for x in it.values() { eat(x); } }); });",
    "share-ids": "std::thread::scope(|s| { s.spawn(|| { for x in it.ids_and_values() { eat(x); } }); });",
    "share-for-each": "std::thread::scope(|s| { s.spawn(|| { it.for_each(2, |x| eat(x)); }); });",
    "share-enumerate": "std::thread::scope(|s| { s.spawn(|| { it.enumerate_for_each(2, |_, x| eat(x)); }); });",
    "share-fold": "std::thread::scope(|s| { s.spawn(|| { it.fold(2, 0, |a, _| a + 1) }); });",
    "share-skip": "std::thread::scope(|s| { s.spawn(|| { it.skip_to_end(); }); });",
    "share-fetch": "std::thread::scope(|s| { s.spawn(|| { let _ = it.fetch_one(); }); });",
    "move-scoped": "std::thread::scope(|s| { s.spawn(move || { let _ = it.next(); }); });",
    "move-static": "std::thread::spawn(move || { let _ = it.next(); });",
    "move-seq": "std::thread::spawn(move || { for x in it.into_seq_iter() { eat(x); } });",
    "move-drop": "std::thread::spawn(move || drop(it));",
    "move-arc": "let it = Arc::new(it); let it2 = it.clone(); std::thread::spawn(move || { let _ = it2.next(); }); let _ = it.next();",
    "buffered-moved": "let mut b = it.buffered_iter(2); std::thread::scope(|s| { s.spawn(move || { if let Some(c) = b.next() { for x in c.values { eat(x); } }; }); });",
    "values-moved": "let v = it.values(); std::thread::scope(|s| { s.spawn(move || { for x in v { eat(x); } }); });",
    "chunk-moved": "if let Some(c) = it.next_chunk(2) { let v = c.values; std::thread::scope(|s| { s.spawn(move || { for x in v { eat(x); } }); }); };",
    "buffered-chunk-moved": "let mut b = it.buffered_iter(2); if let Some(c) = b.next() { let v = c.values; std::thread::scope(|s| { s.spawn(move || { for x in v { eat(x); } }); }); };",
    "generic": "fn par<C: ConcurrentIter>(c: &C) { std::thread::scope(|s| { s.spawn(|| { let _ = c.next(); }); }); } par(&it);",
    "dyn-send": "fn need<X: Send>(_: X) {} need(it);",
    "dyn-sync": "fn need<X: Sync>(_: &X) {} need(&it);",
}
# wrapped sequential iterators that must not cross threads
NOTSEND_ITERS = {
    "map-rc": "{ let rc = Rc::new(Cell::new(0)); (0..4).map(move |x| { rc.set(rc.get() + x); x }) }",
    "rc-chars": "{ let rc: Rc<RefCell<Vec<i32>>> = any(); std::iter::from_fn(move || rc.borrow_mut().pop()) }",
    "box-dyn": "any::<Box<dyn Iterator<Item = i32>>>()",
    "cell-ref": "{ let c: &'static Cell<i32> = any(); std::iter::repeat_with(move || c.replace(1)) }",
    "drain-rc": "any::<std::vec::IntoIter<Rc<i32>>>().map(|x| *x)",
    "raw": "{ struct R(*const i32); impl Iterator for R { type Item = i32; fn next(&mut self) -> Option<i32> { None } } R(any()) }",
}
SEND_ITERS = {
    "map-rc": "{ let rc = Arc::new(Mutex::new(0)); (0..4).map(move |x| { *rc.lock().unwrap() += x; x }) }",
    "rc-chars": "{ let rc: Arc<Mutex<Vec<i32>>> = any(); std::iter::from_fn(move || rc.lock().unwrap().pop()) }",
    "box-dyn": "any::<Box<dyn Iterator<Item = i32> + Send>>()",
    "cell-ref": "{ let c: &'static Mutex<i32> = any(); std::iter::repeat_with(move || *c.lock().unwrap()) }",
    "drain-rc": "any::<std::vec::IntoIter<Arc<i32>>>().map(|x| *x)",
    "raw": "{ struct R(i32); impl Iterator for R { type Item = i32; fn next(&mut self) -> Option<i32> { None } } R(any()) }",
}


def thread_programs():
    out = []
    for s, (expr, need, cap) in THREAD_SRC.items():
        for e, (snd, syn, cpy, cln) in ELEMS.items():
            if cap == "clone" and not cln or cap == "copy" and not cpy:
                continue
            if snd and syn:
                want = "must_pass"
            elif need == "own" and not snd or need == "ref" and not syn:
                want = "must_fail"
            else:
                want = "any"
            for u, code in USES.items():
                twin = f"threads/{s}/i32/{u}"
                w = want
                # nothing of the element type crosses when a chunk or buffered iterator of clones ... is moved: still judged by its twin
                out.append(P(f"threads/{s}/{e}/{u}", w, f"type T = {e}; let it = {expr}; {code}", twin))
    for k in NOTSEND_ITERS:
        for ctor in ("into", "new", "from"):
            mk = {"into": "(IT).into_con_iter()", "new": "ConIterOfIter::new(IT)", "from": "ConIterOfIter::from(IT)"}[ctor]
            for u, code in USES.items():
                if u in ("chunk-moved", "buffered-chunk-moved"):
                    # only the (Send) elements move
                    continue
                good = f"threads/wrapped-{ctor}/send-{k}/{u}"
                out.append(P(good, "must_pass", f"let it = {mk.replace('IT', SEND_ITERS[k])}; {code}", good))
                out.append(P(f"threads/wrapped-{ctor}/notsend-{k}/{u}", "must_fail",
                             f"let it = {mk.replace('IT', NOTSEND_ITERS[k])}; {code}", good))
    return out


# ------------------------------------------------------------------ lifetimes

REF_SRC = {
    "vec-ref": ("let mut c: Vec<String> = any();", "c.con_iter()"),
    "array-ref": ("let mut c: [String; 3] = any();", "c.con_iter()"),
    "slice": ("let mut c: Vec<String> = any();", "c.as_slice().into_con_iter()"),
    "slice-part": ("let mut c: Vec<String> = any();", "c[1..].into_con_iter()"),
    "slice-new": ("let mut c: Vec<String> = any();", "ConIterOfSlice::new(&c)"),
    "slice-from": ("let mut c: Vec<String> = any();", "ConIterOfSlice::from(c.as_slice())"),
    "slice-clone": ("let mut c: Vec<String> = any();", "c.as_slice().into_con_iter().clone()"),
    "box-slice": ("let mut c: Box<[String]> = any();", "c.into_con_iter()"),
    "iter-ref": ("let mut c: Vec<String> = any();", "c.iter().into_con_iter()"),
    "iter-map": ("let mut c: Vec<String> = any();", "c.iter().map(|x| x.as_str()).into_con_iter()"),
    "iter-filter": ("let mut c: Vec<String> = any();", "c.iter().filter(|x| x.len() > 3).into_con_iter()"),
    "cloned": ("let mut c: Vec<String> = any();", "c.con_iter().cloned()"),
    "cloned-slice": ("let mut c: Vec<String> = any();", "c.as_slice().into_con_iter().cloned()"),
    "copied": ("let mut c: Vec<u64> = any();", "c.con_iter().copied()"),
    "cloned-iter": ("let mut c: Vec<String> = any();", "c.iter().into_con_iter().cloned()"),
}
# what is held: (code making `h` from `it`, the held thing owns its data for cloning sources)
HOLDS = {
    "iter": ("let h = it;", False),
    "item": ("let h = it.next().unwrap();", True),
    "id-value": ("let h = it.next_id_and_value().unwrap().value;", True),
    "fetched": ("let h = it.fetch_one().unwrap().value;", True),
    "chunk": ("let h = it.next_chunk(2).unwrap().values;", False),
    "chunk-item": ("let h = it.next_chunk(2).unwrap().values.next().unwrap();", True),
    "chunk-vec": ("let h = it.next_chunk(2).unwrap().values.collect::<Vec<_>>();", True),
    "buffered": ("let mut h = it.buffered_iter(2);", False),
    "buffered-item": ("let h = { let mut b = it.buffered_iter(2); let x = b.next().unwrap().values.next().unwrap(); x };", True),
    "buffered-vec": ("let h = { let mut b = it.buffered_iter(2); let x = b.next().unwrap().values.collect::<Vec<_>>(); x };", True),
    "buffered-chunk": ("let mut b = it.buffered_iter(2); let h = b.next().unwrap().values;", False),
    "values": ("let h = it.values();", False),
    "values-item": ("let h = it.values().next().unwrap();", True),
    "ids": ("let h = it.ids_and_values();", False),
    "ids-item": ("let h = it.ids_and_values().next().unwrap().1;", True),
    "for-each-item": ("let mut h = None; it.for_each(1, |x| h = Some(x));", True),
    "for-each-chunk": ("let mut h = None; it.for_each(2, |x| h = Some(x));", True),
    "enumerate-item": ("let mut h = None; it.enumerate_for_each(2, |_, x| h = Some(x));", True),
    "fold-item": ("let h = it.fold(2, None, |_, x| Some(x));", True),
    "seq": ("let h = it.into_seq_iter();", False),
    "seq-item": ("let h = it.into_seq_iter().next().unwrap();", True),
}
REF_INVALID = {
    "drop": "drop(c);",
    "move": "let d = c;",
    "mutate": "c[0] = any();",
    "borrow-mut": "eat(&mut c);",
    "thread": "std::thread::spawn(move || eat(c));",
}
OWN_SRC = {
    "vec": "any::<Vec<String>>().into_con_iter()",
    "vec-new": "ConIterOfVec::<String>::new(any())",
    "array": "any::<[String; 3]>().into_con_iter()",
    "iter": "any::<std::vec::IntoIter<String>>().into_con_iter()",
    "iter-map": "(0..10).map(|x| x.to_string()).into_con_iter()",
    "range": "IntoConcurrentIter::into_con_iter(0usize..10)",
}
OWN_INVALID = {
    "drop": "drop(it);",
    "seq": "let r = it.into_seq_iter();",
    "move": "let r = it;",
    "replace": "it = any();",
    "thread": "std::thread::spawn(move || eat(it));",
    "borrow-mut": "eat(&mut it);",
}


def lifetime_programs():
    out = []
    for s, (coll, expr) in REF_SRC.items():
        cloning = s.startswith(("cloned", "copied"))
        for h, (hold, owns) in HOLDS.items():
            twin = f"lifetimes/{s}/{h}/none"
            out.append(P(twin, "must_pass", f"{coll} let it = {expr}; {hold} eat(h);", twin))
            want = "must_pass" if cloning and owns else "must_fail"
            for x, inv in REF_INVALID.items():
                # `it` and what borrows it are dead unless held: only `h` keeps the collection borrowed
                if h in ("buffered", "buffered-chunk", "chunk", "values", "ids"):
                    body = f"{coll} let it = {expr}; {hold} {inv} eat(h);"
                else:
                    body = f"{coll} let h = {{ let it = {expr}; {hold} h }}; {inv} eat(h);"
                if cloning and owns:
                    body2 = f"{coll} let h = {{ let it = {expr}; {hold} h }}; {inv} eat(h);"
                    out.append(P(f"lifetimes/{s}/{h}/{x}", "any", body2, twin))
                else:
                    out.append(P(f"lifetimes/{s}/{h}/{x}", want, body, twin))
            if not (cloning and owns) and h not in ("buffered", "buffered-chunk", "chunk", "values", "ids"):
                out.append(P(f"lifetimes/{s}/{h}/scope", "must_fail", f"let h = {{ {coll} let it = {expr}; {hold} h }}; eat(h);", twin))
        if not cloning and s != "iter-map":
            # a reference handed out as if it lived longer
            out.append(P(f"lifetimes/{s}/signature-static", "must_fail",
                         f"let it = {expr}; it.next().unwrap()", f"lifetimes/{s}/signature",
                         params="c: &'a Vec<String>" if "array" not in s else "c: &'a [String; 3]", ret="&'static String", gen="<'a>")
                       if s not in ("box-slice",) else
                       P(f"lifetimes/{s}/signature-static", "must_fail", "let it = c.into_con_iter(); it.next().unwrap()",
                         f"lifetimes/{s}/signature", params="c: &'a [String]", ret="&'static String", gen="<'a>"))
            out.append(P(f"lifetimes/{s}/signature", "must_pass", f"let it = {expr}; let x = it.next().unwrap(); x",
                         f"lifetimes/{s}/signature",
                         params="c: &'a Vec<String>" if "array" not in s else "c: &'a [String; 3]", ret="&'a String", gen="<'a>")
                       if s not in ("box-slice",) else
                       P(f"lifetimes/{s}/signature", "must_pass", "let it = c.into_con_iter(); let x = it.next().unwrap(); x",
                         f"lifetimes/{s}/signature", params="c: &'a [String]", ret="&'a String", gen="<'a>"))
    for s, expr in OWN_SRC.items():
        for h in ("chunk", "buffered", "buffered-chunk", "values", "ids", "item", "chunk-item", "chunk-vec", "buffered-vec"):
            hold, owns = HOLDS[h]
            twin = f"lifetimes/{s}/{h}/none"
            out.append(P(twin, "must_pass", f"let mut it = {expr}; {hold} eat(h);", twin))
            for x, inv in OWN_INVALID.items():
                if owns:
                    want = "any"
                elif h == "chunk" and s in ("iter", "iter-map", "range"):
                    # such a chunk has a buffer of its own
                    want = "any"
                elif h in ("buffered-chunk",) and s == "range":
                    want = "any"
                else:
                    want = "must_fail"
                out.append(P(f"lifetimes/{s}/{h}/{x}", want, f"let mut it = {expr}; {hold} {inv} eat(h);", twin))
    # a buffered chunk and the next pull on its buffer
    both = {k: (a, b) for k, (a, b) in REF_SRC.items()}
    both.update({k: ("let c = ();", v) for k, v in OWN_SRC.items()})
    for s, (coll, expr) in both.items():
        twin = f"buffer/{s}/twin"
        out.append(P(twin, "must_pass", f"{coll} let it = {expr}; let mut b = it.buffered_iter(2); let x = b.next(); eat(x); let y = b.next(); eat(y);", twin))
        for k, held in {"chunk": "b.next()", "chunk-values": "b.next().unwrap().values", "enumerated": "b.next().unwrap().values.enumerate()"}.items():
            for x, inv in {"next": "let y = b.next();", "loop": "while let Some(y) = b.next() {}", "moved": "let b2 = b;", "drop": "drop(b);",
                           "borrow-mut": "eat(&mut b);", "replace": "b = it.buffered_iter(3);"}.items():
                want = "must_fail" if x in ("next", "loop") or s in ("iter", "iter-map", "iter-ref", "iter-filter", "cloned-iter", "vec", "vec-new", "array") else "any"
                out.append(P(f"buffer/{s}/{k}/{x}", want, f"{coll} let it = {expr}; let mut b = it.buffered_iter(2); let h = {held}; {inv} eat(h);", twin))
        out.append(P(f"buffer/{s}/collected/next", "any", f"{coll} let it = {expr}; let mut b = it.buffered_iter(2); let h = b.next().unwrap().values.collect::<Vec<_>>(); let y = b.next(); eat(h);", twin))
    # what elements borrow
    for s, mk in {"vec": "vec![x.as_str()].into_con_iter()", "array": "[x.as_str()].into_con_iter()",
                  "iter": "vec![x.as_str()].into_iter().into_con_iter()", "cloned": "v.con_iter().cloned()", "copied": "v.con_iter().copied()"}.items():
        pre = "let x = String::from(\"a\"); let v = vec![x.as_str()];"
        for h in ("item", "chunk-item", "chunk-vec", "buffered-item", "buffered-vec", "values-item", "ids-item", "for-each-item", "fold-item", "seq-item", "iter"):
            hold, _ = HOLDS[h]
            twin = f"borrowed/{s}/{h}/none"
            out.append(P(twin, "must_pass", f"{pre} let h = {{ let it = {mk}; {hold} h }}; eat(h);", twin))
            out.append(P(f"borrowed/{s}/{h}/drop", "must_fail", f"{pre} let h = {{ let it = {mk}; {hold} h }}; drop(x); eat(h);", twin))
            out.append(P(f"borrowed/{s}/{h}/scope", "must_fail", f"let h = {{ {pre} let it = {mk}; {hold} h }}; eat(h);", twin))
    return out


# ------------------------------------------------------------------ two owners

OWNER_PRE = """#![allow(dead_code, unused, warnings)]
use orx_concurrent_iter::*;
use orx_concurrent_iter::iter::atomic_iter::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
static NEXT: AtomicUsize = AtomicUsize::new(0);
static DROPS: [AtomicUsize; 512] = [const { AtomicUsize::new(0) }; 512];
#[derive(Debug)]
pub struct D(usize);
impl D { pub fn new() -> D { D(NEXT.fetch_add(1, Ordering::SeqCst)) } }
impl Clone for D { fn clone(&self) -> D { D::new() } }
impl Drop for D { fn drop(&mut self) { if self.0 < 512 { DROPS[self.0].fetch_add(1, Ordering::SeqCst); } } }
pub fn mk() -> Vec<D> { (0..4).map(|_| D::new()).collect() }
pub fn mka() -> [D; 4] { std::array::from_fn(|_| D::new()) }
"""
OWNER_SRC = {
    "vec": "mk().into_con_iter()",
    "array": "mka().into_con_iter()",
    "iter": "mk().into_iter().into_con_iter()",
}
# (body that must not compile, or must be harmless when it does; twin body that compiles)
OWNER_CALLS = {
    "get-twice": ("let a = it.get(0); let b = it.get(0);", "let a = it.fetch_one(); let b = it.fetch_one();"),
    "get-pulled": ("let a = it.next(); let b = it.get(0);", "let a = it.next(); let b = it.fetch_one();"),
    "get-then-pull": ("let a = it.get(0); let b = it.next();", "let a = it.fetch_one(); let b = it.next();"),
    "get-then-drop": ("let a = it.get(2); drop(it);", "let a = it.fetch_one(); drop(it);"),
    "get-then-seq": ("let a = it.get(3); let r: Vec<D> = it.into_seq_iter().collect();", "let a = it.fetch_one(); let r: Vec<D> = it.into_seq_iter().collect();"),
    "generic-get": ("fn g<A: AtomicIter<D>>(a: &A) -> (Option<D>, Option<D>) { (a.get(1), a.get(1)) } let r = g(&it);",
                    "fn g<A: AtomicIter<D>>(a: &A) -> (Option<Next<D>>, Option<Next<D>>) { (a.fetch_one(), a.fetch_one()) } let r = g(&it);"),
    "store": ("let a = it.next(); it.counter().store(0); let b = it.next();", "let a = it.next(); it.counter().current(); let b = it.next();"),
    "store-seq": ("let a = it.next(); it.counter().store(0); let r: Vec<D> = it.into_seq_iter().collect();",
                  "let a = it.next(); it.counter().current(); let r: Vec<D> = it.into_seq_iter().collect();"),
    "store-drop": ("let a = it.next_chunk(3).map(|x| x.values.collect::<Vec<_>>()); it.counter().store(1); drop(it);",
                   "let a = it.next_chunk(3).map(|x| x.values.collect::<Vec<_>>()); it.counter().current(); drop(it);"),
    "swap": ("let a = it.next(); it.counter().swap(0); let b = it.next();", "let a = it.next(); it.counter().current(); let b = it.next();"),
    "clone": ("let it2 = it.clone(); let a = it.next(); let b = it2.next();", "let it2 = &it; let a = it.next(); let b = it2.next();"),
    "clone-late": ("let a = it.next(); let it2 = it.clone(); drop(it); drop(it2);", "let a = it.next(); let it2 = &it; drop(it);"),
    "copy": ("let it2 = it; let it3 = it; let a = it2.next(); let b = it3.next();", "let it2 = &it; let it3 = &it; let a = it2.next(); let b = it3.next();"),
    "seq-by-ref": ("let a: Vec<D> = (&it).into_seq_iter().collect(); let b: Vec<D> = (&it).into_seq_iter().collect();", "let a: Vec<D> = it.into_seq_iter().collect();"),
    "chunk-clone": ("let c = it.next_chunk(3).unwrap(); let v2 = c.values.clone(); drop(v2); drop(c);", "let c = it.next_chunk(3).unwrap(); let v2 = &c.values; drop(c);"),
    "chunk-copy": ("let c = it.next_chunk(3).unwrap(); let v = c.values; let w = v; let x = v;", "let c = it.next_chunk(3).unwrap(); let v = c.values; let w = v;"),
    "buffered-clone": ("let mut b = it.buffered_iter(2); let c: Vec<D> = b.next().unwrap().values.collect(); let mut b2 = b.clone(); drop(b); drop(b2);",
                       "let mut b = it.buffered_iter(2); let c: Vec<D> = b.next().unwrap().values.collect(); drop(b);"),
    "buffered-chunk-clone": ("let mut b = it.buffered_iter(2); let c = b.next().unwrap(); let v = c.values.clone(); drop(v); drop(c);",
                             "let mut b = it.buffered_iter(2); let c = b.next().unwrap(); let v = &c.values; drop(c);"),
    "next-clone": ("let n = it.next_id_and_value().unwrap(); let m = n.clone(); drop(n); drop(m);", "let n = it.next_id_and_value().unwrap(); let m = &n;"),
    "take-private": ("let a: Vec<D> = unsafe_free_take(&it); fn unsafe_free_take<A>(a: &A) -> Vec<D> { a.take_slice(0, 2).collect() }",
                     "let a: Vec<D> = unsafe_free_take(&it); fn unsafe_free_take<A>(a: &A) -> Vec<D> { Vec::new() }"),
    "take-slice": ("let a: Vec<D> = it.take_slice(0, 2).collect(); let b = it.next();", "let b = it.next();"),
    "take-one": ("let a = it.take_one(0); let b = it.next();", "let b = it.next();"),
    "mut-iter": ("let a = it.mut_iter().next(); let b = it.next();", "let b = it.next();"),
    "split-off": ("let a = it.split_off_right(0); drop(it);", "drop(it);"),
    "pull-direct": ("let mut b = it.buffered_iter(2); let x: Vec<D> = b.buffered_iter.pull(&it, 0).unwrap().collect(); let y = it.next();",
                    "let mut b = it.buffered_iter(2); let x: Vec<D> = b.next().unwrap().values.collect(); let y = it.next();"),
    "take-slice-twice": ("let a: Vec<D> = it.take_slice(0, 4).collect(); let b: Vec<D> = it.take_slice(0, 4).collect();", "let a = it.next();"),
    "counter-field": ("let a = it.next(); it.counter = AtomicCounter::new(); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "reserved-field": ("let a = it.next(); it.reserved_counter = AtomicCounter::new(); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "counter-mut": ("let a = it.next(); *it.counter_mut() = AtomicCounter::new(); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "counter-replace": ("let a = it.next(); *it.counter() = AtomicCounter::new(); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "counter-reset": ("let a = it.next(); it.counter().reset(); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "counter-set": ("let a = it.next(); it.counter().set(0); let b = it.next();", "let a = it.next(); let b = it.next();"),
    "reset": ("let a = it.next(); it.reset(); let b = it.next();", "let a = it.next(); let b = it.next();"),
}


def owner_programs():
    out = []
    for s, expr in OWNER_SRC.items():
        for k, (bad, good) in OWNER_CALLS.items():
            body = "let mut it = %s; %s"
            twin = f"owners/{s}/{k}/twin"
            out.append(P(twin, "must_pass", body % (expr, good), twin, run=False))
            out.append(P(f"owners/{s}/{k}", "must_fail", body % (expr, bad), twin, run=True))
    return out


# ------------------------------------------------------------------ compiling


def base():
    e = B.env()
    tgt = os.path.join(B.BUILD, "plain")
    B.run(["cargo", "build", "--offline", "--target-dir", tgt], os.path.join(B.VERIF, "probebase"), dict(e, RUSTFLAGS="-A warnings"), "building the crate")
    dbg = os.path.join(tgt, "debug")
    deps = os.path.join(dbg, "deps")
    cand = [f for f in os.listdir(deps) if f.startswith("liborx_concurrent_iter-") and f.endswith(".rlib")]
    # exactly the one this build depends on
    out = subprocess.run(["cargo", "build", "--offline", "--target-dir", tgt, "--message-format=json"],
                         cwd=os.path.join(B.VERIF, "probebase"), env=dict(e, RUSTFLAGS="-A warnings"), stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True).stdout
    lib = None
    for line in out.splitlines():
        d = json.loads(line)
        if d.get("reason") == "compiler-artifact" and d["target"]["name"].replace("-", "_") == "orx_concurrent_iter":
            lib = next(f for f in d["filenames"] if f.endswith(".rlib"))
    if lib is None:
        raise B.BuildError(f"no library found among {cand}")
    return lib, deps


def rustc(src, lib, deps, out, kind):
    cmd = ["rustc", "--edition", "2021", "--crate-type", kind, "--error-format=json", "-A", "warnings", src, "-o", out,
           "--extern", f"orx_concurrent_iter={lib}", "-L", f"dependency={deps}"]
    cmd += ["--emit=metadata"] if kind == "lib" else ["-Cdebuginfo=0"]
    p = subprocess.run(cmd, env=B.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for line in p.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") in ("error", "error: internal compiler error"):
            errs.append(d)
    return p.returncode, errs


def batch(progs, lib, deps, scratch, name, prelude):
    """compiles many programs at once; a program is rejected if an error lies in its function"""
    src = os.path.join(scratch, f"{name}.rs")
    text = prelude
    lines = {}
    for i, p in enumerate(progs):
        lines[text.count("\n") + 1] = i
        text += p.text(i)
    open(src, "w").write(text)
    rc, errs = rustc(src, lib, deps, os.path.join(scratch, f"{name}.rmeta"), "lib")
    rej = {}
    for d in errs:
        for sp in d.get("spans", []):
            if sp["is_primary"] and sp["file_name"] == src and sp["line_start"] in lines:
                rej.setdefault(lines[sp["line_start"]], (d.get("code") or {}).get("code") or d["message"][:60])
    return rej


def single(p, lib, deps, scratch, prelude, kind="lib"):
    src = os.path.join(scratch, f"one-{abs(hash(p.pid))}.rs")
    main = "" if kind == "lib" else """
fn main() {
    let h = std::panic::catch_unwind(|| { p0(); });
    let n = NEXT.load(Ordering::SeqCst).min(512);
    let twice: Vec<usize> = (0..n).filter(|i| DROPS[*i].load(Ordering::SeqCst) > 1).collect();
    if !twice.is_empty() { println!("elements {twice:?} had two owners"); std::process::exit(7); }
}
"""
    open(src, "w").write(prelude + p.text(0) + main)
    out = src + (".rmeta" if kind == "lib" else ".bin")
    rc, errs = rustc(src, lib, deps, out, kind)
    return rc, errs, out, prelude + p.text(0) + main


def program(pid):
    for ps, pre in spaces():
        for p in ps:
            if p.pid == pid:
                return p, pre
    return None


def spaces():
    return [(thread_programs(), PRELUDE), (lifetime_programs(), PRELUDE), (owner_programs(), OWNER_PRE)]


def judge(p, lib, deps, scratch, prelude):
    """the verdict on a must_fail program that the batch accepted, compiled alone: message or None"""
    if p.run is not None:
        rc, errs, out, text = single(p, lib, deps, scratch, prelude, "bin")
        if rc != 0:
            return None, text
        try:
            r = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return None, text
        if r.returncode == 7:
            return f"safe code compiles and gives one element two owners: {r.stdout.strip()}", text
        if r.returncode < 0:
            return f"safe code compiles and is killed by signal {-r.returncode}", text
        return None, text
    rc, errs, out, text = single(p, lib, deps, scratch, prelude)
    if rc != 0:
        return None, text
    what = {
        "threads": "safe code that moves or shares a value that is not thread-safe compiles",
        "lifetimes": "safe code that keeps a reference or chunk alive longer than its source compiles",
        "buffer": "safe code that keeps a buffered chunk alive past the next pull on, or the end of, its buffer compiles",
        "borrowed": "safe code that keeps an element alive longer than what it borrows compiles",
    }[p.pid.split("/")[0]]
    return what, text


def run(tier):
    import driver
    lib, deps = base()
    scratch = tempfile.mkdtemp(prefix="orxprobe")
    viols, n = [], {"must_fail": 0, "must_pass": 0, "any": 0}
    codes, inconclusive, accepted_any, rejected = {}, [], 0, 0
    samples = []
    try:
        jobs = []
        for si, (progs, pre) in enumerate(spaces()):
            for k in range(0, len(progs), 150):
                jobs.append((progs[k:k + 150], pre, f"b{si}_{k}"))
        with ThreadPoolExecutor(driver.NPROC) as ex:
            res = list(ex.map(lambda j: batch(j[0], lib, deps, scratch, j[2], j[1]), jobs))
        verdict, todo = {}, []
        for (progs, pre, _), rej in zip(jobs, res):
            for i, p in enumerate(progs):
                verdict[p.pid] = rej.get(i)
        # a twin that the batch rejects is compiled alone before it counts as rejected
        for (progs, pre, _), rej in zip(jobs, res):
            for p in progs:
                n[p.want] += 1
                v = verdict[p.pid]
                if p.want == "must_fail" and v is None:
                    todo.append((p, pre))
                elif p.want == "must_fail":
                    rejected += 1
                    codes[v] = codes.get(v, 0) + 1
                    if verdict.get(p.twin) is not None:
                        inconclusive.append(p.pid)
                elif p.want == "any" and v is None:
                    accepted_any += 1
        with ThreadPoolExecutor(driver.NPROC) as ex:
            out = list(ex.map(lambda x: judge(x[0], lib, deps, scratch, x[1]), todo))
        harmless = 0
        for (p, pre), (msg, text) in zip(todo, out):
            if msg is None:
                harmless += 1
            else:
                viols.append(driver.Viol("rustc", p.pid, msg, "", "C14", {"custom": True, "probe": True, "trace": [p.text(0)]}))
        for progs, _pre in [(j[0], j[1]) for j in jobs][::7]:
            p = progs[len(progs) // 2]
            samples.append({"program": p.pid, "oracle": p.want, "compiler": verdict[p.pid] or "accepted", "text": p.text(0).strip()})
        twins_bad = sorted({p for p in verdict if verdict[p] is not None} & {q.pid for j in jobs for q in j[0] if q.want == "must_pass"})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    total = sum(n.values())
    if len(twins_bad) * 3 > n["must_pass"]:
        raise driver.Engine_Error(f"{len(twins_bad)} of {n['must_pass']} legal programs do not compile, e.g. {twins_bad[:3]}")
    cov = dict(
        programs_enumerated=total,
        programs_that_must_not_compile=n["must_fail"],
        legal_twins=n["must_pass"],
        programs_not_judged=n["any"],
        rejected_by_compiler=rejected,
        rejection_codes=codes,
        accepted_but_harmless_when_run=harmless,
        twins_that_do_not_compile=twins_bad,
        inconclusive_programs=len(inconclusive),
        program_samples=samples[:6],
    )
    return viols, cov


def replay(pid):
    lib, deps = base()
    p, pre = program(pid)
    scratch = tempfile.mkdtemp(prefix="orxprobe")
    try:
        msg, text = judge(p, lib, deps, scratch, pre)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(text)
    print(msg or "rejected by the compiler, or harmless when run")
    return 1 if msg else 0
