//! Circular buffer scenarios (C01-C05, C17): clients share buffers; each operation runs the real
//! buffer and a bounded-deque model.

use crate::core::*;
use crate::elem::*;
use crate::iters::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::circular_buffer::CircularBuffer;
use std::cmp::Ordering;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::iter::FromIterator;

pub const NAMES: [&str; 41] = [
    "push_back", "push_front", "pop_back", "pop_front", "clear", "resize", "new", "extend", "extend_ref", "append", "drain",
    "into_iter", "clone", "from_vec", "from_iter", "from_iter_ref", "linearize", "swap", "reverse", "index", "index_mut",
    "first_last", "first_last_mut", "iter_mut", "slices_mut", "eq", "eq_slice", "cmp", "read_iter", "read_ends", "read_slices",
    "read_state", "debug", "into_for", "into_for_mut", "assign_index", "huge", "partial_cmp", "clone_from", "linearize_mut", "twin",
];
const PUSH_BACK: u8 = 0;
const PUSH_FRONT: u8 = 1;
const POP_BACK: u8 = 2;
const POP_FRONT: u8 = 3;
const CLEAR: u8 = 4;
const RESIZE: u8 = 5;
const NEW: u8 = 6;
const EXTEND: u8 = 7;
const EXTEND_REF: u8 = 8;
const APPEND: u8 = 9;
const DRAIN: u8 = 10;
const INTO_ITER: u8 = 11;
const CLONE_OP: u8 = 12;
const FROM_VEC: u8 = 13;
const FROM_ITER: u8 = 14;
const FROM_ITER_REF: u8 = 15;
const LINEARIZE: u8 = 16;
const SWAP: u8 = 17;
const REVERSE: u8 = 18;
const INDEX: u8 = 19;
const INDEX_MUT: u8 = 20;
const FIRST_LAST: u8 = 21;
const FIRST_LAST_MUT: u8 = 22;
const ITER_MUT: u8 = 23;
const SLICES_MUT: u8 = 24;
const EQ: u8 = 25;
const EQ_SLICE: u8 = 26;
const CMP_OP: u8 = 27;
const READ_ITER: u8 = 28;
const READ_ENDS: u8 = 29;
const READ_SLICES: u8 = 30;
const READ_STATE: u8 = 31;
const DEBUG: u8 = 32;
const INTO_FOR: u8 = 33;
const INTO_FOR_MUT: u8 = 34;
const ASSIGN_INDEX: u8 = 35;
const HUGE: u8 = 36;
const PARTIAL_CMP: u8 = 37;
const CLONE_FROM: u8 = 38;
const LINEARIZE_MUT: u8 = 39;
const TWIN: u8 = 40;

struct Obj<E> {
    cb: Option<CircularBuffer<E>>,
    model: Vec<M>,
    cap: usize,
    /// violation classes this object's history qualifies for
    bits: u32,
}
struct World<E> {
    objs: Vec<UnsafeCell<Obj<E>>>,
    lenient: bool,
    prop: String,
    views: Cell<u64>,
}

fn push_back(v: &mut Vec<M>, cap: usize, x: M) {
    if cap == 0 {
        return;
    }
    if v.len() == cap {
        v.remove(0);
    }
    v.push(x);
}
fn push_all(v: &mut Vec<M>, cap: usize, items: impl Iterator<Item = M>) {
    v.extend(items);
    let n = v.len().saturating_sub(cap);
    v.drain(..n);
}
fn push_front(v: &mut Vec<M>, cap: usize, x: M) {
    if cap == 0 {
        return;
    }
    if v.len() == cap {
        v.pop();
    }
    v.insert(0, x);
}
fn seq_eq(a: &[u32], b: &[u32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_value(*x, *y))
}
fn seq_order(a: &[u32], b: &[u32]) -> Option<Ordering> {
    for (x, y) in a.iter().zip(b) {
        match value_order(*x, *y) {
            Some(Ordering::Equal) => {}
            r => return r,
        }
    }
    a.len().partial_cmp(&b.len())
}
fn same(a: &[M], b: &[M]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}
fn subseq(small: &[M], big: &[M]) -> bool {
    let mut it = big.iter();
    small.iter().all(|x| it.any(|y| x.same(y)))
}

fn read<E: Elem>(cb: &CircularBuffer<E>, view: u64) -> Vec<M> {
    let g = |e: &E| {
        e.check("reading an element");
        m(e)
    };
    let n = cb.len();
    match view % 7 {
        0 => cb.iter().map(g).collect(),
        1 => (0..n).map(|i| g(&cb[i])).collect(),
        2 => {
            let (a, b) = cb.slices();
            a.iter().chain(b.iter()).map(g).collect()
        }
        3 => {
            let mut v: Vec<M> = cb.iter().rev().map(g).collect();
            v.reverse();
            v
        }
        4 => {
            let v: Vec<M> = cb.into_iter().map(g).collect();
            let f = cb.first().map(g);
            let l = cb.last().map(g);
            if f != v.first().copied() || l != v.last().copied() {
                violation(CONTENT, &format!("first/last {:?}/{:?} disagree with iteration {}", f, l, show(&v)));
            }
            v
        }
        5 => {
            // from both ends alternately
            let mut it = cb.iter();
            let (mut f, mut b) = (Vec::new(), Vec::new());
            loop {
                match it.next() {
                    Some(e) => f.push(g(e)),
                    None => break,
                }
                match it.next_back() {
                    Some(e) => b.push(g(e)),
                    None => break,
                }
            }
            b.reverse();
            f.extend(b);
            f
        }
        _ => (0..n).map(|i| g(cb.iter().nth(i).unwrap_or(&cb[i]))).collect(),
    }
}

/// Compares everything observable with the model (or, in lenient mode, adopts it).
fn look<E: Elem>(w: &World<E>, o: &mut Obj<E>, bits: u32, what: &str) {
    if aborted() {
        return;
    }
    let bits = bits | o.bits | CONTENT;
    let Some(cb) = o.cb.as_ref() else { return };
    let v = w.views.get();
    w.views.set(v + 1);
    let view = if w.lenient { 0 } else { v };
    let Some(obs) = observe(bits, what, || read(cb, view)) else { return };
    if aborted() {
        return;
    }
    let st = (cb.len(), cb.is_empty(), cb.is_full(), cb.capacity());
    if w.lenient {
        o.model = obs;
        o.cap = st.3;
    } else {
        if !same(&obs, &o.model) {
            violation(bits, &format!("{}: buffer holds {} (view {}), expected {}", what, show(&obs), view % 7, show(&o.model)));
            return;
        }
        let e = (o.model.len(), o.model.is_empty(), o.model.len() == o.cap, o.cap);
        if st != e {
            violation(bits, &format!("{}: (len, is_empty, is_full, capacity) = {:?}, expected {:?}", what, st, e));
            return;
        }
        o.model = obs;
    }
    for x in &o.model {
        trace(mix(((x.uid as u64) << 32) ^ x.val as u64));
    }
}

/// After an interrupted operation: the observed state must satisfy `legal`, then becomes the model.
fn settle<E: Elem>(w: &World<E>, o: &mut Obj<E>, bits: u32, what: &str, legal: impl Fn(&[M], usize) -> Result<(), String>) {
    if aborted() {
        return;
    }
    o.bits |= bits & (PARTIAL | MEM);
    let Some(cb) = o.cb.as_ref() else { return };
    let Some(obs) = observe(bits, what, || read(cb, 0)) else { return };
    if aborted() {
        return;
    }
    let cap = cb.capacity();
    if !w.lenient {
        let mut u: Vec<u32> = obs.iter().map(|x| x.uid).filter(|u| *u != NOUID).collect();
        u.sort();
        if u.windows(2).any(|p| p[0] == p[1]) {
            violation(bits, &format!("{}: an element is stored twice: {}", what, show(&obs)));
            return;
        }
        if obs.len() > cap {
            violation(bits, &format!("{}: {} elements in a buffer of capacity {}", what, obs.len(), cap));
            return;
        }
        if let Err(e) = legal(&obs, cap) {
            violation(bits, &format!("{}: {}; before {}, now {}", what, e, show(&o.model), show(&obs)));
            return;
        }
    }
    o.model = obs;
    o.cap = cap;
    look(w, o, bits, what);
}

fn feed_ok(orig: &[M], cap: usize, items: &[M], obs: &[M]) -> bool {
    let mut s = orig.to_vec();
    for (j, x) in items.iter().enumerate() {
        // the item in flight may be lost, before or after its victim left
        if j + 1 == items.len() && (same(&s, obs) || cap > 0 && s.len() == cap && same(&s[1..], obs)) {
            return true;
        }
        push_back(&mut s, cap, *x);
    }
    same(&s, obs)
}

fn vals(op: &Op, n: usize) -> Vec<u32> {
    (0..n).map(|i| (mix(op.b as u64 ^ (i as u64) << 20) % 6) as u32).collect()
}
fn values(ms: &[M]) -> Vec<M> {
    ms.iter().map(|x| M { uid: NOUID, val: x.val }).collect()
}

/// Drives an iterator through a cancellation mode. Returns false if it was leaked.
/// `out` survives a panic.
fn abandon<E: Elem, I: Iterator<Item = E>>(op: &Op, mut it: I, len: usize, out: &RefCell<Vec<E>>, bits: u32, stepping: &Cell<bool>) -> bool {
    stepping.set(op.a % 16 <= 5 || op.a % 16 == 9);
    let k = op.b as usize;
    let keep = |e: E| {
        as_harness(|| {
            e.check("receiving an element");
            out.borrow_mut().push(e)
        })
    };
    let hint = |it: &I, left: usize| {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            as_harness(|| violation(bits, &format!("size hint ({}, {:?}) but {} items are left", lo, hi, left)));
        }
    };
    match op.a % 16 {
        mode @ (0 | 1 | 2) => {
            for i in 0..k {
                hint(&it, len - i.min(len));
                match it.next() {
                    Some(e) => keep(e),
                    None => break,
                }
                sched::preempt_point();
            }
            hint(&it, len - k.min(len));
            if mode == 1 {
                hit(probe::LEAKED);
                std::mem::forget(it);
                return false;
            }
            if mode == 2 {
                hit(probe::CRASHED);
                inject(Fk::Body);
            }
        }
        3 => {
            for e in it.by_ref().take(k) {
                keep(e);
                sched::preempt_point();
            }
        }
        4 => {
            let mut i = 0;
            while let Some(e) = it.next() {
                keep(e);
                i += 1;
                hint(&it, len - i.min(len));
            }
            for _ in 0..3 {
                if let Some(e) = it.next() {
                    keep(e);
                }
                hint(&it, 0);
            }
        }
        5 => {
            if let Some(e) = it.nth(k) {
                keep(e)
            }
            sched::preempt_point();
            if let Some(e) = it.next() {
                keep(e)
            }
        }
        6 => it.skip(k).take(2).for_each(keep),
        7 => it.step_by(k + 1).take(3).for_each(keep),
        8 => {
            let mut p = it.peekable();
            for _ in 0..k {
                match p.next() {
                    Some(e) => keep(e),
                    None => break,
                }
            }
            if let Some(e) = p.peek() {
                e.check("peeking an element");
            }
        }
        9 => {
            for _ in 0..k {
                match it.next() {
                    Some(e) => keep(e),
                    None => break,
                }
            }
            it.by_ref().for_each(keep);
        }
        10 => {
            let n = it.count();
            if n != len {
                as_harness(|| violation(bits, &format!("count() = {}, expected {}", n, len)));
            }
        }
        11 => {
            if let Some(e) = it.last() {
                keep(e)
            }
        }
        12 => {
            // the consumer crashes at one of the elements
            let mut i = 0;
            it.for_each(|e| {
                keep(e);
                i += 1;
                if i == k + 1 {
                    hit(probe::CRASHED);
                    inject(Fk::Body);
                }
            });
        }
        13 => {
            let mut i = 0;
            let _ = it.try_for_each(|e| {
                keep(e);
                i += 1;
                if i == k + 1 { Err(()) } else { Ok(()) }
            });
            sched::preempt_point();
        }
        14 => {
            let mut i = 0;
            it.position(|e| {
                keep(e);
                i += 1;
                i == k + 1
            });
        }
        _ => {
            let n = it.take(k).fold(0, |n, e| {
                keep(e);
                sched::preempt_point();
                n + 1
            });
            if n != k.min(len) {
                as_harness(|| violation(bits, &format!("folding over {} of {} elements gave {}", k, len, n)));
            }
        }
    }
    stepping.set(false);
    true
}
/// (indices handed out, number consumed)
fn expected(op: &Op, len: usize) -> (Vec<usize>, usize) {
    let k = op.b as usize;
    let all: Vec<usize> = (0..len).collect();
    let pick = |v: &[usize]| v.iter().copied().filter(|i| *i < len).collect::<Vec<_>>();
    match op.a % 16 {
        0..=3 => (all[..k.min(len)].to_vec(), k.min(len)),
        4 | 9 => (all, len),
        5 | 6 => (pick(&[k, k + 1]), (k + 2).min(len)),
        7 => (pick(&[0, k + 1, 2 * (k + 1)]), (2 * (k + 1) + 1).min(len)),
        8 => (all[..k.min(len)].to_vec(), (k + 1).min(len)),
        10 => (vec![], len),
        12..=14 => (all[..(k + 1).min(len)].to_vec(), (k + 1).min(len)),
        15 => (all[..k.min(len)].to_vec(), k.min(len)),
        _ => (if len > 0 { vec![len - 1] } else { vec![] }, len),
    }
}

fn destroy<E: Elem>(w: &World<E>, o: &mut Obj<E>, op: &Op) {
    if let Some(cb) = o.cb.take() {
        let inside = o.model.clone();
        match sut(op, || drop(cb)) {
            Out::Ok(()) => {}
            Out::Fault(_) => {
                for x in &inside {
                    if x.uid == NOUID || run().reg[x.uid as usize].live {
                        allow_leak(x.uid);
                    }
                }
            }
            Out::Lib(e) => violation(CONTENT | LIFE | PARTIAL | o.bits, &format!("destroying a buffer panicked: {}", e)),
        }
    }
    let _ = w;
    o.model.clear();
}

/// Puts a freshly built buffer in place of the old one.
fn install<E: Elem>(w: &World<E>, o: &mut Obj<E>, cb: CircularBuffer<E>, model: Vec<M>, cap: usize, bits: u32, what: &str) {
    destroy(w, o, &Op::new(0));
    o.cb = Some(cb);
    o.model = model;
    o.cap = cap;
    o.bits = bits & CLONE;
    look(w, o, bits, what);
}

fn exec<E: Elem>(w: &World<E>, op: &Op) {
    let n = w.objs.len();
    let oi = op.o as usize % n;
    let two = matches!(op.code, APPEND | CLONE_OP | EQ | CMP_OP | PARTIAL_CMP | CLONE_FROM);
    let oj = if two { op.o2 as usize % n } else { oi };
    if two && oi == oj && matches!(op.code, APPEND | CLONE_OP | CLONE_FROM) {
        return;
    }
    let wr = !matches!(
        op.code,
        INDEX | FIRST_LAST | EQ | EQ_SLICE | CMP_OP | READ_ITER | READ_ENDS | READ_SLICES | READ_STATE | DEBUG | INTO_FOR | PARTIAL_CMP | CLONE_OP | CLONE_FROM | TWIN
    );
    let mut want = vec![(oi, wr)];
    if two {
        want.push((oj, matches!(op.code, APPEND | CLONE_OP | CLONE_FROM)));
    }
    let _held = sched::acquire(&want);
    if aborted() {
        return;
    }
    let o = unsafe { &mut *w.objs[oi].get() };
    let name = NAMES[op.code as usize % NAMES.len()];
    if o.cb.is_none() && !matches!(op.code, NEW | FROM_VEC | FROM_ITER | FROM_ITER_REF | HUGE) {
        return;
    }
    let before = o.model.clone();
    let cap = o.cap;
    let alloc_armed = matches!(op.fk, Fk::Alloc | Fk::AllocAll);
    // classes a deviation of this very operation belongs to
    let mut bits = CONTENT | o.bits;
    if alloc_armed {
        bits |= MEM;
    }
    let fbits = |k: Fk| if k == Fk::Alloc { MEM | PARTIAL } else { PARTIAL };
    let lib = |e: String, bits: u32| violation(bits, &format!("{} panicked: {}", name, e));
    if !before.is_empty() && o.cb.as_ref().map_or(false, |c| !c.slices().1.is_empty()) {
        hit(probe::WRAP);
    }
    if cap == 0 {
        hit(probe::CAP0);
    }
    match op.code {
        PUSH_BACK | PUSH_FRONT => {
            let back = op.code == PUSH_BACK;
            let e = E::make(op.a % 6);
            let x = m(&e);
            if before.len() == cap && cap > 0 {
                hit(probe::FULL);
            }
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || if back { cb.push_back(e) } else { cb.push_front(e) }) {
                Out::Ok(()) => {
                    if back {
                        push_back(&mut o.model, cap, x)
                    } else {
                        push_front(&mut o.model, cap, x)
                    }
                    look(w, o, bits, name);
                }
                Out::Fault(k) => {
                    hit(probe::RINT);
                    let (allowed, req) = if back {
                        let mut a = before.clone();
                        a.push(x);
                        (a, before[(before.len() == cap) as usize & (cap > 0) as usize..].to_vec())
                    } else {
                        let mut a = vec![x];
                        a.extend(&before);
                        let cut = if before.len() == cap && cap > 0 { before.len() - 1 } else { before.len() };
                        (a, before[..cut].to_vec())
                    };
                    settle(w, o, fbits(k), name, |obs, c| {
                        if c != cap {
                            return Err("capacity changed".into());
                        }
                        if subseq(obs, &allowed) && subseq(&req, obs) {
                            Ok(())
                        } else {
                            Err("interrupted push lost or reordered elements".into())
                        }
                    });
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        POP_BACK | POP_FRONT => {
            let back = op.code == POP_BACK;
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || if back { cb.pop_back() } else { cb.pop_front() }) {
                Out::Ok(r) => {
                    let x = if o.model.is_empty() {
                        None
                    } else if back {
                        o.model.pop()
                    } else {
                        Some(o.model.remove(0))
                    };
                    let got = r.as_ref().map(|e| {
                        e.check("returning an element");
                        m(e)
                    });
                    if !w.lenient && !(got.is_none() && x.is_none() || got.is_some() && x.is_some() && got.unwrap().same(&x.unwrap())) {
                        violation(bits, &format!("{} returned {:?}, expected {:?}", name, got, x));
                    }
                    look(w, o, bits, name);
                    drop(r);
                }
                Out::Fault(k) => settle(w, o, fbits(k), name, |obs, _| if subseq(obs, &before) { Ok(()) } else { Err("contents changed".into()) }),
                Out::Lib(e) => lib(e, bits),
            }
        }
        CLEAR => {
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || cb.clear()) {
                Out::Ok(()) => {
                    o.model.clear();
                    look(w, o, bits, name);
                }
                Out::Fault(k) => {
                    hit(probe::RINT);
                    settle(w, o, fbits(k), name, |obs, c| {
                        if c == cap && subseq(obs, &before) { Ok(()) } else { Err("interrupted clear reordered elements or changed the capacity".into()) }
                    })
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        RESIZE => {
            let c2 = op.a as usize;
            let cb = o.cb.as_mut().unwrap();
            let cut = before.len().saturating_sub(c2);
            if cut > 0 {
                hit(probe::SHRINK);
            }
            match sut(op, || cb.resize(c2)) {
                Out::Ok(()) => {
                    o.model.drain(..cut);
                    o.cap = c2;
                    look(w, o, bits, name);
                }
                Out::Fault(Fk::Alloc) => refused(w, o, name),
                Out::Fault(k) => {
                    hit(probe::RINT);
                    let keep = before[cut..].to_vec();
                    settle(w, o, fbits(k), name, |obs, c| {
                        if c != cap && c != c2 {
                            return Err(format!("capacity {} is neither the old nor the new one", c));
                        }
                        let missing = keep.iter().filter(|x| !obs.iter().any(|y| x.same(y))).count();
                        let vals_only = E::ZST || !E::TRACKED;
                        if subseq(obs, &before) && (missing <= 1 || vals_only) {
                            Ok(())
                        } else {
                            Err("interrupted resize lost or reordered elements it had to keep".into())
                        }
                    })
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        NEW => {
            let c = op.a as usize;
            destroy(w, o, op);
            if aborted() {
                return;
            }
            let mut op2 = *op;
            if !matches!(op.fk, Fk::Alloc | Fk::AllocAll) {
                op2.fk = Fk::None;
            }
            match sut(&op2, || if op.b % 2 == 0 { CircularBuffer::new(c) } else { CircularBuffer::with_capacity(c) }) {
                Out::Ok(cb) => install(w, o, cb, vec![], c, bits, name),
                Out::Fault(_) => {
                    hit(probe::REFUSED);
                    if let Out::Ok(cb) = plain(|| CircularBuffer::new(1)) {
                        install(w, o, cb, vec![], 1, CONTENT, name)
                    }
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        EXTEND => {
            let v = vals(op, op.a as usize);
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            let cb = o.cb.as_mut().unwrap();
            let r = sut(op, || cb.extend(Src::<E>::new(&v, op.b, &log)));
            let items = log.into_inner();
            feed(w, o, op, r, &items, v.len(), bits, name);
        }
        EXTEND_REF => {
            let v = vals(op, op.a as usize);
            let src: Vec<E> = v.iter().map(|x| E::make(*x)).collect();
            let cnt = Cell::new(0);
            let cb = o.cb.as_mut().unwrap();
            let r = sut(op, || cb.extend(RefSrc::new(&src, op.b, &cnt)));
            let items: Vec<M> = values(&src[..cnt.get()].iter().map(m).collect::<Vec<_>>());
            feed(w, o, op, r, &items, v.len(), bits, name);
            for e in &src {
                e.check("after feeding by reference");
            }
        }
        APPEND => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let Some(cb2) = p.cb.as_mut() else { return };
            let b2 = p.model.clone();
            let pcap = p.cap;
            let bits = bits | p.bits;
            if before.len() + b2.len() > cap {
                hit(probe::APPOVF);
            }
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || cb.append(cb2)) {
                Out::Ok(()) => {
                    push_all(&mut o.model, cap, p.model.drain(..));
                    look(w, o, bits, name);
                    look(w, p, bits, name);
                }
                Out::Fault(k) => {
                    hit(probe::RINT);
                    let mut left = Vec::new();
                    settle(w, p, fbits(k), name, |obs, c| {
                        if c == pcap && obs.len() <= b2.len() && same(obs, &b2[b2.len() - obs.len()..]) {
                            Ok(())
                        } else {
                            Err("interrupted append left something else than the rest in the source".into())
                        }
                    });
                    left.extend(p.model.iter().copied());
                    let moved = &b2[..b2.len() - left.len().min(b2.len())];
                    settle(w, o, fbits(k), name, |obs, c| {
                        if c != cap {
                            return Err("capacity changed".into());
                        }
                        // all moved, or the last one lost in flight (with or without its victim)
                        let mut s = before.clone();
                        for x in moved {
                            push_back(&mut s, cap, *x);
                        }
                        if same(&s, obs) {
                            return Ok(());
                        }
                        if let Some((_, init)) = moved.split_last() {
                            let mut s = before.clone();
                            for x in init {
                                push_back(&mut s, cap, *x);
                            }
                            if same(&s, obs) || s.len() == cap && cap > 0 && same(&s[1..], obs) {
                                return Ok(());
                            }
                        }
                        Err(format!("interrupted append lost elements (source now {})", show(&left)))
                    });
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        DRAIN => {
            let out = RefCell::new(Vec::with_capacity(before.len() + 4));
            let ab = bits | ABANDON;
            let stepping = Cell::new(false);
            let cb = o.cb.as_mut().unwrap();
            let r = sut(op, || abandon(op, cb.drain(), before.len(), &out, ab, &stepping));
            let got: Vec<M> = out.borrow().iter().map(m).collect();
            let (idx, used) = expected(op, before.len());
            let exp: Vec<M> = idx.iter().map(|i| before[*i]).collect();
            match r {
                Out::Ok(_) | Out::Fault(Fk::Body) => {
                    if used < before.len() {
                        hit(probe::ABANDON);
                        o.bits |= ABANDON;
                    }
                    if !w.lenient && !same(&got, &exp) {
                        violation(ab, &format!("drain handed out {}, expected {}", show(&got), show(&exp)));
                    }
                    o.model.drain(..used);
                    look(w, o, ab, name);
                }
                Out::Fault(k) => {
                    hit(probe::RINT);
                    settle(w, o, fbits(k), name, |obs, c| {
                        let gone = before.len() - obs.len().min(before.len());
                        if c == cap && gone <= used && same(obs, &before[gone..]) && exp.len() >= got.len() && same(&got, &exp[..got.len()]) {
                            Ok(())
                        } else {
                            Err(format!("interrupted drain (handed out {}) did not keep the rest", show(&got)))
                        }
                    })
                }
                Out::Lib(e) => lib(e, ab),
            }
            drop(out);
        }
        INTO_ITER => {
            let out = RefCell::new(Vec::with_capacity(before.len() + 4));
            let ab = bits | ABANDON;
            let stepping = Cell::new(false);
            let cb = o.cb.take().unwrap();
            o.model.clear();
            let r = sut(op, || abandon(op, cb.into_iter(), before.len(), &out, ab, &stepping));
            let got: Vec<M> = out.borrow().iter().map(m).collect();
            let (idx, used) = expected(op, before.len());
            let exp: Vec<M> = idx.iter().map(|i| before[*i]).collect();
            match r {
                Out::Ok(kept) => {
                    if used < before.len() {
                        hit(probe::ABANDON);
                    }
                    if !w.lenient && !same(&got, &exp) {
                        violation(ab, &format!("consuming iterator handed out {}, expected {}", show(&got), show(&exp)));
                    }
                    if !kept {
                        for x in &before[used..] {
                            allow_leak(x.uid);
                        }
                    } else {
                        rest_dead(&before[used..], ab);
                    }
                }
                Out::Fault(Fk::Body) => {
                    if !w.lenient && !same(&got, &exp) {
                        violation(ab, &format!("consuming iterator handed out {}, expected {}", show(&got), show(&exp)));
                    }
                    rest_dead(&before[used..], ab);
                }
                Out::Fault(k) => {
                    // unless a step failed, the rest was inside a buffer whose destruction was interrupted
                    if !w.lenient && (got.len() > exp.len() || !same(&got, &exp[..got.len()])) {
                        violation(fbits(k), "interrupted consuming iterator handed out wrong elements");
                    }
                    for x in before.iter().filter(|_| !stepping.get()) {
                        if x.uid == NOUID {
                            allow_leak(NOUID)
                        } else if run().reg[x.uid as usize].live && !got.iter().any(|g| g.uid == x.uid) {
                            allow_leak(x.uid)
                        }
                    }
                }
                Out::Lib(e) => lib(e, ab),
            }
            drop(out);
            if let Out::Ok(cb) = plain(|| CircularBuffer::new(cap)) {
                install(w, o, cb, vec![], cap, CONTENT, "new");
            }
        }
        CLONE_OP | CLONE_FROM => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let mark = run().reg.len();
            let cb = o.cb.as_ref().unwrap();
            let r = if op.code == CLONE_OP {
                sut(op, || Some(cb.clone()))
            } else {
                let Some(dst) = p.cb.as_mut() else { return };
                sut(op, || {
                    dst.clone_from(cb);
                    None
                })
            };
            let cb_bits = bits | CLONE | p.bits;
            match r {
                Out::Ok(c) => {
                    made_clones::<E>(mark, &before, cb_bits);
                    o.bits |= CLONE;
                    look(w, o, cb_bits, name);
                    match c {
                        Some(c) => install(w, p, c, values(&before), cap, cb_bits, name),
                        None => {
                            p.model = values(&before);
                            p.cap = cap;
                            p.bits |= CLONE;
                            look(w, p, cb_bits, name);
                        }
                    }
                    if E::TRACKED && !E::ZST && !w.lenient {
                        for (x, y) in before.iter().zip(&p.model) {
                            if run().reg[y.uid as usize].parent != x.uid {
                                violation(cb_bits, &format!("element #{} of a clone is not a clone of #{}", y.uid, x.uid));
                            }
                        }
                    }
                    if let (Some(a), Some(b)) = (o.cb.as_ref(), p.cb.as_ref()) {
                        if observe(cb_bits, "comparing a clone", || a != b) == Some(true) && !w.lenient && !run().nan {
                            violation(cb_bits, "a clone is not equal to the original");
                        }
                    }
                }
                Out::Fault(k) => {
                    hit(probe::CLONEINT);
                    let fb = if k == Fk::Alloc { MEM | CLONE | PARTIAL } else { PARTIAL | CLONE };
                    o.bits |= fb & (PARTIAL | CLONE);
                    look(w, o, fb, name);
                    if op.code == CLONE_OP && k != Fk::Drop {
                        for (i, e) in run().reg[mark..].iter().enumerate().filter(|(_, e)| e.parent != NOUID) {
                            if e.live && e.by == me() {
                                violation(fb | LEAK, &format!("element #{} of an interrupted clone was not released", mark + i));
                                break;
                            }
                        }
                    }
                    if op.code == CLONE_FROM {
                        let old = p.model.clone();
                        settle(w, p, fb, name, |obs, _| {
                            // some old and/or some new elements
                            let mut all = old.clone();
                            all.extend(values(&before));
                            if obs.iter().all(|x| all.iter().any(|y| x.same(y))) { Ok(()) } else { Err("foreign elements".into()) }
                        });
                    } else {
                        look(w, p, fb, name);
                    }
                }
                Out::Lib(e) => lib(e, cb_bits),
            }
        }
        FROM_VEC | FROM_ITER | FROM_ITER_REF => {
            let v = vals(op, op.a as usize);
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            let cnt = Cell::new(0);
            let src: Vec<E> = if op.code == FROM_ITER { vec![] } else { v.iter().map(|x| E::make(*x)).collect() };
            let mut exp: Vec<M> = src.iter().map(m).collect();
            if op.code == FROM_ITER_REF {
                exp = values(&exp);
            }
            let mut keep = None;
            let r = match op.code {
                FROM_VEC => {
                    // spare capacity of the vector varies; its memory becomes the buffer's
                    let mut src = src;
                    let g = crate::core::plain(|| {
                        let mut w: Vec<E> = Vec::with_capacity(v.len() + (op.b % 3) as usize);
                        w.append(&mut src);
                        w
                    });
                    let Out::Ok(g) = g else { return };
                    sut(op, || CircularBuffer::from(g))
                }
                FROM_ITER => sut(op, || CircularBuffer::from_iter(Src::<E>::new(&v, op.b, &log))),
                _ => {
                    let r = sut(op, || CircularBuffer::from_iter(RefSrc::new(&src, op.b, &cnt)));
                    keep = Some(src);
                    r
                }
            };
            if op.code == FROM_ITER {
                exp = log.into_inner();
            }
            match r {
                Out::Ok(cb) => {
                    if !w.lenient && exp.len() != v.len() {
                        violation(bits, &format!("{} took {} of {} items", name, exp.len(), v.len()));
                    }
                    install(w, o, cb, exp, v.len(), bits, name);
                }
                Out::Fault(k) => {
                    hit(if k == Fk::Alloc { probe::REFUSED } else { probe::RINT });
                    look(w, o, fbits(k), name);
                }
                Out::Lib(e) => lib(e, bits),
            }
            drop(keep);
        }
        LINEARIZE | LINEARIZE_MUT => {
            let cb = o.cb.as_mut().unwrap();
            if !cb.slices().1.is_empty() {
                hit(probe::ROTLIN);
            }
            let mut seen = Vec::with_capacity(before.len());
            let write = op.code == LINEARIZE_MUT;
            let r = sut(op, || {
                let s = cb.linearize();
                as_harness(|| {
                    for (i, e) in s.iter_mut().enumerate() {
                        e.check("linearized slice");
                        if write {
                            e.set_val((op.a + i as u32) % 6);
                        }
                        seen.push(m(e));
                    }
                });
            });
            match r {
                Out::Ok(()) => {
                    if write {
                        rewrite(&mut o.model, op.a, E::ZST);
                    }
                    if !w.lenient && !same(&seen, &o.model) {
                        violation(bits, &format!("linearize shows {}, expected {}", show(&seen), show(&o.model)));
                    }
                    let one = o.cb.as_ref().unwrap().slices().1.is_empty();
                    if !w.lenient && !one {
                        violation(bits, "the buffer is not contiguous after linearize");
                    }
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        SWAP => {
            let l = before.len();
            let (a, b) = (op.a as usize, op.b as usize);
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || cb.swap(a, b)) {
                Out::Ok(()) => {
                    if a >= l || b >= l {
                        violation(bits, &format!("swap({}, {}) of a buffer of length {} did not panic", a, b, l));
                        return;
                    }
                    o.model.swap(a, b);
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => {
                    if a < l && b < l {
                        lib(e, bits);
                    }
                    hit(probe::OOB);
                    look(w, o, bits, name);
                }
            }
        }
        REVERSE => {
            let cb = o.cb.as_mut().unwrap();
            match sut(op, || cb.reverse()) {
                Out::Ok(()) => {
                    o.model.reverse();
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        INDEX | INDEX_MUT | ASSIGN_INDEX => {
            let l = before.len();
            let a = op.a as usize;
            let cb = o.cb.as_mut().unwrap();
            let mut got = None;
            let mut nm = None;
            let r = match op.code {
                INDEX => sut(op, || {
                    let e = &cb[a];
                    as_harness(|| {
                        e.check("indexing");
                        got = Some(m(e))
                    })
                }),
                INDEX_MUT => sut(op, || {
                    let e = &mut cb[a];
                    as_harness(|| {
                        e.check("indexing");
                        got = Some(m(e));
                        e.set_val(op.b % 6);
                    })
                }),
                _ => {
                    let e = E::make(op.b % 6);
                    nm = Some(m(&e));
                    let mut op2 = *op;
                    op2.fk = Fk::None;
                    sut(&op2, || cb[a] = e)
                }
            };
            match r {
                Out::Ok(()) => {
                    if a >= l {
                        violation(bits, &format!("index {} of a buffer of length {} did not panic", a, l));
                        return;
                    }
                    if let Some(g) = got {
                        if !w.lenient && !g.same(&before[a]) {
                            violation(bits, &format!("index {} shows {:?}, expected {:?}", a, g, before[a]));
                        }
                    }
                    if op.code == INDEX_MUT && !E::ZST {
                        o.model[a].val = op.b % 6;
                    }
                    if let Some(x) = nm {
                        o.model[a] = x;
                    }
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => {
                    if a < l {
                        lib(e, bits);
                    }
                    hit(probe::OOB);
                    look(w, o, bits, name);
                }
            }
        }
        FIRST_LAST | FIRST_LAST_MUT => {
            let cb = o.cb.as_mut().unwrap();
            let mutate = op.code == FIRST_LAST_MUT;
            let r = sut(op, || {
                let f = |e: &E| {
                    as_harness(|| {
                        e.check("first/last");
                        m(e)
                    })
                };
                if mutate {
                    if op.b % 2 == 0 {
                        let a = cb.first_mut().map(|e| {
                            let r = f(e);
                            e.set_val(op.a % 6);
                            r
                        });
                        (a, None)
                    } else {
                        let a = cb.last_mut().map(|e| {
                            let r = f(e);
                            e.set_val(op.a % 6);
                            r
                        });
                        (None, a)
                    }
                } else {
                    (cb.first().map(f), cb.last().map(f))
                }
            });
            match r {
                Out::Ok((f, l)) => {
                    let (ef, el) = (before.first().copied(), before.last().copied());
                    let bad = |g: Option<M>, e: Option<M>| match (g, e) {
                        (Some(a), Some(b)) => !a.same(&b),
                        (None, None) => false,
                        _ => true,
                    };
                    let wrong = if mutate {
                        if op.b % 2 == 0 { bad(f, ef) } else { bad(l, el) }
                    } else {
                        bad(f, ef) || bad(l, el)
                    };
                    if wrong && !w.lenient {
                        violation(bits, &format!("{}: {:?} / {:?}, expected {:?} / {:?}", name, f, l, ef, el));
                    }
                    if mutate && !before.is_empty() && !E::ZST {
                        let i = if op.b % 2 == 0 { 0 } else { before.len() - 1 };
                        o.model[i].val = op.a % 6;
                    }
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        ITER_MUT | SLICES_MUT | INTO_FOR_MUT => {
            let cb = o.cb.as_mut().unwrap();
            let mut seen = Vec::with_capacity(before.len());
            let backwards = op.code == ITER_MUT && op.b % 3 == 0;
            let r = sut(op, || {
                let mut i = 0;
                let mut f = |e: &mut E| {
                    as_harness(|| {
                        e.check("mutable view");
                        seen.push(m(e));
                        e.set_val((op.a + i) % 6);
                    });
                    i += 1;
                    sched::preempt_point();
                };
                match op.code {
                    ITER_MUT if backwards => cb.iter_mut().rev().for_each(f),
                    ITER_MUT => cb.iter_mut().for_each(f),
                    SLICES_MUT => {
                        let (a, b) = cb.slices_mut();
                        a.iter_mut().for_each(&mut f);
                        b.iter_mut().for_each(&mut f);
                    }
                    _ => {
                        for e in cb {
                            f(e)
                        }
                    }
                }
            });
            match r {
                Out::Ok(()) => {
                    if backwards {
                        seen.reverse();
                    }
                    if !w.lenient && !same(&seen, &before) {
                        violation(bits, &format!("{} shows {}, expected {}", name, show(&seen), show(&before)));
                    }
                    if backwards {
                        o.model.reverse();
                    }
                    rewrite(&mut o.model, op.a, E::ZST);
                    if backwards {
                        o.model.reverse();
                    }
                    look(w, o, bits, name);
                }
                Out::Fault(k) => look(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        EQ | CMP_OP | PARTIAL_CMP => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let (Some(a), Some(b)) = (o.cb.as_ref(), p.cb.as_ref()) else { return };
            let va: Vec<u32> = before.iter().map(|x| x.val).collect();
            let vb: Vec<u32> = if oi == oj { va.clone() } else { p.model.iter().map(|x| x.val).collect() };
            let pc = seq_order(&va, &vb);
            let r = sut(op, || match op.code {
                EQ => (a == b, a != b, None),
                CMP_OP => (false, false, Some(a.cmp(b))),
                _ if op.b % 2 == 1 => (a < b, a >= b, a.partial_cmp(b)),
                _ => (a <= b, a > b, a.partial_cmp(b)),
            });
            let e = match op.code {
                EQ => (seq_eq(&va, &vb), !seq_eq(&va, &vb), None),
                CMP_OP => (false, false, Some(va.cmp(&vb))),
                _ if op.b % 2 == 1 => (pc == Some(Ordering::Less), matches!(pc, Some(Ordering::Greater | Ordering::Equal)), pc),
                _ => (matches!(pc, Some(Ordering::Less | Ordering::Equal)), pc == Some(Ordering::Greater), pc),
            };
            match r {
                Out::Ok(r) => {
                    if r != e && !w.lenient {
                        violation(bits, &format!("{} gives {:?}, expected {:?}", name, r, e));
                    }
                    look_shared(w, o, bits, name);
                }
                Out::Fault(k) => {
                    hit(probe::RINT);
                    look_shared(w, o, fbits(k), name);
                }
                Out::Lib(e) => lib(e, bits),
            }
            if oi != oj {
                look_shared(w, p, bits, name);
            }
        }
        TWIN => {
            // a buffer with (nearly) the same contents but another capacity and another inner layout
            let mut vt: Vec<u32> = before.iter().map(|x| x.val).collect();
            match op.a % 5 {
                1 if !vt.is_empty() => {
                    let i = op.b as usize % vt.len();
                    vt[i] = (vt[i] + 1) % 6;
                }
                2 => vt.push(1),
                3 => {
                    vt.pop();
                }
                _ => {}
            }
            let room = vt.len() + (op.a as usize / 5) % 5;
            let turns = if room == 0 { 0 } else { (op.b as usize / 7) % (room + 2) };
            let r = plain(|| {
                let mut t: CircularBuffer<E> = CircularBuffer::with_capacity(room);
                for i in 0..turns {
                    if op.a / 25 % 2 == 0 {
                        t.push_back(as_harness(|| E::make(5)));
                        t.pop_front();
                    } else {
                        t.push_front(as_harness(|| E::make(5)));
                        if i % 2 == 0 {
                            t.pop_back();
                        } else {
                            t.clear();
                        }
                    }
                }
                for v in &vt {
                    t.push_back(as_harness(|| E::make(*v)));
                }
                t
            });
            let t = match r {
                Out::Ok(t) => t,
                Out::Lib(e) => return lib(e, bits),
                Out::Fault(_) => return,
            };
            let va: Vec<u32> = before.iter().map(|x| x.val).collect();
            let vt: Vec<u32> = if E::ZST { vt.iter().map(|_| before.first().map_or(0, |x| x.val)).collect() } else { vt };
            let cb = o.cb.as_ref().unwrap();
            let r = plain(|| ([*cb == t, t == *cb, *cb != t, *cb <= t, *cb < t, *cb >= t, *cb > t], cb.cmp(&t), t.partial_cmp(cb)));
            match r {
                Out::Ok(r) => {
                    let q = seq_eq(&va, &vt);
                    let so = seq_order(&va, &vt);
                    let (lt, gt, eq) = (so == Some(Ordering::Less), so == Some(Ordering::Greater), so == Some(Ordering::Equal));
                    let e = ([q, q, !q, lt || eq, lt, gt || eq, gt], va.cmp(&vt), seq_order(&vt, &va));
                    if r != e && !w.lenient {
                        violation(bits, &format!("{} compared with {:?} gives {:?}, expected {:?}", show(&before), vt, r, e));
                    }
                }
                Out::Lib(e) => lib(e, bits),
                Out::Fault(_) => {}
            }
            drop(t);
            look_shared(w, o, bits, name);
        }
        EQ_SLICE => {
            let mut other: Vec<E> = before.iter().map(|x| E::make(x.val)).collect();
            match op.a % 4 {
                1 if !other.is_empty() => {
                    let i = op.b as usize % other.len();
                    let v = (before[i].val + 1) % 6;
                    other[i].set_val(v);
                }
                2 => other.push(E::make(1)),
                3 => {
                    other.pop();
                }
                _ => {}
            }
            let e = seq_eq(&other.iter().map(|x| x.val()).collect::<Vec<_>>(), &before.iter().map(|x| x.val).collect::<Vec<_>>());
            let cb = o.cb.as_ref().unwrap();
            let r = sut(op, || if op.b % 2 == 0 { *cb == other[..] } else { *cb == &other[..] });
            match r {
                Out::Ok(r) => {
                    if r != e && !w.lenient {
                        violation(bits, &format!("comparison with a slice gives {}, expected {}", r, e));
                    }
                    look_shared(w, o, bits, name);
                }
                Out::Fault(k) => look_shared(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        READ_ITER | READ_ENDS | READ_SLICES | INTO_FOR => {
            let cb = o.cb.as_ref().unwrap();
            let mut seen = Vec::with_capacity(before.len());
            let mut back = Vec::with_capacity(before.len());
            let r = sut(op, || {
                let step = |e: &E, to: &mut Vec<M>| {
                    as_harness(|| {
                        e.check("reading");
                        to.push(m(e));
                    });
                    sched::preempt_point();
                };
                match op.code {
                    READ_ITER => {
                        let mut it = cb.iter();
                        let mut left = before.len();
                        loop {
                            let h = it.size_hint();
                            if h.0 > left || h.1.map_or(false, |x| x < left) {
                                as_harness(|| violation(bits, &format!("size hint {:?} with {} left", h, left)));
                            }
                            match it.next() {
                                Some(e) => step(e, &mut seen),
                                None => break,
                            }
                            left = left.saturating_sub(1);
                        }
                    }
                    READ_ENDS => {
                        let mut it = cb.iter();
                        let mut x = op.a;
                        loop {
                            let (e, to) = if x & 1 == 0 { (it.next(), &mut seen) } else { (it.next_back(), &mut back) };
                            x = x.rotate_right(1);
                            match e {
                                Some(e) => step(e, to),
                                None => break,
                            }
                        }
                    }
                    READ_SLICES => {
                        let (a, b) = cb.slices();
                        a.iter().for_each(|e| step(e, &mut seen));
                        b.iter().for_each(|e| step(e, &mut seen));
                    }
                    _ => {
                        for e in cb {
                            step(e, &mut seen);
                        }
                    }
                }
            });
            match r {
                Out::Ok(()) => {
                    back.reverse();
                    seen.extend(back);
                    if !w.lenient && !same(&seen, &before) {
                        violation(bits, &format!("{} shows {}, expected {}", name, show(&seen), show(&before)));
                    }
                    look_shared(w, o, bits, name);
                }
                Out::Fault(k) => look_shared(w, o, fbits(k), name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        READ_STATE => {
            let cb = o.cb.as_ref().unwrap();
            match sut(op, || (cb.len(), cb.is_empty(), cb.is_full(), cb.capacity())) {
                Out::Ok(r) => {
                    let e = (before.len(), before.is_empty(), before.len() == cap, cap);
                    if r != e && !w.lenient {
                        violation(bits, &format!("(len, is_empty, is_full, capacity) = {:?}, expected {:?}", r, e));
                    }
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib(e, bits),
            }
        }
        DEBUG => {
            let cb = o.cb.as_ref().unwrap();
            match plain(|| as_harness(|| format!("{:?}", cb)).len()) {
                Out::Ok(_) | Out::Fault(_) => look_shared(w, o, bits, name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        HUGE => {
            let big = [usize::MAX, usize::MAX - 1, usize::MAX / 2, (isize::MAX as usize) / std::mem::size_of::<E>().max(1), 1 << 60][op.a as usize % 5];
            let big = if E::ZST { usize::MAX } else { big };
            let resize = op.b % 3 == 0 && o.cb.is_some();
            let r = if resize {
                let cb = o.cb.as_mut().unwrap();
                sut(op, || {
                    cb.resize(big);
                    None
                })
            } else {
                sut(op, || Some(if op.b % 3 == 1 { CircularBuffer::<E>::new(big) } else { CircularBuffer::with_capacity(big) }))
            };
            if let Out::Ok(c) = r {
                let c = c.as_ref().or(o.cb.as_ref()).map(|c| c.capacity());
                violation(MEM | CONTENT, &format!("an impossible capacity {} was accepted (capacity is now {:?})", big, c));
                return;
            }
            hit(probe::REFUSED);
            look(w, o, bits | MEM, name);
        }
        _ => {}
    }
    let creates = matches!(
        op.code,
        RESIZE | NEW | INTO_ITER | CLONE_OP | FROM_VEC | FROM_ITER | FROM_ITER_REF | DEBUG | HUGE | CLONE_FROM
    );
    if !creates && requests() > 0 {
        violation(MEM, &format!("{} requested memory {} times", name, requests()));
    }
    heap_check();
}

/// under a read lock the model must not be adopted; compare only
fn look_shared<E: Elem>(w: &World<E>, o: &Obj<E>, bits: u32, what: &str) {
    if aborted() || w.lenient {
        return;
    }
    let bits = bits | o.bits;
    let Some(cb) = o.cb.as_ref() else { return };
    let v = w.views.get();
    w.views.set(v + 1);
    if let Some(obs) = observe(bits, what, || read(cb, v)) {
        if !same(&obs, &o.model) {
            violation(bits, &format!("{}: buffer holds {}, expected {}", what, show(&obs), show(&o.model)));
        }
    }
}

fn rewrite(model: &mut [M], a: u32, zst: bool) {
    if !zst {
        for (i, x) in model.iter_mut().enumerate() {
            x.val = (a + i as u32) % 6;
        }
    }
}
fn rest_dead(rest: &[M], bits: u32) {
    for x in rest {
        if x.uid != NOUID && run().reg[x.uid as usize].live {
            violation(bits | LEAK, &format!("element #{} left in a dropped consuming iterator was not destroyed", x.uid));
            return;
        }
    }
}
/// exactly one clone of each element of `src` was made since `mark`
pub fn made_clones<E: Elem>(mark: usize, src: &[M], bits: u32) {
    if !E::TRACKED || E::ZST {
        return;
    }
    let mut parents: Vec<u32> = run().reg[mark..].iter().filter(|e| e.parent != NOUID && e.by == me()).map(|e| e.parent).collect();
    parents.sort();
    let mut want: Vec<u32> = src.iter().map(|x| x.uid).collect();
    want.sort();
    if parents != want {
        violation(bits, &format!("cloning {} elements made {} clones, of {:?}", want.len(), parents.len(), parents));
    }
}
fn refused<E: Elem>(w: &World<E>, o: &mut Obj<E>, what: &str) {
    hit(probe::REFUSED);
    o.bits |= MEM;
    look(w, o, MEM, what);
}

#[allow(clippy::too_many_arguments)]
fn feed<E: Elem>(w: &World<E>, o: &mut Obj<E>, op: &Op, r: Out<()>, items: &[M], all: usize, bits: u32, name: &str) {
    let before = o.model.clone();
    let cap = o.cap;
    match r {
        Out::Ok(()) => {
            if items.len() != all && !w.lenient {
                violation(bits, &format!("{} took {} of {} items", name, items.len(), all));
            }
            push_all(&mut o.model, cap, items.iter().copied());
            look(w, o, bits, name);
        }
        Out::Fault(k) => {
            hit(probe::RINT);
            let fb = if k == Fk::Alloc { MEM | PARTIAL } else { PARTIAL };
            settle(w, o, fb, name, |obs, c| {
                if c == cap && feed_ok(&before, cap, items, obs) {
                    Ok(())
                } else {
                    Err(format!("the delivered items are {}", show(items)))
                }
            });
        }
        Out::Lib(e) => violation(bits, &format!("{} panicked: {}", name, e)),
    }
    let _ = op;
}

fn run_e<E: Elem>(plan: &Plan) {
    let n = (plan.get("objs").max(1) as usize).min(4);
    let w: World<E> = World {
        objs: (0..n).map(|_| UnsafeCell::new(Obj { cb: None, model: vec![], cap: 0, bits: 0 })).collect(),
        lenient: plan.prop == "C02",
        prop: plan.prop.clone(),
        views: Cell::new(plan.get("view") as u64),
    };
    let _ = &w.prop;
    let body = |me: usize| {
        if me == 0 {
            for i in 0..n {
                let _h = sched::acquire(&[(i, true)]);
                let o = unsafe { &mut *w.objs[i].get() };
                let cap = plan.get(["cap0", "cap1", "cap2", "cap3"][i]).max(0) as usize;
                match plain(|| CircularBuffer::new(cap)) {
                    Out::Ok(cb) => install(&w, o, cb, vec![], cap, CONTENT, "new"),
                    Out::Fault(_) => {}
                    Out::Lib(e) => violation(CONTENT | MEM, &format!("new({}) panicked: {}", cap, e)),
                }
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op);
        }
    };
    sched::clients(plan, plan.clients(), n, 256 << 10, &body);
    if !aborted() {
        let last = |_| {
            for i in 0..n {
                let o = unsafe { &mut *w.objs[i].get() };
                sched::note_op("final look".into());
                look(&w, o, CONTENT, "at the end");
                sched::note_op("final destruction".into());
                destroy(&w, o, &Op::new(0));
            }
        };
        sched::clients(&Plan::default(), 1, 0, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    }
}

pub fn begin_op(i: usize, op: &Op, name: &str) {
    let r = run();
    r.step += 1;
    stats().ops += 1;
    r.ileave = mix(r.ileave ^ ((op.client as u64) << 48) ^ ((op.code as u64) << 32) ^ i as u64);
    trace(((op.client as u64) << 48) ^ ((op.code as u64) << 32) ^ i as u64);
    let txt = format!("op {} {}(o={} o2={} a={} b={}) fault={}@{}", i, name, op.o, op.o2, op.a, op.b, FK_NAMES[op.fk as usize], op.fnth);
    if r.verbose {
        say(&format!("  step {} client {} {}", r.step, op.client, txt));
    }
    sched::note_op(txt);
}

pub fn scope(prop: &str) -> u32 {
    match prop {
        "C01" => CONTENT | LIFE,
        "C02" => LIFE | LEAK,
        "C03" => PARTIAL | LIFE,
        "C04" => ABANDON | LIFE | LEAK,
        "C05" => MEM | LEAK,
        _ => CLONE | LIFE | LEAK,
    }
}

pub fn execute(plan: &Plan) {
    begin(plan, scope(&plan.prop));
    match plan.get("kind") {
        0 => run_e::<Plain>(plan),
        1 => run_e::<Boxed>(plan),
        2 => run_e::<Big>(plan),
        3 => run_e::<Zst>(plan),
        _ => run_e::<Cp>(plan),
    }
    // a leaked consuming iterator keeps its memory
    let leaked = plan.ops.iter().any(|o| o.code == INTO_ITER && o.a % 16 == 1);
    end_checks(!leaked);
}

/// schedule part of a plan
/// Some runs are long: for what only shows after many operations (counters that wrap, wear)
pub fn long_history(seed: u64) -> Option<u64> {
    let x = mix(seed ^ 0x10_46);
    if x % 150 == 0 { Some([150, 300, 600, 1200][(x / 150 % 4) as usize]) } else { None }
}
pub fn gen_schedule(p: &mut Plan, g: &mut Rng) {
    let n = p.clients() as u64;
    let rate = g.pick(&[0u64, 2, 5, 8, 10]);
    p.opsw = (0..p.ops.len() + 4).map(|_| if g.chance(rate, 10) { 1 + g.below(n.max(2) - 1) as u8 } else { 0 }).collect();
    if n > 1 && g.chance(4, 5) {
        let span = g.pick(&[2u64, 5, 15, 60]);
        let k = g.below(40);
        p.pre = (0..k).map(|_| (g.small(span) as u16, 1 + g.below(n - 1) as u8)).collect();
    }
    p.pick = (0..24).map(|_| g.below(n.max(4)) as u8).collect();
}
pub fn shuffle_fault(g: &mut Rng, kinds: &[Fk]) -> (Fk, u32) {
    let k = g.pick(kinds);
    let n = match k {
        Fk::AllocAll | Fk::Body => 0,
        _ => g.small(6) as u32,
    };
    (k, n)
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0x51D6);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    let kinds: &[i64] = match prop {
        "C02" | "C03" | "C17" => &[0, 0, 1, 1, 1, 2, 3],
        _ => &[0, 1, 1, 2, 3, 4],
    };
    p.set("kind", g.pick(kinds));
    let solo = matches!(prop, "C05") && g.chance(1, 2);
    p.set("clients", if solo { 1 } else { g.pick(&[1, 2, 2, 3, 4]) });
    let objs = g.pick(&[1i64, 2, 2, 3]);
    let objs = if prop == "C17" { objs.max(2) } else { objs };
    p.set("objs", objs);
    p.set("fill", g.below(4) as i64);
    p.set("view", g.below(7) as i64);
    // in between: past small chunk and table sizes, many operations
    let medium = g.chance(1, 12);
    let big = !medium && g.chance(1, 60);
    // beyond what a 16-bit index can count
    let huge = matches!(prop, "C01" | "C04" | "C17") && g.chance(1, 1500);
    let big = big || huge;
    let top = if huge { 65_540 } else if big { 2000 } else if medium { g.pick(&[40u64, 70, 140, 300]) } else { g.pick(&[2u64, 4, 4, 8, 20]) };
    let medium = medium && !huge;
    for i in 0..objs as usize {
        p.set(["cap0", "cap1", "cap2", "cap3"][i], if huge && i == 0 { 65_534 + g.below(6) } else { g.below(top + 1) } as i64);
    }
    if prop == "C01" && g.chance(1, 8) {
        p.set("nan", 1);
    }
    let nops = if big { 12 } else { long_history(seed).unwrap_or(g.pick(&[6u64, 12, 25, 50])) };
    let mut weights: Vec<(u8, u64)> = Vec::new();
    let all: &[(u8, u64)] = match prop {
        "C01" => &[
            (PUSH_BACK, 10), (PUSH_FRONT, 8), (POP_BACK, 5), (POP_FRONT, 5), (CLEAR, 1), (RESIZE, 4), (NEW, 1), (EXTEND, 5),
            (EXTEND_REF, 3), (APPEND, 4), (DRAIN, 3), (INTO_ITER, 1), (CLONE_OP, 2), (FROM_VEC, 2), (FROM_ITER, 1), (FROM_ITER_REF, 1),
            (LINEARIZE, 3), (SWAP, 3), (REVERSE, 3), (INDEX, 3), (INDEX_MUT, 3), (FIRST_LAST, 2), (FIRST_LAST_MUT, 2), (ITER_MUT, 2),
            (SLICES_MUT, 2), (EQ, 2), (EQ_SLICE, 2), (CMP_OP, 2), (READ_ITER, 3), (READ_ENDS, 3), (READ_SLICES, 2), (READ_STATE, 2),
            (DEBUG, 1), (INTO_FOR, 2), (INTO_FOR_MUT, 2), (ASSIGN_INDEX, 2), (PARTIAL_CMP, 2), (CLONE_FROM, 1), (LINEARIZE_MUT, 2),
            (TWIN, 4),
        ],
        "C02" | "C03" => &[
            (PUSH_BACK, 10), (PUSH_FRONT, 8), (POP_BACK, 3), (POP_FRONT, 3), (CLEAR, 4), (RESIZE, 6), (NEW, 2), (EXTEND, 7),
            (EXTEND_REF, 5), (APPEND, 7), (DRAIN, 4), (INTO_ITER, 2), (CLONE_OP, 4), (FROM_VEC, 3), (FROM_ITER, 3), (FROM_ITER_REF, 3),
            (LINEARIZE, 2), (SWAP, 1), (REVERSE, 2), (INDEX_MUT, 1), (EQ, 3), (EQ_SLICE, 2), (CMP_OP, 3), (PARTIAL_CMP, 2),
            (ASSIGN_INDEX, 1), (CLONE_FROM, 2), (ITER_MUT, 1), (READ_ITER, 2),
        ],
        "C04" => &[
            (PUSH_BACK, 10), (PUSH_FRONT, 6), (POP_BACK, 2), (POP_FRONT, 3), (RESIZE, 2), (EXTEND, 6), (DRAIN, 16), (INTO_ITER, 8),
            (FROM_VEC, 2), (LINEARIZE, 1), (REVERSE, 1), (READ_ITER, 2), (APPEND, 1), (CLONE_OP, 1),
        ],
        "C05" => &[
            (PUSH_BACK, 8), (PUSH_FRONT, 6), (POP_BACK, 3), (POP_FRONT, 3), (CLEAR, 2), (RESIZE, 7), (NEW, 3), (EXTEND, 6),
            (EXTEND_REF, 4), (APPEND, 4), (DRAIN, 4), (INTO_ITER, 1), (CLONE_OP, 5), (FROM_VEC, 5), (FROM_ITER, 4), (FROM_ITER_REF, 4),
            (LINEARIZE, 3), (SWAP, 2), (REVERSE, 3), (INDEX, 2), (INDEX_MUT, 1), (FIRST_LAST, 2), (FIRST_LAST_MUT, 1), (ITER_MUT, 2),
            (SLICES_MUT, 1), (EQ, 3), (EQ_SLICE, 1), (CMP_OP, 2), (READ_ITER, 2), (READ_ENDS, 2), (READ_SLICES, 2), (READ_STATE, 1),
            (INTO_FOR, 1), (INTO_FOR_MUT, 1), (ASSIGN_INDEX, 1), (HUGE, 2), (PARTIAL_CMP, 1), (LINEARIZE_MUT, 1),
        ],
        _ => &[
            (PUSH_BACK, 10), (PUSH_FRONT, 6), (POP_BACK, 3), (POP_FRONT, 3), (CLEAR, 1), (RESIZE, 3), (EXTEND, 5), (APPEND, 3),
            (DRAIN, 2), (CLONE_OP, 14), (CLONE_FROM, 3), (LINEARIZE, 2), (REVERSE, 2), (INDEX_MUT, 4), (ITER_MUT, 2), (SWAP, 2), (EQ, 1), (TWIN, 1),
            (FROM_VEC, 1),
        ],
    };
    // swarm: leave out a random part of the operations
    let drop_rate = g.pick(&[0u64, 0, 3, 6]);
    for (i, x) in all.iter().enumerate() {
        let base = i < 2 || matches!((prop, x.0), ("C04", DRAIN | INTO_ITER) | ("C17", CLONE_OP));
        if base || !g.chance(drop_rate, 10) {
            weights.push(*x);
        }
    }
    let total: u64 = weights.iter().map(|x| x.1).sum();
    let frate = match prop {
        "C02" | "C03" => g.pick(&[1u64, 3, 5]),
        "C05" => g.pick(&[0u64, 3, 7]),
        "C17" => g.pick(&[0u64, 0, 3]),
        _ => 0,
    };
    for _ in 0..nops {
        let mut t = g.below(total);
        let code = weights.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(objs as u64) as u8;
        o.o2 = g.below(objs as u64) as u8;
        o.a = g.below(1000) as u32;
        o.b = g.below(1000) as u32;
        let in_range = |g: &mut Rng| if g.chance(1, 6) { g.small(top + 2) as u32 } else { g.small(top.min(6)) as u32 };
        match code {
            RESIZE | NEW => o.a = g.below(top + 3) as u32,
            EXTEND | EXTEND_REF | FROM_VEC | FROM_ITER | FROM_ITER_REF if huge => o.a = (top - g.below(2) * g.below(8) - g.below(2) * g.below(40_000)) as u32,
            EXTEND | EXTEND_REF | FROM_VEC | FROM_ITER | FROM_ITER_REF if (medium || big) && g.chance(1, 2) => o.a = g.below(top + 5) as u32,
            EXTEND | EXTEND_REF | FROM_VEC | FROM_ITER | FROM_ITER_REF => o.a = g.small(top + 5) as u32,
            DRAIN | INTO_ITER => {
                o.a = g.below(16) as u32;
                o.b = g.small(top + 1) as u32;
            }
            SWAP => {
                o.a = in_range(g);
                o.b = in_range(g);
            }
            INDEX | INDEX_MUT | ASSIGN_INDEX => o.a = in_range(g),
            _ => {}
        }
        if g.chance(1, 200) && matches!(code, INDEX | SWAP | INDEX_MUT) {
            o.a = [u32::MAX, u32::MAX / 2][g.below(2) as usize];
        }
        if prop == "C05" {
            // memory must not be requested by an out-of-range panic either way; keep these apart
            if matches!(code, INTO_ITER) && o.a == 1 {
                o.a = 0;
            }
        }
        // (Iterator::last leaks its second element when dropping the first one panics: rustc issue 47949)
        let last = matches!(code, DRAIN | INTO_ITER) && o.a % 16 == 11;
        if matches!(prop, "C03") && matches!(code, INTO_ITER) && o.a == 2 {
            o.a = 0;
        }
        if frate > 0 && !last && g.chance(frate, 10) {
            let (k, n) = match prop {
                "C05" => {
                    let creates = matches!(code, RESIZE | NEW | CLONE_OP | FROM_VEC | FROM_ITER | FROM_ITER_REF | HUGE);
                    if creates {
                        shuffle_fault(g, &[Fk::Alloc, Fk::Alloc, Fk::AllocAll])
                    } else if matches!(code, INTO_ITER | INDEX | INDEX_MUT | SWAP | ASSIGN_INDEX | DEBUG) {
                        (Fk::None, 0)
                    } else {
                        (Fk::AllocAll, 0)
                    }
                }
                "C17" => match code {
                    CLONE_OP | CLONE_FROM => shuffle_fault(g, &[Fk::Clone, Fk::Clone, Fk::Alloc, Fk::AllocAll]),
                    _ => (Fk::None, 0),
                },
                _ => match code {
                    PUSH_BACK | PUSH_FRONT | CLEAR | RESIZE | NEW | APPEND | DRAIN | INTO_ITER => shuffle_fault(g, &[Fk::Drop]),
                    EXTEND | FROM_ITER => shuffle_fault(g, &[Fk::Drop, Fk::Next, Fk::Next]),
                    EXTEND_REF | FROM_ITER_REF => shuffle_fault(g, &[Fk::Drop, Fk::Next, Fk::Clone, Fk::Clone]),
                    CLONE_OP | CLONE_FROM => shuffle_fault(g, &[Fk::Clone]),
                    EQ | EQ_SLICE => shuffle_fault(g, &[Fk::Eq]),
                    CMP_OP | PARTIAL_CMP => shuffle_fault(g, &[Fk::Cmp]),
                    _ => (Fk::None, 0),
                },
            };
            o.fk = k;
            o.fnth = n;
            // somewhere in a long operation
            if top > 20 && !matches!(k, Fk::None | Fk::Alloc | Fk::AllocAll | Fk::Body) && g.chance(1, 3) {
                o.fnth = g.below(top) as u32;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
