//! Counter scenarios (C06, C07, C09, C17): shared counters against a reference multiset.

use crate::core::*;
use crate::elem::*;
use crate::hasher::SimState;
use crate::iters::*;
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule, made_clones, shuffle_fault};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::counter::Counter;
use fnv::FnvBuildHasher;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::hash::BuildHasher;
use std::iter::FromIterator;

pub type Model = BTreeMap<u32, usize>;

pub const NAMES: [&str; 34] = [
    "push", "extend", "extend_ref", "new", "from_iter", "from_iter_ref", "from_hashmap", "from_map", "from_map_ref", "add_assign",
    "add_assign_ref", "sub_assign", "sub_assign_ref", "add", "add_ref", "sub", "sub_ref", "clone", "most_common", "into_most_common",
    "into_iter", "iter", "iter_mut", "read", "insert", "remove", "eq", "insert_huge", "debug", "table", "churn", "clear",
    "clone_from", "zero",
];
pub const PUSH: u8 = 0;
pub const EXTEND: u8 = 1;
pub const EXTEND_REF: u8 = 2;
pub const NEW: u8 = 3;
pub const FROM_ITER: u8 = 4;
pub const FROM_ITER_REF: u8 = 5;
pub const FROM_HASHMAP: u8 = 6;
pub const FROM_MAP: u8 = 7;
pub const FROM_MAP_REF: u8 = 8;
pub const ADD_ASSIGN: u8 = 9;
pub const ADD_ASSIGN_REF: u8 = 10;
pub const SUB_ASSIGN: u8 = 11;
pub const SUB_ASSIGN_REF: u8 = 12;
pub const ADD: u8 = 13;
pub const ADD_REF: u8 = 14;
pub const SUB: u8 = 15;
pub const SUB_REF: u8 = 16;
pub const CLONE_OP: u8 = 17;
pub const MOST: u8 = 18;
pub const INTO_MOST: u8 = 19;
pub const INTO_ITER: u8 = 20;
pub const ITER: u8 = 21;
pub const ITER_MUT: u8 = 22;
pub const READ: u8 = 23;
pub const INSERT: u8 = 24;
pub const REMOVE: u8 = 25;
pub const EQ: u8 = 26;
pub const HUGE: u8 = 27;
pub const DEBUG: u8 = 28;
pub const TABLE: u8 = 29;
pub const CHURN: u8 = 30;
pub const CLEAR: u8 = 31;
pub const CLONE_FROM: u8 = 32;
pub const ZERO: u8 = 33;

pub trait Key: Elem {
    /// feeding by reference needs Copy keys
    fn extend_refs<S: BuildHasher>(_c: &mut Counter<Self, S>, _s: RefSrc<Self>) -> bool {
        false
    }
}
impl Key for Plain {}
impl Key for Boxed {}
impl Key for Big {}
impl Key for Cp {
    fn extend_refs<S: BuildHasher>(c: &mut Counter<Self, S>, s: RefSrc<Self>) -> bool {
        c.extend(s);
        true
    }
}

pub enum AnyC<K: Key> {
    Sim(Counter<K, SimState>),
    Rnd(Counter<K, RandomState>),
    Fnv(Counter<K, FnvBuildHasher>),
}
impl<K: Key> From<Counter<K, SimState>> for AnyC<K> {
    fn from(c: Counter<K, SimState>) -> Self {
        AnyC::Sim(c)
    }
}
impl<K: Key> From<Counter<K, RandomState>> for AnyC<K> {
    fn from(c: Counter<K, RandomState>) -> Self {
        AnyC::Rnd(c)
    }
}
impl<K: Key> From<Counter<K, FnvBuildHasher>> for AnyC<K> {
    fn from(c: Counter<K, FnvBuildHasher>) -> Self {
        AnyC::Fnv(c)
    }
}
#[macro_export]
macro_rules! on {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            AnyC::Sim($x) => $e,
            AnyC::Rnd($x) => $e,
            AnyC::Fnv($x) => $e,
        }
    };
}

struct Obj<K: Key> {
    c: Option<AnyC<K>>,
    model: Model,
    bits: u32,
}
struct World<K: Key> {
    objs: Vec<UnsafeCell<Obj<K>>>,
    keys: u32,
    views: Cell<u64>,
}

pub fn read<K: Key>(c: &AnyC<K>, bits: u32, view: u64) -> Model {
    let mut out = Model::new();
    let mut dup = None;
    on!(c, x => {
        let mut put = |k: &K, n: usize| {
            k.check("reading a key");
            if out.insert(k.val(), n).is_some() {
                dup = Some(k.val());
            }
        };
        if view % 2 == 0 {
            x.iter().for_each(|(k, n)| put(k, *n));
        } else {
            x.into_iter().for_each(|(k, n)| put(k, *n));
        }
        if x.len() != out.len() || x.is_empty() != out.is_empty() {
            violation(bits, &format!("len() = {} but {} keys are listed", x.len(), out.len()));
        }
        // lookups agree with the listing
        if !aborted() && view % 3 == 0 {
            for i in 0..2 {
                let v = mix(view + i) as u32 % 12;
                let k = K::make(v);
                let got = x.get(&k).copied();
                if got != out.get(&v).copied() || x.contains_key(&k) != out.contains_key(&v) {
                    violation(bits, &format!("looking up key {} gives {:?}, listed {:?}", v, got, out.get(&v)));
                }
            }
        }
    });
    if let Some(d) = dup {
        violation(bits, &format!("key {} is stored twice", d));
    }
    out
}
pub fn stored<K: Key>(c: &AnyC<K>) -> Vec<M> {
    on!(c, x => x.keys().map(|k| m(k)).collect())
}
fn trace_model(md: &Model) {
    for (k, n) in md {
        trace(mix((*k as u64) << 40 ^ *n as u64));
    }
}

fn look<K: Key>(w: &World<K>, o: &Obj<K>, bits: u32, what: &str) {
    if aborted() {
        return;
    }
    let bits = bits | o.bits | CONTENT;
    let Some(c) = o.c.as_ref() else { return };
    let v = w.views.get();
    w.views.set(v + 1);
    let Some(got) = observe(bits, what, || read(c, bits, v)) else { return };
    if got != o.model {
        violation(bits, &format!("{}: counter holds {:?}, expected {:?}", what, got, o.model));
    }
    trace_model(&got);
}

/// A key whose count is 0 may be kept or dropped by an operation that combines counters; all
/// other operations, clones and conversions keep it.
fn settle_zeros<K: Key>(o: &mut Obj<K>, bits: u32, what: &str, before: &Model) {
    if before.values().all(|n| *n > 0) && o.model.values().all(|n| *n > 0) {
        return;
    }
    let bits = bits | o.bits | CONTENT;
    let Some(got) = observe(bits, what, || read(o.c.as_ref().unwrap(), bits, 0)) else { return };
    let zeros: Vec<u32> = o.model.keys().chain(got.keys()).copied().collect();
    for k in zeros {
        match (got.get(&k), o.model.get(&k)) {
            (Some(0), None) if before.contains_key(&k) => {
                o.model.insert(k, 0);
            }
            (None, Some(0)) => {
                o.model.remove(&k);
            }
            _ => {}
        }
    }
}

fn vals(w_keys: u32, b: u32, n: usize) -> Vec<u32> {
    (0..n).map(|i| (mix(b as u64 ^ (i as u64) << 20) % w_keys as u64) as u32).collect()
}
fn add(md: &mut Model, items: &[u32]) {
    for v in items {
        *md.entry(*v).or_insert(0) += 1;
    }
}
/// None if a count would leave the range of the count type
pub fn plus(a: &Model, b: &Model) -> Option<Model> {
    let mut r = a.clone();
    for (k, n) in b {
        let e = r.entry(*k).or_insert(0);
        *e = e.checked_add(*n)?;
    }
    Some(r)
}
pub fn minus(a: &Model, b: &Model) -> Model {
    let mut r = a.clone();
    for (k, n) in b {
        if let Some(x) = r.get(k).copied() {
            if x <= *n {
                if x < *n {
                    hit(probe::SATUR);
                }
                hit(probe::REMOVED);
                r.remove(k);
            } else {
                r.insert(*k, x - n);
            }
        }
    }
    r
}

pub fn fresh<K: Key>(a: u32, b: u32) -> AnyC<K> {
    let cap = (b % 40) as usize * [1, 1, 1, 12][(b / 640 % 4) as usize];
    match a % 10 {
        0 => Counter::<K, SimState>::new().into(),
        1 => Counter::<K, SimState>::with_capacity(cap).into(),
        2 | 3 | 4 => Counter::with_hasher(SimState::new(b)).into(),
        5 => Counter::with_capacity_and_hasher(cap, SimState::new(b / 40)).into(),
        6 => Counter::<K, RandomState>::new().into(),
        7 => Counter::<K, RandomState>::with_capacity(cap).into(),
        8 => Counter::<K, FnvBuildHasher>::new().into(),
        _ => Counter::<K, FnvBuildHasher>::default().into(),
    }
}
fn destroy<K: Key>(o: &mut Obj<K>) {
    if let Some(c) = o.c.take() {
        if let Out::Lib(e) = plain(|| drop(c)) {
            violation(CONTENT | LIFE | o.bits, &format!("destroying a counter panicked: {}", e));
        }
    }
    o.model.clear();
}
fn install<K: Key>(w: &World<K>, o: &mut Obj<K>, c: AnyC<K>, md: Model, bits: u32, what: &str) {
    destroy(o);
    o.c = Some(c);
    o.model = md;
    o.bits = bits & CLONE;
    look(w, o, bits, what);
}
fn reset<K: Key>(w: &World<K>, o: &mut Obj<K>) {
    if let Out::Ok(c) = plain(|| fresh(2, 0)) {
        install(w, o, c, Model::new(), CONTENT, "new");
    }
}
fn mark_stored<K: Key>(o: &Obj<K>, hashed: bool) {
    if let Some(c) = o.c.as_ref() {
        for x in stored(c) {
            if x.uid != NOUID {
                run().reg[x.uid as usize].hashed = hashed;
            }
        }
    }
}

/// after a failed feed: base + delivered[..j], j in {all, all but the last}
fn feed_settle<K: Key>(w: &World<K>, o: &mut Obj<K>, bits: u32, what: &str, base: &Model, items: &[u32]) {
    hit(probe::FEEDINT);
    o.bits |= bits & PARTIAL;
    let Some(got) = observe(bits, what, || read(o.c.as_ref().unwrap(), bits, 0)) else { return };
    if aborted() {
        return;
    }
    let ok = (items.len().saturating_sub(1)..=items.len()).any(|j| {
        let mut md = base.clone();
        add(&mut md, &items[..j]);
        md == got
    });
    if !ok {
        violation(bits, &format!("{} interrupted after {} delivered items {:?}: counter holds {:?}, was {:?}", what, items.len(), items, got, base));
    }
    o.model = got;
    look(w, o, bits, what);
}
/// after a failed merge: every key old or new
fn merge_settle<K: Key>(w: &World<K>, o: &mut Obj<K>, bits: u32, what: &str, old: &Model, new: &Model) {
    hit(probe::MERGEINT);
    o.bits |= bits & PARTIAL;
    let Some(got) = observe(bits, what, || read(o.c.as_ref().unwrap(), bits, 0)) else { return };
    if aborted() {
        return;
    }
    let mut keys: Vec<u32> = old.keys().chain(new.keys()).chain(got.keys()).copied().collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let g = got.get(&k);
        if g != old.get(&k) && g != new.get(&k) {
            violation(bits, &format!("interrupted {}: key {} has count {:?}, neither the old {:?} nor the new {:?}", what, k, g, old.get(&k), new.get(&k)));
            return;
        }
    }
    o.model = got;
    look(w, o, bits, what);
}
fn no_leak_since<K: Key>(mark: usize, bits: u32, what: &str) {
    if K::TRACKED {
        for (i, e) in run().reg[mark..].iter().enumerate() {
            if e.live && e.by == me() {
                violation(bits | LEAK, &format!("{}: key #{} made during the failed operation was not released", what, mark + i));
                return;
            }
        }
    }
}

pub fn check_ranking(r: &[(u32, usize)], md: &Model, bits: u32, what: &str) {
    if r.windows(2).any(|p| p[0].1 < p[1].1) {
        violation(bits, &format!("{}: not in non-increasing order: {:?}", what, r));
    }
    // whether a key counted 0 times is listed is left open
    let some = |m: &Model| -> Model { m.iter().filter(|x| *x.1 > 0).map(|x| (*x.0, *x.1)).collect() };
    let m2: Model = r.iter().copied().collect();
    if some(&m2) != some(md) || r.len() != m2.len() || m2.keys().any(|k| !md.contains_key(k)) {
        violation(bits, &format!("{}: lists {:?}, expected the counts {:?}", what, r, md));
    }
}

fn exec<K: Key>(w: &World<K>, op: &Op) {
    let n = w.objs.len();
    let oi = op.o as usize % n;
    let two = matches!(op.code, ADD_ASSIGN..=CLONE_OP | EQ | CLONE_FROM);
    let oj = if two { op.o2 as usize % n } else { oi };
    if two && oi == oj && op.code != EQ {
        return;
    }
    let wr = !matches!(op.code, CLONE_OP | CLONE_FROM | MOST | ITER | READ | EQ | DEBUG);
    let by_value = matches!(op.code, ADD_ASSIGN | SUB_ASSIGN | ADD | SUB);
    let _held = sched::acquire(&[(oi, wr), (oj, oi == oj && wr || by_value || matches!(op.code, CLONE_OP | CLONE_FROM))]);
    if aborted() {
        return;
    }
    let o = unsafe { &mut *w.objs[oi].get() };
    let name = NAMES[op.code as usize % NAMES.len()];
    if o.c.is_none() {
        return;
    }
    let before = o.model.clone();
    let bits = CONTENT | o.bits;
    let lib = |e: String, bits: u32| violation(bits, &format!("{} panicked: {}", name, e));
    let key = op.a % w.keys;
    if op.fk != Fk::None {
        mark_stored(o, true);
    }
    match op.code {
        PUSH => {
            if before.get(&key) == Some(&usize::MAX) {
                return;
            }
            let k = K::make(key);
            let c = o.c.as_mut().unwrap();
            match sut(op, || on!(c, x => x.push(k))) {
                Out::Ok(()) => {
                    add(&mut o.model, &[key]);
                    look(w, o, bits, name);
                }
                Out::Fault(_) => feed_settle(w, o, PARTIAL, name, &before, &[key]),
                Out::Lib(e) => lib(e, bits),
            }
        }
        EXTEND | EXTEND_REF => {
            let v = vals(w.keys, op.b, op.a as usize % 64 * run().mult);
            if before.values().any(|n| *n > usize::MAX - 100 * run().mult) {
                return;
            }
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            let cnt = Cell::new(0);
            let src: Vec<K> = if op.code == EXTEND_REF { v.iter().map(|x| K::make(*x)).collect() } else { vec![] };
            let c = o.c.as_mut().unwrap();
            let mut by_ref = false;
            let mut r = if op.code == EXTEND_REF {
                sut(op, || by_ref = on!(c, x => K::extend_refs(x, RefSrc::new(&src, op.b, &cnt))))
            } else {
                Out::Ok(())
            };
            by_ref |= !matches!(r, Out::Ok(()));
            if !by_ref {
                r = sut(op, || on!(c, x => x.extend(Src::<K>::new(&v, op.b, &log))));
            }
            let items: Vec<u32> = if by_ref { v[..cnt.get()].to_vec() } else { log.borrow().iter().map(|x| x.val).collect() };
            match r {
                Out::Ok(()) => {
                    if items.len() != v.len() {
                        violation(bits, &format!("{} took {} of {} items", name, items.len(), v.len()));
                    }
                    add(&mut o.model, &items);
                    look(w, o, bits, name);
                }
                Out::Fault(_) => feed_settle(w, o, PARTIAL, name, &before, &items),
                Out::Lib(e) => lib(e, bits),
            }
        }
        NEW => {
            if let Out::Ok(c) = sut(op, || fresh::<K>(op.a, op.b)) {
                install(w, o, c, Model::new(), bits, name)
            } else {
                look(w, o, bits | PARTIAL, name)
            }
        }
        FROM_ITER | FROM_ITER_REF => {
            let v = vals(w.keys, op.b, op.a as usize % 64 * run().mult);
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            let cnt = Cell::new(0);
            let mark = run().reg.len();
            let src: Vec<K> = if op.code == FROM_ITER_REF { v.iter().map(|x| K::make(*x)).collect() } else { vec![] };
            let mark2 = run().reg.len();
            let kind = op.b / 8 % 3;
            let r: Out<AnyC<K>> = if op.code == FROM_ITER {
                sut(op, || {
                    let s = Src::<K>::new(&v, op.b, &log);
                    match kind {
                        0 => Counter::<K, SimState>::from_iter(s).into(),
                        1 => Counter::<K, RandomState>::from_iter(s).into(),
                        _ => Counter::<K, FnvBuildHasher>::from_iter(s).into(),
                    }
                })
            } else {
                sut(op, || {
                    let s = RefSrc::new(&src, op.b, &cnt);
                    match kind {
                        0 => Counter::<K, SimState>::from_iter(s).into(),
                        1 => Counter::<K, RandomState>::from_iter(s).into(),
                        _ => Counter::<K, FnvBuildHasher>::from_iter(s).into(),
                    }
                })
            };
            match r {
                Out::Ok(c) => {
                    let mut md = Model::new();
                    add(&mut md, &v);
                    install(w, o, c, md, bits, name);
                }
                Out::Fault(_) => {
                    no_leak_since::<K>(if op.code == FROM_ITER { mark } else { mark2 }, PARTIAL, name);
                    look(w, o, PARTIAL, name)
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        FROM_HASHMAP | FROM_MAP | FROM_MAP_REF => {
            let mut md = Model::new();
            for (i, v) in vals(w.keys, op.b, op.a as usize % 40 * run().mult).into_iter().enumerate() {
                let r = mix(op.b as u64 + i as u64);
                let big = match op.b % 5 {
                    0 => usize::MAX - i,
                    // every magnitude
                    1 => (r >> (r % [64, 32, 12][op.b as usize / 5 % 3])) as usize,
                    2 if i % 7 == 0 => 1 << (r % 64),
                    _ => (r % 6) as usize,
                };
                md.insert(v, big);
            }
            let fill = |s: SimState| {
                let mut h = HashMap::with_hasher(s);
                for (k, n) in &md {
                    h.insert(K::make(*k), *n);
                }
                h
            };
            let src = fill(SimState::new(op.b));
            let mark = run().reg.len();
            let kind = op.a / 40 % 3;
            let mut keep = None;
            let r: Out<AnyC<K>> = match op.code {
                FROM_HASHMAP => sut(op, || Counter::from_hashmap(src).into()),
                FROM_MAP => {
                    for k in src.keys() {
                        rehashable(k.uid());
                    }
                    sut(op, || match kind {
                        0 => Counter::<K, SimState>::from(src).into(),
                        1 => Counter::<K, RandomState>::from(src).into(),
                        _ => Counter::<K, FnvBuildHasher>::from(src).into(),
                    })
                }
                _ => {
                    let r = sut(op, || match kind {
                        0 => Counter::<K, SimState>::from(&src).into(),
                        1 => Counter::<K, RandomState>::from(&src).into(),
                        _ => Counter::<K, FnvBuildHasher>::from(&src).into(),
                    });
                    keep = Some(src);
                    r
                }
            };
            if let Some(s) = &keep {
                let back: Model = s.iter().map(|(k, n)| (k.val(), *n)).collect();
                if back != md {
                    violation(bits, &format!("{}: the source map was changed to {:?}", name, back));
                }
            }
            match r {
                Out::Ok(c) => {
                    install(w, o, c, md, bits, name);
                    // counts of zero only here and after ZERO: drop them before going on
                    if let Some(c) = o.c.as_mut() {
                        on!(c, x => x.retain(|_, n| *n > 0));
                        o.model.retain(|_, n| *n > 0);
                    }
                }
                Out::Fault(_) => {
                    if op.code == FROM_MAP_REF {
                        no_leak_since::<K>(mark, PARTIAL, name);
                    }
                    look(w, o, PARTIAL, name)
                }
                Out::Lib(e) => lib(e, bits),
            }
            drop(keep);
        }
        ADD_ASSIGN..=SUB_REF => {
            let p = unsafe { &mut *w.objs[oj].get() };
            if p.c.is_none() {
                return;
            }
            let bits = bits | p.bits;
            let rhs = p.model.clone();
            let new = if matches!(op.code, ADD_ASSIGN | ADD_ASSIGN_REF | ADD | ADD_REF) {
                match plus(&before, &rhs) {
                    Some(x) => x,
                    None => return,
                }
            } else {
                minus(&before, &rhs)
            };
            if op.fk != Fk::None {
                mark_stored(p, !by_value);
            }
            let mark = run().reg.len();
            let (r, whole): (Out<Option<AnyC<K>>>, bool) = match op.code {
                ADD_ASSIGN | SUB_ASSIGN => {
                    let v = p.c.take().unwrap();
                    p.model.clear();
                    let c = o.c.as_mut().unwrap();
                    let plus = op.code == ADD_ASSIGN;
                    (
                        sut(op, || {
                            on!(c, x => on!(v, y => if plus { *x += y } else { *x -= y }));
                            None
                        }),
                        false,
                    )
                }
                ADD_ASSIGN_REF | SUB_ASSIGN_REF => {
                    let v = p.c.as_ref().unwrap();
                    let c = o.c.as_mut().unwrap();
                    let plus = op.code == ADD_ASSIGN_REF;
                    (
                        sut(op, || {
                            on!(c, x => on!(v, y => if plus { *x += y } else { *x -= y }));
                            None
                        }),
                        false,
                    )
                }
                ADD | SUB => {
                    let v = p.c.take().unwrap();
                    p.model.clear();
                    let c = o.c.take().unwrap();
                    let plus = op.code == ADD;
                    (sut(op, || Some(on!(c, x => on!(v, y => if plus { AnyC::from(x + y) } else { AnyC::from(x - y) })))), true)
                }
                _ => {
                    let v = p.c.as_ref().unwrap();
                    let c = o.c.take().unwrap();
                    let plus = op.code == ADD_REF;
                    (sut(op, || Some(on!(c, x => on!(v, y => if plus { AnyC::from(x + y) } else { AnyC::from(x - y) })))), true)
                }
            };
            match r {
                Out::Ok(c) => {
                    if let Some(c) = c {
                        o.c = Some(c);
                    }
                    o.model = new;
                    settle_zeros(o, bits, name, &before);
                    look(w, o, bits, name);
                }
                Out::Fault(_) => {
                    if whole {
                        hit(probe::MERGEINT);
                        no_leak_since::<K>(mark, PARTIAL, name);
                        reset(w, o);
                    } else {
                        merge_settle(w, o, PARTIAL, name, &before, &new);
                    }
                    p.bits |= PARTIAL;
                }
                Out::Lib(e) => lib(e, bits),
            }
            if p.c.is_none() {
                reset(w, p);
            } else {
                look(w, p, bits, "right operand");
            }
        }
        CLONE_OP => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let cb = bits | CLONE | p.bits;
            let src = stored(o.c.as_ref().unwrap());
            let mark = run().reg.len();
            let c = o.c.as_ref().unwrap();
            match sut(op, || on!(c, x => AnyC::from(x.clone()))) {
                Out::Ok(d) => {
                    made_clones::<K>(mark, &src, cb);
                    o.bits |= CLONE;
                    look(w, o, cb, name);
                    install(w, p, d, before.clone(), cb, name);
                    if let (Some(AnyC::Sim(a)), Some(AnyC::Sim(b))) = (o.c.as_ref(), p.c.as_ref()) {
                        if observe(cb, "comparing a clone", || a == b) == Some(false) {
                            violation(cb, "a clone is not equal to the original");
                        }
                    }
                }
                Out::Fault(_) => {
                    hit(probe::CLONEINT);
                    no_leak_since::<K>(mark, CLONE | PARTIAL, name);
                    o.bits |= CLONE;
                    look(w, o, CLONE | PARTIAL, name);
                    look(w, p, CLONE | PARTIAL, name);
                }
                Out::Lib(e) => lib(e, cb),
            }
        }
        CLONE_FROM => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let Some(dst) = p.c.as_mut() else { return };
            let cb = bits | CLONE | p.bits;
            let r = sut(op, || match (dst, o.c.as_ref().unwrap()) {
                (AnyC::Sim(x), AnyC::Sim(y)) => x.clone_from(y),
                (AnyC::Rnd(x), AnyC::Rnd(y)) => x.clone_from(y),
                (AnyC::Fnv(x), AnyC::Fnv(y)) => x.clone_from(y),
                (x, y) => *x = on!(y, y => AnyC::from(y.clone())),
            });
            match r {
                Out::Ok(()) => {
                    p.model = before.clone();
                    p.bits = CLONE;
                    o.bits |= CLONE;
                    look(w, o, cb, name);
                    look(w, p, cb, name);
                }
                Out::Fault(_) => {
                    hit(probe::CLONEINT);
                    o.bits |= CLONE;
                    look(w, o, CLONE | PARTIAL, name);
                    // the target holds its old counts, or some of the source's
                    let pb = CLONE | PARTIAL | p.bits;
                    if let Some(got) = observe(pb, name, || read(p.c.as_ref().unwrap(), pb, 0)) {
                        if !aborted() && got != p.model && got.iter().any(|(k, n)| before.get(k) != Some(n)) {
                            violation(pb, &format!("interrupted {}: target holds {:?}, was {:?}, source {:?}", name, got, p.model, before));
                        }
                        p.model = got;
                        look(w, p, pb, name);
                    }
                }
                Out::Lib(e) => lib(e, cb),
            }
        }
        ZERO => {
            // counts are the caller's: 0 is a count like any other
            let k = K::make(key);
            let c = o.c.as_mut().unwrap();
            let _ = plain(|| {
                on!(c, x => match op.b % 3 {
                    0 => {
                        x.insert(k, 0);
                    }
                    1 => {
                        if let Some(n) = x.get_mut(&k) {
                            *n = 0
                        }
                    }
                    _ => for (_, n) in x.iter_mut() {
                        *n -= (*n).min(1);
                    },
                })
            });
            match op.b % 3 {
                0 => {
                    o.model.insert(key, 0);
                }
                1 => {
                    if let Some(n) = o.model.get_mut(&key) {
                        *n = 0
                    }
                }
                _ => {
                    for n in o.model.values_mut() {
                        *n -= (*n).min(1);
                    }
                }
            }
            look(w, o, bits, name);
        }
        MOST => {
            let mark = run().reg.len();
            let c = o.c.as_ref().unwrap();
            match sut(op, || on!(c, x => x.most_common())) {
                Out::Ok(v) => {
                    let r: Vec<(u32, usize)> = v
                        .iter()
                        .map(|(k, n)| {
                            k.check("listing a key");
                            (k.val(), *n)
                        })
                        .collect();
                    for (k, n) in &r {
                        trace(mix(*k as u64) ^ *n as u64);
                    }
                    check_ranking(&r, &before, bits | ENUM, name);
                    look(w, o, bits | ENUM, name);
                    drop(v);
                }
                Out::Fault(_) => {
                    no_leak_since::<K>(mark, ENUM | PARTIAL, name);
                    o.bits |= ENUM;
                    look(w, o, bits | ENUM | PARTIAL, name)
                }
                Out::Lib(e) => lib(e, bits | ENUM),
            }
        }
        INTO_MOST => {
            let c = o.c.take().unwrap();
            let old = stored(&c);
            match sut(op, || on!(c, x => x.into_most_common())) {
                Out::Ok(v) => {
                    let r: Vec<(u32, usize)> = v
                        .iter()
                        .map(|(k, n)| {
                            k.check("listing a key");
                            (k.val(), *n)
                        })
                        .collect();
                    check_ranking(&r, &before, bits | ENUM, name);
                    // rebuild a counter (with another table history) from the listing
                    let mut md = Model::new();
                    if let Out::Ok(mut c) = plain(|| fresh::<K>(op.a, op.b)) {
                        for (k, n) in v {
                            md.insert(k.val(), n);
                            on!(&mut c, x => { x.insert(k, n); });
                        }
                        install(w, o, c, md, CONTENT, "rebuild");
                    }
                }
                Out::Fault(_) => {
                    for x in old {
                        if x.uid != NOUID && run().reg[x.uid as usize].live {
                            violation(ENUM | LEAK | PARTIAL, &format!("{}: key #{} of an interrupted listing was not released", name, x.uid));
                            break;
                        }
                    }
                    reset(w, o)
                }
                Out::Lib(e) => lib(e, bits | ENUM),
            }
        }
        INTO_ITER => {
            let c = o.c.take().unwrap();
            let k = if op.b % 4 == 0 { usize::MAX } else { op.b as usize % 8 };
            let out: RefCell<Vec<(K, usize)>> = RefCell::new(Vec::with_capacity(before.len()));
            let r = sut(op, || {
                on!(c, x => {
                    for (i, e) in x.into_iter().enumerate() {
                        if i >= k {
                            as_harness(|| drop(e));
                            break;
                        }
                        as_harness(|| out.borrow_mut().push(e));
                        sched::preempt_point();
                    }
                })
            });
            match r {
                Out::Ok(()) => {
                    let v = out.into_inner();
                    let mut got = Model::new();
                    for (e, c) in &v {
                        e.check("consuming a counter");
                        if got.insert(e.val(), *c).is_some() {
                            violation(bits, &format!("key {} was listed twice", e.val()));
                        }
                    }
                    if got.iter().any(|(k, c)| before.get(k) != Some(c)) || got.len() != before.len().min(k) {
                        violation(bits, &format!("consuming iteration lists {:?} of {:?}", got, before));
                    }
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib(e, bits),
            }
            reset(w, o);
        }
        ITER => {
            let c = o.c.as_ref().unwrap();
            let mut got = Model::new();
            let r = sut(op, || {
                on!(c, x => for (k, c) in x {
                    as_harness(|| {
                        k.check("iterating");
                        if got.insert(k.val(), *c).is_some() {
                            violation(bits, &format!("key {} was listed twice", k.val()));
                        }
                    });
                    sched::preempt_point();
                })
            });
            match r {
                Out::Ok(()) => {
                    if got != before {
                        violation(bits, &format!("iteration lists {:?}, expected {:?}", got, before));
                    }
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib(e, bits),
            }
        }
        ITER_MUT => {
            let c = o.c.as_mut().unwrap();
            let r = sut(op, || {
                on!(c, x => for (k, c) in x {
                    as_harness(|| {
                        k.check("iterating");
                        *c = (*c / 2).max(1) + (op.b as usize + k.val() as usize) % 3;
                    });
                    sched::preempt_point();
                })
            });
            match r {
                Out::Ok(()) => {
                    for (k, n) in o.model.iter_mut() {
                        *n = (*n / 2).max(1) + (op.b as usize + *k as usize) % 3;
                    }
                    look(w, o, bits, name)
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib(e, bits),
            }
        }
        READ => {
            let k = K::make(key);
            let c = o.c.as_ref().unwrap();
            let r = sut(op, || on!(c, x => (x.get(&k).copied(), x.contains_key(&k), x.len(), x.is_empty())));
            let e = (before.get(&key).copied(), before.contains_key(&key), before.len(), before.is_empty());
            match r {
                Out::Ok(g) => {
                    if g != e {
                        violation(bits, &format!("reading key {}: {:?}, expected {:?}", key, g, e));
                    }
                }
                Out::Fault(_) => look(w, o, PARTIAL, name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        INSERT | HUGE => {
            let cnt = if op.code == HUGE {
                hit(probe::HUGE);
                [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, u32::MAX as usize][op.b as usize % 9]
            } else {
                1 + op.b as usize % 9
            };
            let k = K::make(key);
            let c = o.c.as_mut().unwrap();
            let r = plain(|| on!(c, x => x.insert(k, cnt)));
            o.model.insert(key, cnt);
            if let Out::Ok(prev) = r {
                if prev != before.get(&key).copied() {
                    violation(bits, &format!("inserting key {}: previous count {:?}, expected {:?}", key, prev, before.get(&key)));
                }
            }
            look(w, o, bits, name);
        }
        REMOVE => {
            let k = K::make(key);
            let c = o.c.as_mut().unwrap();
            let _ = plain(|| on!(c, x => x.remove(&k)));
            o.model.remove(&key);
            look(w, o, bits, name);
        }
        EQ => {
            let p = unsafe { &*w.objs[oj].get() };
            if let (Some(AnyC::Sim(a)), Some(AnyC::Sim(b))) = (o.c.as_ref(), p.c.as_ref()) {
                let e = before == p.model;
                if before.values().chain(p.model.values()).any(|n| *n == 0) {
                    return;
                }
                match sut(op, || (a == b, a != b)) {
                    Out::Ok(g) => {
                        if g != (e, !e) {
                            violation(bits | p.bits, &format!("comparison (==, !=) gives {:?}, expected {}", g, e));
                        }
                    }
                    Out::Fault(_) => look(w, o, PARTIAL, name),
                    Out::Lib(e) => lib(e, bits),
                }
            }
        }
        DEBUG => {
            let c = o.c.as_ref().unwrap();
            if let Out::Lib(e) = plain(|| as_harness(|| on!(c, x => format!("{:?}", x).len()))) {
                lib(e, bits)
            }
        }
        TABLE => {
            let c = o.c.as_mut().unwrap();
            let _ = plain(|| {
                on!(c, x => match op.b % 3 {
                    0 => x.shrink_to_fit(),
                    1 => x.reserve((op.a % 100) as usize * if op.b % 4 == 1 { 8 } else { 1 }),
                    _ => x.retain(|_, n| *n > 1),
                })
            });
            if op.b % 3 == 2 {
                o.model.retain(|_, n| *n > 1);
            }
            look(w, o, bits, name);
        }
        CHURN => {
            // leaves tombstones behind
            let n = if op.b % 8 == 3 { op.a % 700 } else { op.a % 40 };
            let c = o.c.as_mut().unwrap();
            let _ = plain(|| {
                on!(c, x => for i in 0..n {
                    let k = as_harness(|| K::make(1_000_000 + i));
                    x.push(k);
                });
                on!(c, x => for i in 0..n {
                    let k = as_harness(|| K::make(1_000_000 + i));
                    x.remove(&k);
                    as_harness(|| drop(k));
                });
            });
            hit(probe::GROWN);
            look(w, o, bits, name);
        }
        CLEAR => {
            let c = o.c.as_mut().unwrap();
            let _ = plain(|| on!(c, x => x.clear()));
            o.model.clear();
            look(w, o, bits, name);
        }
        _ => {}
    }
    heap_check();
}

fn run_k<K: Key>(plan: &Plan) {
    let n = (plan.get("objs").max(1) as usize).min(4);
    let w: World<K> = World {
        objs: (0..n).map(|_| UnsafeCell::new(Obj { c: None, model: Model::new(), bits: 0 })).collect(),
        keys: plan.get("keys").max(1) as u32,
        views: Cell::new(plan.get("view") as u64),
    };
    let body = |me: usize| {
        if me == 0 {
            for i in 0..n {
                let _h = sched::acquire(&[(i, true)]);
                let o = unsafe { &mut *w.objs[i].get() };
                let a = plan.get(["h0", "h1", "h2", "h3"][i]) as u32;
                match plain(|| fresh::<K>(a % 10, a / 10)) {
                    Out::Ok(c) => install(&w, o, c, Model::new(), CONTENT, "new"),
                    Out::Fault(_) => {}
                    Out::Lib(e) => violation(CONTENT, &format!("new panicked: {}", e)),
                }
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op);
        }
    };
    sched::clients(plan, plan.clients(), n, 256 << 10, &body);
    if !aborted() {
        let last = |_| {
            for i in 0..n {
                let o = unsafe { &mut *w.objs[i].get() };
                sched::note_op("final look and destruction".into());
                look(&w, o, CONTENT, "at the end");
                destroy(o);
            }
        };
        sched::clients(&Plan::default(), 1, 0, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    }
}

pub fn scope(prop: &str) -> u32 {
    match prop {
        "C06" => CONTENT | LIFE,
        "C07" => PARTIAL | LIFE | LEAK,
        "C09" => ENUM | LIFE | LEAK,
        _ => CLONE | LIFE | LEAK,
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, scope(&plan.prop));
    match plan.get("kind") {
        0 => run_k::<Plain>(plan),
        1 => run_k::<Boxed>(plan),
        2 => run_k::<Big>(plan),
        _ => run_k::<Cp>(plan),
    }
    end_checks(true);
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0xC0DE);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("sub", 1);
    p.set("kind", g.pick(&[0, 1, 1, 2, 3]));
    p.set("clients", g.pick(&[1, 2, 2, 3, 4]));
    let objs = g.pick(&[1i64, 2, 2, 3]).max(if prop == "C17" { 2 } else { 1 });
    p.set("objs", objs);
    p.set("fill", g.below(4) as i64);
    p.set("view", g.below(8) as i64);
    p.set("keys", g.pick(&[2, 4, 6, 12, 12, 40, 200]));
    for i in 0..objs as usize {
        p.set(["h0", "h1", "h2", "h3"][i], g.below(400) as i64);
    }
    let big = matches!(prop, "C06" | "C09") && g.chance(if prop == "C09" { 2 } else { 1 }, 400);
    if big {
        p.set("keys", g.pick(&[3000, 20_000, 66_000]));
        p.set("mult", g.pick(&[100, 500]));
    }
    // feeds and merges of hundreds of items
    let medium = !big && g.chance(1, 25);
    if medium {
        p.set("mult", g.pick(&[5, 10, 30]));
    }
    let nops = if big { 10 } else if medium { g.pick(&[8, 16]) } else { crate::ring::long_history(seed).unwrap_or(g.pick(&[6u64, 12, 25, 40])) };
    let all: &[(u8, u64)] = match prop {
        "C06" => &[
            (PUSH, 10), (EXTEND, 6), (EXTEND_REF, 3), (NEW, 1), (FROM_ITER, 2), (FROM_ITER_REF, 2), (FROM_HASHMAP, 1), (FROM_MAP, 2),
            (FROM_MAP_REF, 2), (ADD_ASSIGN, 3), (ADD_ASSIGN_REF, 4), (SUB_ASSIGN, 4), (SUB_ASSIGN_REF, 4), (ADD, 3), (ADD_REF, 3),
            (SUB, 3), (SUB_REF, 3), (CLONE_OP, 2), (MOST, 2), (INTO_MOST, 1), (INTO_ITER, 1), (ITER, 2), (ITER_MUT, 1), (READ, 2),
            (INSERT, 2), (REMOVE, 2), (EQ, 2), (HUGE, 2), (ZERO, 1), (CLONE_FROM, 1), (DEBUG, 1), (TABLE, 2), (CHURN, 2), (CLEAR, 1),
        ],
        "C07" => &[
            (PUSH, 10), (EXTEND, 10), (EXTEND_REF, 4), (NEW, 1), (FROM_ITER, 4), (FROM_ITER_REF, 4), (FROM_MAP, 3), (FROM_MAP_REF, 3),
            (ADD_ASSIGN, 6), (ADD_ASSIGN_REF, 6), (SUB_ASSIGN, 6), (SUB_ASSIGN_REF, 6), (ADD, 3), (ADD_REF, 3), (SUB, 3), (SUB_REF, 3),
            (READ, 3), (INSERT, 3), (REMOVE, 2), (EQ, 2), (TABLE, 2), (CHURN, 2), (CLONE_OP, 1), (CLONE_FROM, 2), (MOST, 1),
        ],
        "C09" => &[
            (PUSH, 8), (EXTEND, 8), (NEW, 1), (FROM_ITER, 2), (FROM_MAP, 4), (ADD_ASSIGN_REF, 2), (SUB_ASSIGN_REF, 2), (MOST, 16),
            (INTO_MOST, 7), (INSERT, 5), (HUGE, 4), (REMOVE, 2), (TABLE, 3), (CHURN, 3), (CLONE_OP, 1), (ITER_MUT, 1),
        ],
        _ => &[
            (PUSH, 10), (EXTEND, 5), (ADD_ASSIGN_REF, 4), (SUB_ASSIGN_REF, 4), (CLONE_OP, 16), (CLONE_FROM, 6), (ZERO, 4), (INSERT, 2), (REMOVE, 3), (ITER_MUT, 3),
            (CLEAR, 1), (INTO_ITER, 1), (CHURN, 2), (EQ, 1), (TABLE, 2),
        ],
    };
    let drop_rate = g.pick(&[0u64, 0, 3, 6]);
    let weights: Vec<(u8, u64)> = all
        .iter()
        .copied()
        .enumerate()
        .filter(|(i, x)| *i < 2 || matches!((prop, x.0), ("C09", MOST | INTO_MOST) | ("C17", CLONE_OP)) || !g.chance(drop_rate, 10))
        .map(|x| x.1)
        .collect();
    let total: u64 = weights.iter().map(|x| x.1).sum();
    let frate = match prop {
        "C07" => g.pick(&[1u64, 4, 7]),
        "C09" | "C17" => g.pick(&[0u64, 0, 3]),
        _ => 0,
    };
    let alloc_only = g.chance(1, 5);
    for _ in 0..nops {
        let mut t = g.below(total);
        let code = weights.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(objs as u64) as u8;
        o.o2 = g.below(objs as u64) as u8;
        o.a = g.below(4096) as u32;
        o.b = g.below(4096) as u32;
        if matches!(code, EXTEND | EXTEND_REF | FROM_ITER | FROM_ITER_REF) {
            o.a = if big { g.below(64) as u32 } else { g.small(63) as u32 };
        }
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match (prop, code) {
                ("C07", PUSH) => &[Fk::Hash, Fk::Eq, Fk::Eq, Fk::Alloc],
                ("C07", EXTEND | FROM_ITER) => &[Fk::Next, Fk::Next, Fk::Hash, Fk::Eq, Fk::Alloc],
                ("C07", EXTEND_REF | FROM_ITER_REF) => &[Fk::Next, Fk::Hash, Fk::Clone, Fk::Clone, Fk::Eq, Fk::Alloc],
                ("C07", ADD_ASSIGN | SUB_ASSIGN | ADD | SUB | FROM_MAP) => &[Fk::Hash, Fk::Eq, Fk::Alloc],
                ("C07", ADD_ASSIGN_REF | SUB_ASSIGN_REF | ADD_REF | SUB_REF | FROM_MAP_REF) => &[Fk::Clone, Fk::Hash, Fk::Eq, Fk::Alloc],
                ("C07", READ | EQ) => &[Fk::Hash, Fk::Eq],
                ("C07", CLONE_OP | CLONE_FROM | MOST) | ("C17", CLONE_OP | CLONE_FROM) | ("C09", MOST) => &[Fk::Clone, Fk::Clone, Fk::Alloc, Fk::AllocAll],
                ("C09", INTO_MOST) => &[Fk::Alloc, Fk::AllocAll],
                _ => &[],
            };
            let kinds: Vec<Fk> = if alloc_only { kinds.iter().copied().filter(|k| matches!(k, Fk::Alloc)).collect() } else { kinds.to_vec() };
            if !kinds.is_empty() {
                let (k, mut n) = shuffle_fault(g, &kinds);
                if k == Fk::Alloc {
                    n = g.small(2) as u32;
                } else if g.chance(1, 4) {
                    n = g.small(if medium { 600 } else { 40 }) as u32;
                }
                o.fk = k;
                o.fnth = n;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
