//! Disjoint-set scenarios (C10, C11, C12, C17): shared sets against a reference partition.

use crate::core::*;
use crate::elem::*;
use crate::hasher::SimState;
use crate::iters::*;
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule, shuffle_fault};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::BuildHasher;
use std::iter::FromIterator;

/// element -> label of its subset
pub type Part = BTreeMap<u32, u32>;

pub const NAMES: [&str; 23] = [
    "make_set", "union", "in_union", "contains", "length", "clear", "reserve", "extend", "extend_ref", "from_iter", "from_iter_ref",
    "clone", "enumerate", "enumerate_part", "enumerate_leak", "enumerate_crash", "new", "union_batch", "reorder_unions", "debug",
    "union_self", "reserve_huge", "clone_from",
];
pub const MAKE: u8 = 0;
pub const UNION: u8 = 1;
pub const IN_UNION: u8 = 2;
pub const CONTAINS: u8 = 3;
pub const LENGTH: u8 = 4;
pub const CLEAR: u8 = 5;
pub const RESERVE: u8 = 6;
pub const EXTEND: u8 = 7;
pub const EXTEND_REF: u8 = 8;
pub const FROM_ITER: u8 = 9;
pub const FROM_ITER_REF: u8 = 10;
pub const CLONE_OP: u8 = 11;
pub const ENUM_ALL: u8 = 12;
pub const ENUM_PART: u8 = 13;
pub const ENUM_LEAK: u8 = 14;
pub const ENUM_CRASH: u8 = 15;
pub const NEW: u8 = 16;
pub const BATCH: u8 = 17;
pub const REORDER: u8 = 18;
pub const DEBUG: u8 = 19;
pub const SELF: u8 = 20;
pub const RESERVE_HUGE: u8 = 21;
pub const CLONE_FROM: u8 = 22;

pub trait DKey: Elem {
    fn extend_refs<S: BuildHasher>(_c: &mut DisjointSet<Self, S>, _s: RefSrc<Self>) -> bool {
        false
    }
}
impl DKey for Plain {}
impl DKey for Boxed {}
impl DKey for Big {}
impl DKey for Cp {
    fn extend_refs<S: BuildHasher>(c: &mut DisjointSet<Self, S>, s: RefSrc<Self>) -> bool {
        c.extend(s);
        true
    }
}

#[derive(Clone)]
pub enum AnyD<K: DKey> {
    Sim(DisjointSet<K, SimState>),
    Rnd(DisjointSet<K, RandomState>),
    Fnv(DisjointSet<K, FnvBuildHasher>),
}
impl<K: DKey> From<DisjointSet<K, SimState>> for AnyD<K> {
    fn from(c: DisjointSet<K, SimState>) -> Self {
        AnyD::Sim(c)
    }
}
impl<K: DKey> From<DisjointSet<K, RandomState>> for AnyD<K> {
    fn from(c: DisjointSet<K, RandomState>) -> Self {
        AnyD::Rnd(c)
    }
}
impl<K: DKey> From<DisjointSet<K, FnvBuildHasher>> for AnyD<K> {
    fn from(c: DisjointSet<K, FnvBuildHasher>) -> Self {
        AnyD::Fnv(c)
    }
}
#[macro_export]
macro_rules! ond {
    ($c:expr, $x:ident => $e:expr) => {
        match $c {
            AnyD::Sim($x) => $e,
            AnyD::Rnd($x) => $e,
            AnyD::Fnv($x) => $e,
        }
    };
}

struct Obj<K: DKey> {
    d: Option<AnyD<K>>,
    part: Part,
    unions: Vec<(u32, u32)>,
    bits: u32,
}
struct World<K: DKey> {
    objs: Vec<UnsafeCell<Obj<K>>>,
    keys: u32,
    /// lookup elements, one per key, and some that are never added
    probes: RefCell<Vec<K>>,
    looks: Cell<u64>,
    leaked: Cell<bool>,
}

pub fn join(p: &mut Part, a: u32, b: u32) {
    p.entry(a).or_insert(a);
    p.entry(b).or_insert(b);
    let (x, y) = (p[&a], p[&b]);
    if x != y {
        for l in p.values_mut() {
            if *l == y {
                *l = x
            }
        }
    }
}
fn classes(p: &Part) -> BTreeMap<u32, BTreeSet<u32>> {
    let mut c: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for (e, l) in p {
        c.entry(*l).or_default().insert(*e);
    }
    c
}
pub fn groups(p: &Part) -> BTreeSet<BTreeSet<u32>> {
    classes(p).into_values().collect()
}
pub fn fresh<K: DKey>(a: u32, b: u32) -> AnyD<K> {
    let cap = (b % 40) as usize;
    match a % 10 {
        0 => DisjointSet::<K, SimState>::new().into(),
        1 => DisjointSet::<K, SimState>::with_capacity(cap).into(),
        2 | 3 | 4 => DisjointSet::with_hasher(SimState::new(b)).into(),
        5 => DisjointSet::with_capacity_and_hasher(cap, SimState::new(b / 40)).into(),
        6 => DisjointSet::<K, RandomState>::new().into(),
        7 => DisjointSet::<K, RandomState>::with_capacity(cap).into(),
        8 => DisjointSet::<K, FnvBuildHasher>::new().into(),
        _ => DisjointSet::<K, FnvBuildHasher>::default().into(),
    }
}

/// Everything the interface says about a set, asked of a copy so that asking changes nothing.
pub fn read<K: DKey>(d: &AnyD<K>, probes: &[K], exp: &Part, seed: u64) -> (Part, usize, bool, Option<String>) {
    let mut part = Part::new();
    let mut odd = None;
    let mut copy = d.clone();
    ond!(&mut copy, x => {
        let mut reps: Vec<usize> = Vec::new();
        for (i, p) in probes.iter().enumerate() {
            let v = p.val();
            let known = x.contains(p);
            if x.in_union(p, p) != known {
                odd = Some(format!("in_union({0},{0}) = {1} but contains({0}) = {2}", v, !known, known));
            }
            if !known {
                continue;
            }
            // the expected representative first; then all others
            let first = exp.get(&v).and_then(|l| reps.iter().position(|r| exp.get(&probes[*r].val()) == Some(l)));
            let mut found = None;
            for k in first.into_iter().chain(0..reps.len()) {
                let r = &probes[reps[k]];
                let together = if mix(seed ^ (i * 31 + k) as u64) & 1 == 0 { x.in_union(p, r) } else { x.in_union(r, p) };
                if together {
                    match found {
                        None => found = Some(reps[k]),
                        Some(f) if f != reps[k] => {
                            odd = Some(format!("{} is together with both {} and {}, which are apart", v, probes[f].val(), r.val()));
                        }
                        _ => {}
                    }
                }
            }
            match found {
                Some(f) => {
                    let l = part[&probes[f].val()];
                    part.insert(v, l);
                }
                None => {
                    reps.push(i);
                    part.insert(v, v);
                }
            }
        }
        let absent = probes.iter().find(|p| !part.contains_key(&p.val()));
        if let (Some(a), Some(r)) = (absent, reps.first()) {
            if x.in_union(a, &probes[*r]) || x.in_union(&probes[*r], a) {
                odd = Some(format!("{} was never added but is together with {}", a.val(), probes[*r].val()));
            }
        }
    });
    let (l, e) = ond!(d, x => (x.len(), x.is_empty()));
    (part, l, e, odd)
}

fn observed<K: DKey>(w: &World<K>, o: &Obj<K>, bits: u32, what: &str) -> Option<Part> {
    if aborted() {
        return None;
    }
    let d = o.d.as_ref()?;
    let n = w.looks.get();
    w.looks.set(n + 1);
    let probes = w.probes.borrow();
    let (part, l, e, odd) = observe(bits, what, || read(d, &probes, &o.part, n))?;
    if let Some(s) = odd {
        violation(bits, &format!("{}: {}", what, s));
    }
    if l != part.len() || e != part.is_empty() {
        violation(bits, &format!("{}: len() = {}, is_empty() = {}, but it contains {:?}", what, l, e, part.keys().collect::<Vec<_>>()));
    }
    if aborted() {
        return None;
    }
    // what an enumeration of a copy says
    if n % 3 == 0 {
        let r = observe(bits | ENUM, what, || {
            let mut copy = d.clone();
            let mut out: Vec<Vec<u32>> = Vec::new();
            ond!(&mut copy, x => for s in x {
                out.push(s.map(|k| { k.check("enumerating"); k.val() }).collect());
            });
            out
        })?;
        check_listing(&r, &part, bits | ENUM, what);
    }
    Some(part)
}
fn look<K: DKey>(w: &World<K>, o: &Obj<K>, bits: u32, what: &str) {
    let bits = bits | o.bits | CONTENT;
    let Some(got) = observed(w, o, bits, what) else { return };
    if aborted() {
        return;
    }
    if groups(&got) != groups(&o.part) {
        violation(bits, &format!("{}: partition is {:?}, expected {:?}", what, groups(&got), groups(&o.part)));
    }
    for (k, c) in classes(&got) {
        trace(mix(k as u64) ^ c.len() as u64);
    }
}
fn check_listing(r: &[Vec<u32>], p: &Part, bits: u32, what: &str) {
    if aborted() {
        return;
    }
    if r.iter().any(|s| s.is_empty()) {
        violation(bits, &format!("{}: an empty subset was listed", what));
    }
    let n: usize = r.iter().map(|s| s.len()).sum();
    let got: BTreeSet<BTreeSet<u32>> = r.iter().map(|s| s.iter().copied().collect()).collect();
    if got != groups(p) || n != p.len() || got.len() != r.len() {
        violation(bits, &format!("{}: lists {:?}, expected {:?}", what, r, groups(p)));
    }
}
fn check_partial(r: &[Vec<u32>], whole: bool, p: &Part, bits: u32, what: &str) {
    let g = groups(p);
    let mut seen = BTreeSet::new();
    for (i, s) in r.iter().enumerate() {
        let set: BTreeSet<u32> = s.iter().copied().collect();
        let fine = set.len() == s.len()
            && set.iter().all(|x| seen.insert(*x))
            && if whole || i + 1 < r.len() { g.contains(&set) } else { g.iter().any(|c| set.is_subset(c)) };
        if !fine {
            violation(bits, &format!("{}: abandoned listing gave {:?} of {:?}", what, r, g));
            return;
        }
    }
    // no two parts of one subset
    let mut labels = BTreeSet::new();
    for s in r {
        if let Some(x) = s.first() {
            if !labels.insert(p.get(x)) {
                violation(bits, &format!("{}: subset of {} was listed twice: {:?}", what, x, r));
            }
        }
    }
}

fn destroy<K: DKey>(o: &mut Obj<K>) {
    if let Some(c) = o.d.take() {
        if let Out::Lib(e) = plain(|| drop(c)) {
            violation(CONTENT | LIFE | o.bits, &format!("destroying a disjoint set panicked: {}", e));
        }
    }
    o.part.clear();
    o.unions.clear();
}
fn install<K: DKey>(w: &World<K>, o: &mut Obj<K>, d: AnyD<K>, part: Part, bits: u32, what: &str) {
    destroy(o);
    o.d = Some(d);
    o.part = part;
    o.bits = bits & CLONE;
    look(w, o, bits, what);
}
fn reset<K: DKey>(w: &World<K>, o: &mut Obj<K>) {
    if let Out::Ok(d) = plain(|| fresh(2, 0)) {
        install(w, o, d, Part::new(), CONTENT, "new");
    }
}
/// After a failed update: some of `new` registered alone, some of `gone` may be missing,
/// and `pair` united or not; nothing else changed.
fn settle<K: DKey>(w: &World<K>, o: &mut Obj<K>, what: &str, new: &[u32], may_vanish: bool, pair: Option<(u32, u32)>) {
    hit(probe::DSINT);
    o.bits |= PARTIAL;
    let bits = PARTIAL | o.bits;
    let base = o.part.clone();
    let Some(got) = observed(w, o, bits, what) else { return };
    if aborted() {
        return;
    }
    let mut e = base.clone();
    for v in new {
        if got.contains_key(v) {
            e.entry(*v).or_insert(*v);
        }
    }
    if may_vanish {
        e.retain(|k, _| got.contains_key(k));
    }
    let mut ok = groups(&e) == groups(&got);
    if let (false, Some((a, b))) = (ok, pair) {
        join(&mut e, a, b);
        ok = groups(&e) == groups(&got);
    }
    if !ok {
        violation(bits, &format!("interrupted {}: partition is {:?}, was {:?}", what, groups(&got), groups(&base)));
    }
    if let Some((a, b)) = pair {
        if got.get(&a).is_some() && got.get(&a) == got.get(&b) {
            o.unions.push((a, b));
        }
    }
    o.part = got;
    look(w, o, bits, what);
}
fn allow_garbage(mark: usize) {
    // a destructor that panics inside the standard table's clear leaks what came after it
    for e in run().reg[..mark].iter_mut() {
        if e.live {
            e.leak_ok = true
        }
    }
}

fn pairs(a: u32, b: u32, keys: u32) -> Vec<(u32, u32)> {
    let n = (2 + a % 16) * run().mult as u32;
    let k = |x: u32| (x + b / 8) % keys;
    (0..n)
        .map(|i| match b % 8 {
            0 => (k(i), k(i + 1)),
            1 => (k(i + 1), k(i)),
            2 => (k(0), k(i)),
            3 => (k(i), k(0)),
            4 => (k(2 * i), k(2 * i + 1)),
            5 => (k(n - i), k(n - i + 1)),
            6 => (k(i), k(i ^ 4)),
            _ => ((mix(b as u64 + i as u64) % keys as u64) as u32, (mix(b as u64 ^ (i as u64) << 9) % keys as u64) as u32),
        })
        .collect()
}

fn exec<K: DKey>(w: &World<K>, op: &Op) {
    let n = w.objs.len();
    let oi = op.o as usize % n;
    let two = matches!(op.code, CLONE_OP | CLONE_FROM | REORDER);
    let oj = if two { op.o2 as usize % n } else { oi };
    if two && oi == oj {
        return;
    }
    let wr = !matches!(op.code, CONTAINS | LENGTH | DEBUG | CLONE_OP | CLONE_FROM);
    let _held = sched::acquire(&[(oi, wr), (oj, if two { true } else { wr })]);
    if aborted() {
        return;
    }
    let o = unsafe { &mut *w.objs[oi].get() };
    let name = NAMES[op.code as usize % NAMES.len()];
    if o.d.is_none() {
        return;
    }
    let bits = CONTENT | o.bits;
    let lib = |e: String, bits: u32| violation(bits, &format!("{} panicked: {}", name, e));
    let (ka, kb) = (op.a % w.keys, op.b % w.keys);
    match op.code {
        MAKE => {
            let k = K::make(ka);
            match sut(op, || ond!(o.d.as_mut().unwrap(), x => x.make_set(k))) {
                Out::Ok(()) => {
                    o.part.entry(ka).or_insert(ka);
                    look(w, o, bits, name)
                }
                Out::Fault(_) => settle(w, o, name, &[ka], false, None),
                Out::Lib(e) => lib(e, bits),
            }
        }
        UNION | SELF => {
            let kb = if op.code == SELF { ka } else { kb };
            let (a, b) = (K::make(ka), K::make(kb));
            let cl = classes(&o.part);
            let size = |k: u32| o.part.get(&k).map(|l| cl[l].len()).unwrap_or(1);
            if size(ka) > 1 && size(kb) > 1 {
                hit(probe::UU);
            }
            match sut(op, || ond!(o.d.as_mut().unwrap(), x => x.union(a, b))) {
                Out::Ok(()) => {
                    join(&mut o.part, ka, kb);
                    o.unions.push((ka, kb));
                    look(w, o, bits, name)
                }
                Out::Fault(_) => settle(w, o, name, &[ka, kb], false, Some((ka, kb))),
                Out::Lib(e) => lib(e, bits),
            }
        }
        BATCH => {
            let ps = pairs(op.a, op.b, w.keys);
            let es: Vec<(K, K)> = ps.iter().map(|(a, b)| (K::make(*a), K::make(*b))).collect();
            let r = sut(op, || {
                ond!(o.d.as_mut().unwrap(), x => for (a, b) in es {
                    x.union(a, b);
                    sched::preempt_point();
                })
            });
            match r {
                Out::Ok(()) => {
                    for (a, b) in ps {
                        join(&mut o.part, a, b);
                        o.unions.push((a, b));
                    }
                    hit(probe::DEEP);
                    look(w, o, bits, name)
                }
                Out::Fault(_) => look(w, o, bits | PARTIAL, name),
                Out::Lib(e) => lib(e, bits),
            }
        }
        IN_UNION | CONTAINS => {
            let ka = if op.a % 16 == 15 { 5000 + ka } else { ka };
            let kb = match op.b % 32 {
                31 => 6000 + kb,
                30 => ka,
                _ => kb,
            };
            let (a, b) = (K::make(ka), K::make(kb));
            let p = &o.part;
            let (e, r) = if op.code == IN_UNION {
                let e = p.contains_key(&ka) && p.get(&ka) == p.get(&kb);
                (e, sut(op, || ond!(o.d.as_mut().unwrap(), x => x.in_union(&a, &b))))
            } else {
                (p.contains_key(&ka), sut(op, || ond!(o.d.as_ref().unwrap(), x => x.contains(&a))))
            };
            match r {
                Out::Ok(g) => {
                    if g != e {
                        violation(bits, &format!("{} of {} and {} gives {}, expected {} in {:?}", name, ka, kb, g, e, groups(&o.part)));
                    }
                    look(w, o, bits, name)
                }
                Out::Fault(_) => {
                    o.bits |= PARTIAL;
                    look(w, o, bits | PARTIAL, name)
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        LENGTH => {
            let d = o.d.as_ref().unwrap();
            if let Out::Ok((l, e)) = plain(|| ond!(d, x => (x.len(), x.is_empty()))) {
                if l != o.part.len() || e != o.part.is_empty() {
                    violation(bits, &format!("len() = {}, is_empty() = {}, expected {} elements", l, e, o.part.len()));
                }
            }
        }
        CLEAR => {
            let mark = run().reg.len();
            match sut(op, || ond!(o.d.as_mut().unwrap(), x => x.clear())) {
                Out::Ok(()) => {
                    o.part.clear();
                    o.unions.clear();
                    look(w, o, bits, name)
                }
                Out::Fault(_) => {
                    allow_garbage(mark);
                    settle(w, o, name, &[], true, None);
                    o.unions.clear();
                }
                Out::Lib(e) => lib(e, bits),
            }
        }
        RESERVE | RESERVE_HUGE => {
            let huge = op.code == RESERVE_HUGE;
            let k = if huge {
                [usize::MAX, usize::MAX / 2, 1 << 60, 1 << 40, usize::MAX / 16 + 1][op.b as usize % 5]
            } else {
                op.a as usize % 200
            };
            match sut(op, || ond!(o.d.as_mut().unwrap(), x => x.reserve(k))) {
                Out::Ok(()) => look(w, o, bits, name),
                Out::Lib(e) if !huge => lib(e, bits),
                _ => {
                    o.bits |= PARTIAL;
                    look(w, o, bits | PARTIAL, name)
                }
            }
        }
        EXTEND | EXTEND_REF | FROM_ITER | FROM_ITER_REF => {
            let v: Vec<u32> = (0..op.a % 24 * run().mult as u32).map(|i| (mix(op.b as u64 ^ (i as u64) << 20) % w.keys as u64) as u32).collect();
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            let cnt = Cell::new(0);
            let mark = run().reg.len();
            let by_ref = matches!(op.code, EXTEND_REF | FROM_ITER_REF);
            let src: Vec<K> = if by_ref { v.iter().map(|x| K::make(*x)).collect() } else { vec![] };
            let mark2 = run().reg.len();
            if matches!(op.code, FROM_ITER | FROM_ITER_REF) {
                let r: Out<AnyD<K>> = if by_ref {
                    sut(op, || {
                        let s = RefSrc::new(&src, op.b, &cnt);
                        match op.b / 8 % 3 {
                            0 => DisjointSet::<K, SimState>::from_iter(s).into(),
                            1 => DisjointSet::<K, RandomState>::from_iter(s).into(),
                            _ => DisjointSet::<K, FnvBuildHasher>::from_iter(s).into(),
                        }
                    })
                } else {
                    sut(op, || {
                        let s = Src::<K>::new(&v, op.b, &log);
                        match op.b / 8 % 3 {
                            0 => DisjointSet::<K, SimState>::from_iter(s).into(),
                            1 => DisjointSet::<K, RandomState>::from_iter(s).into(),
                            _ => DisjointSet::<K, FnvBuildHasher>::from_iter(s).into(),
                        }
                    })
                };
                match r {
                    Out::Ok(d) => install(w, o, d, v.iter().map(|x| (*x, *x)).collect(), bits, name),
                    Out::Fault(_) => {
                        let mk = if by_ref { mark2 } else { mark };
                        if K::TRACKED && run().reg[mk..].iter().any(|e| e.live && e.by == me()) {
                            violation(PARTIAL | LEAK, &format!("{}: an element made during the failed operation was not released", name));
                        }
                        look(w, o, bits | PARTIAL, name)
                    }
                    Out::Lib(e) => lib(e, bits),
                }
                return;
            }
            let d = o.d.as_mut().unwrap();
            let mut used_refs = false;
            let mut r = Out::Ok(());
            if by_ref {
                r = sut(op, || used_refs = ond!(&mut *d, x => K::extend_refs(x, RefSrc::new(&src, op.b, &cnt))));
            }
            if !used_refs && matches!(r, Out::Ok(())) {
                r = sut(op, || ond!(d, x => x.extend(Src::<K>::new(&v, op.b, &log))));
            } else {
                used_refs = true;
            }
            let items: Vec<u32> = if used_refs { v[..cnt.get()].to_vec() } else { log.borrow().iter().map(|x| x.val).collect() };
            match r {
                Out::Ok(()) => {
                    if items.len() != v.len() {
                        violation(bits, &format!("{} took {} of {} items", name, items.len(), v.len()));
                    }
                    for x in items {
                        o.part.entry(x).or_insert(x);
                    }
                    look(w, o, bits, name)
                }
                Out::Fault(_) => settle(w, o, name, &items, false, None),
                Out::Lib(e) => lib(e, bits),
            }
        }
        CLONE_OP => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let cb = bits | CLONE | p.bits;
            let mark = run().reg.len();
            match sut(op, || o.d.as_ref().unwrap().clone()) {
                Out::Ok(d) => {
                    if K::TRACKED {
                        let ps: Vec<u32> =
                            run().reg[mark..].iter().filter(|e| e.parent != NOUID && e.by == me()).map(|e| e.parent).collect();
                        let set: BTreeSet<u32> = ps.iter().copied().collect();
                        if ps.len() != o.part.len() || set.len() != ps.len() {
                            violation(cb, &format!("cloning {} elements made {} clones of {} elements", o.part.len(), ps.len(), set.len()));
                        }
                        if set.iter().any(|u| !run().reg[*u as usize].live) {
                            violation(cb | LIFE, "a destroyed element was cloned");
                        }
                    }
                    o.bits |= CLONE;
                    look(w, o, cb, name);
                    let part = o.part.clone();
                    let un = o.unions.clone();
                    install(w, p, d, part, cb, name);
                    p.unions = un;
                }
                Out::Fault(_) => {
                    hit(probe::CLONEINT);
                    if K::TRACKED && run().reg[mark..].iter().any(|e| e.live && e.by == me()) {
                        violation(CLONE | LEAK | PARTIAL, "an interrupted clone left elements behind");
                    }
                    o.bits |= CLONE | PARTIAL;
                    look(w, o, CLONE | PARTIAL, name);
                    look(w, p, CLONE | PARTIAL, name);
                }
                Out::Lib(e) => lib(e, cb),
            }
        }
        CLONE_FROM => {
            let p = unsafe { &mut *w.objs[oj].get() };
            let Some(dst) = p.d.as_mut() else { return };
            let cb = bits | CLONE | p.bits;
            let mark = run().reg.len();
            let r = sut(op, || match (dst, o.d.as_ref().unwrap()) {
                (AnyD::Sim(x), AnyD::Sim(y)) => x.clone_from(y),
                (AnyD::Rnd(x), AnyD::Rnd(y)) => x.clone_from(y),
                (AnyD::Fnv(x), AnyD::Fnv(y)) => x.clone_from(y),
                (x, y) => *x = y.clone(),
            });
            match r {
                Out::Ok(()) => {
                    p.part = o.part.clone();
                    p.unions = o.unions.clone();
                    p.bits = CLONE;
                    o.bits |= CLONE;
                    look(w, p, cb, name);
                    look(w, o, cb, name);
                }
                Out::Fault(_) => {
                    hit(probe::CLONEINT);
                    o.bits |= CLONE | PARTIAL;
                    look(w, o, CLONE | PARTIAL, name);
                    // whatever the target holds now, it has to be consistent
                    allow_garbage(mark);
                    p.bits |= PARTIAL;
                    if let Some(got) = observed(w, p, PARTIAL | p.bits, name) {
                        if !aborted() && got != p.part && groups(&got) != groups(&p.part) {
                            let src = classes(&o.part);
                            for (a, l) in &got {
                                for (b, l2) in &got {
                                    let apart = |q: &Part| q.contains_key(a) && q.contains_key(b) && q[a] != q[b];
                                    let known = |q: &Part| q.contains_key(a) && q.contains_key(b);
                                    if l == l2 && a != b && (apart(&p.part) || !known(&p.part)) && (apart(&o.part) || !known(&o.part)) {
                                        violation(PARTIAL | p.bits, &format!("interrupted {}: {} and {} got connected; was {:?}, source {:?}", name, a, b, groups(&p.part), src));
                                    }
                                }
                            }
                        }
                        p.unions.clear();
                        for (a, l) in &got {
                            if a != l {
                                p.unions.push((*a, *l));
                            }
                        }
                        p.part = got;
                        look(w, p, PARTIAL | p.bits, name);
                    }
                }
                Out::Lib(e) => lib(e, cb),
            }
        }
        ENUM_ALL..=ENUM_CRASH => {
            let eb = bits | ENUM;
            let limit = if op.code == ENUM_ALL { usize::MAX } else { op.b as usize % 8 };
            let inner = if op.code == ENUM_PART { op.a as usize % 5 } else { usize::MAX };
            let walk = if op.code == ENUM_ALL || op.code == ENUM_PART { op.b / 8 % 16 } else { 0 };
            let groups = groups(&o.part);
            // short steps, or a part of the way
            let limit = match (walk, op.a / 5 % 3) {
                (3 | 7, 0) => groups.len() * (op.b as usize % 8) / 8,
                (3 | 7, _) => op.b as usize % 8,
                (_, 0) if op.code != ENUM_ALL => groups.len() * limit / 8,
                _ => limit,
            };
            let counted = Cell::new(None);
            let out: RefCell<Vec<Vec<u32>>> = RefCell::new(Vec::new());
            let r = sut(op, || {
                ond!(o.d.as_mut().unwrap(), x => {
                    let mut it = x.into_iter();
                    // other ways to walk over (a part of) the enumeration
                    let keep = |s: std::vec::IntoIter<&K>| as_harness(|| {
                        out.borrow_mut().push(s.map(|k| { k.check("enumerating"); k.val() }).collect());
                    });
                    let n = groups.len();
                    let hint = |h: (usize, Option<usize>), left: usize| if h.0 > left || h.1.map_or(false, |u| u < left) {
                        as_harness(|| violation(eb, &format!("{}: size hint {:?} but {} subsets are left", name, h, left)));
                    };
                    hint(it.size_hint(), n);
                    if walk == 1 {
                        let c = it.count();
                        as_harness(|| counted.set(Some(c)));
                        return;
                    }
                    if walk == 2 {
                        if let Some(s) = it.last() { keep(s) }
                        return;
                    }
                    if walk == 3 {
                        let mut k = 0;
                        while let Some(s) = it.nth(limit) {
                            k += limit + 1;
                            hint(it.size_hint(), n - k.min(n));
                            keep(s);
                        }
                        return;
                    }
                    if walk == 4 {
                        it.for_each(keep);
                        return;
                    }
                    if walk == 5 {
                        let _ = it.fold(0, |_, s| { keep(s); 0 });
                        return;
                    }
                    if walk == 6 {
                        let v: Vec<_> = it.collect();
                        v.into_iter().for_each(keep);
                        return;
                    }
                    if walk == 7 {
                        it.step_by(limit + 1).for_each(keep);
                        return;
                    }
                    for _ in 0..limit {
                        let s = match it.next() { Some(s) => s, None => break };
                        as_harness(|| out.borrow_mut().push(Vec::new()));
                        sched::preempt_point();
                        for k in s.take(inner.max(1)) {
                            as_harness(|| {
                                k.check("enumerating");
                                out.borrow_mut().last_mut().unwrap().push(k.val());
                            });
                            sched::preempt_point();
                        }
                    }
                    if op.code == ENUM_CRASH {
                        inject(Fk::Body);
                    }
                    if op.code == ENUM_LEAK {
                        w.leaked.set(true);
                        std::mem::forget(it);
                    }
                })
            });
            let got = out.into_inner();
            for s in &got {
                trace(s.iter().fold(0x11, |a, x| mix(a ^ *x as u64)));
            }
            let whole = inner == usize::MAX;
            match r {
                Out::Ok(()) | Out::Fault(Fk::Body) => {
                    let whole = whole || walk != 0 && walk < 8;
                    let expected = match walk {
                        1 => 0,
                        2 => groups.len().min(1),
                        3 => groups.len() / (limit + 1),
                        4..=6 => groups.len(),
                        7 => (groups.len() + limit) / (limit + 1),
                        _ => limit.min(groups.len()),
                    };
                    if counted.get().map_or(false, |c| c != groups.len()) {
                        violation(eb, &format!("{}: {:?} subsets counted, expected {}", name, counted.get(), groups.len()));
                    }
                    if whole && expected == groups.len() {
                        check_listing(&got, &o.part, eb, name);
                    } else {
                        hit(probe::ENUMAB);
                        if got.len() != expected {
                            violation(eb, &format!("{}: {} subsets listed, expected {}", name, got.len(), expected));
                        }
                        if whole {
                            check_partial(&got, true, &o.part, eb, name);
                        } else {
                            for s in &got {
                                check_partial(std::slice::from_ref(s), false, &o.part, eb, name);
                            }
                            let mut l = BTreeSet::new();
                            for s in &got {
                                if s.first().map_or(true, |x| !l.insert(o.part.get(x).copied())) {
                                    violation(eb, &format!("{}: a subset was listed twice or empty: {:?}", name, got));
                                }
                            }
                        }
                    }
                }
                Out::Fault(_) => {
                    hit(probe::ENUMAB);
                    check_partial(&got, true, &o.part, eb | PARTIAL, name);
                }
                Out::Lib(e) => lib(e, eb),
            }
            o.bits |= ENUM;
            look(w, o, eb, name);
        }
        NEW => match sut(op, || fresh::<K>(op.a, op.b)) {
            Out::Ok(d) => install(w, o, d, Part::new(), bits, name),
            Out::Fault(_) => look(w, o, bits | PARTIAL, name),
            Out::Lib(e) => lib(e, bits),
        },
        REORDER => {
            // the same unions in another order on another set
            let p = unsafe { &mut *w.objs[oj].get() };
            if o.bits & PARTIAL != 0 {
                return;
            }
            let mut un = o.unions.clone();
            let mut g = Rng::new(op.b as u64);
            for i in (1..un.len()).rev() {
                un.swap(i, g.below(i as u64 + 1) as usize);
            }
            for x in un.iter_mut() {
                if g.chance(1, 2) {
                    *x = (x.1, x.0)
                }
            }
            let es: Vec<(K, K)> = un.iter().map(|(a, b)| (K::make(*a), K::make(*b))).collect();
            let alone: Vec<K> = o.part.keys().filter(|_| true).map(|k| K::make(*k)).collect();
            let first = op.a % 2 == 0;
            let r = plain(|| {
                let mut d = as_harness(|| fresh::<K>(op.a / 2, op.b));
                ond!(&mut d, x => {
                    let mut alone = Some(alone);
                    if first {
                        for k in alone.take().unwrap() {
                            x.make_set(k);
                        }
                    }
                    for (a, b) in es {
                        x.union(a, b);
                        sched::preempt_point();
                    }
                    for k in alone.into_iter().flatten() {
                        x.make_set(k);
                    }
                });
                d
            });
            match r {
                Out::Ok(d) => {
                    let part = o.part.clone();
                    install(w, p, d, part, bits, name);
                    p.unions = un;
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib(e, bits),
            }
        }
        DEBUG => {
            let d = o.d.as_ref().unwrap();
            if let Out::Lib(e) = plain(|| as_harness(|| ond!(d, x => format!("{:?}", x).len()))) {
                lib(e, bits)
            }
        }
        _ => {}
    }
    heap_check();
}

fn run_k<K: DKey>(plan: &Plan) {
    let n = (plan.get("objs").max(1) as usize).min(4);
    let keys = plan.get("keys").max(1) as u32;
    let w: World<K> = World {
        objs: (0..n).map(|_| UnsafeCell::new(Obj { d: None, part: Part::new(), unions: Vec::new(), bits: 0 })).collect(),
        keys,
        probes: RefCell::new(Vec::new()),
        looks: Cell::new(plan.get("view") as u64),
        leaked: Cell::new(false),
    };
    let mut order: Vec<u32> = (0..keys).chain(5000..5002).collect();
    let mut g = Rng::new(plan.seed ^ 0x09DE);
    for i in (1..order.len()).rev() {
        order.swap(i, g.below(i as u64 + 1) as usize);
    }
    *w.probes.borrow_mut() = order.into_iter().map(K::make).collect();
    let body = |me: usize| {
        if me == 0 {
            for i in 0..n {
                let _h = sched::acquire(&[(i, true)]);
                let o = unsafe { &mut *w.objs[i].get() };
                let a = plan.get(["h0", "h1", "h2", "h3"][i]) as u32;
                match plain(|| fresh::<K>(a % 10, a / 10)) {
                    Out::Ok(c) => install(&w, o, c, Part::new(), CONTENT, "new"),
                    Out::Fault(_) => {}
                    Out::Lib(e) => violation(CONTENT, &format!("new panicked: {}", e)),
                }
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op);
        }
    };
    sched::clients(plan, plan.clients(), n, 256 << 10, &body);
    if !aborted() {
        let last = |_| {
            for i in 0..n {
                let o = unsafe { &mut *w.objs[i].get() };
                sched::note_op("final look and destruction".into());
                look(&w, o, CONTENT, "at the end");
                destroy(o);
            }
        };
        sched::clients(&Plan::default(), 1, 0, 256 << 10, &last);
    }
    let leaked = w.leaked.get();
    if aborted() {
        std::mem::forget(w);
    } else {
        drop(w);
        end_checks(!leaked);
    }
}

pub fn scope(prop: &str) -> u32 {
    match prop {
        "C10" => CONTENT | LIFE,
        "C11" => ENUM | LIFE,
        "C12" => PARTIAL | LIFE,
        _ => CLONE | LIFE | LEAK,
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, scope(&plan.prop));
    match plan.get("kind") {
        0 => run_k::<Plain>(plan),
        1 => run_k::<Boxed>(plan),
        2 => run_k::<Big>(plan),
        _ => run_k::<Cp>(plan),
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0xD5E7);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("sub", 2);
    p.set("kind", g.pick(&[0, 1, 1, 2, 3, 3]));
    p.set("clients", g.pick(&[1, 2, 2, 3, 4]));
    let objs = g.pick(&[1i64, 2, 2]).max(if prop == "C17" { 2 } else { 1 });
    p.set("objs", objs);
    p.set("fill", g.below(4) as i64);
    p.set("view", g.below(8) as i64);
    p.set("keys", g.pick(&[3, 5, 8, 12, 12, 24, 40]));
    for i in 0..objs as usize {
        p.set(["h0", "h1", "h2", "h3"][i], g.below(400) as i64);
    }
    // more elements than small tables and node lists have room for
    let medium = g.chance(1, 25);
    if medium {
        p.set("keys", g.pick(&[70, 130, 300]));
        p.set("mult", g.pick(&[2, 4, 8]));
    }
    let nops = if medium { g.pick(&[8, 16]) } else { crate::ring::long_history(seed).unwrap_or(g.pick(&[6u64, 12, 25, 40])) };
    let all: &[(u8, u64)] = match prop {
        "C10" => &[
            (UNION, 16), (BATCH, 4), (MAKE, 6), (IN_UNION, 6), (CONTAINS, 3), (LENGTH, 1), (CLEAR, 1), (RESERVE, 1), (EXTEND, 2),
            (EXTEND_REF, 2), (FROM_ITER, 1), (FROM_ITER_REF, 1), (CLONE_OP, 2), (ENUM_ALL, 2), (ENUM_PART, 1), (NEW, 1), (REORDER, 2),
            (DEBUG, 1), (SELF, 1),
        ],
        "C11" => &[
            (UNION, 10), (BATCH, 4), (MAKE, 4), (IN_UNION, 2), (CLEAR, 1), (EXTEND, 2), (FROM_ITER, 1), (FROM_ITER_REF, 1),
            (CLONE_OP, 1), (ENUM_ALL, 10), (ENUM_PART, 4), (ENUM_LEAK, 2), (ENUM_CRASH, 3), (NEW, 1), (RESERVE, 1),
        ],
        "C12" => &[
            (UNION, 14), (MAKE, 8), (BATCH, 2), (IN_UNION, 3), (CONTAINS, 1), (CLEAR, 2), (RESERVE, 2), (EXTEND, 6), (EXTEND_REF, 3),
            (FROM_ITER, 2), (FROM_ITER_REF, 2), (CLONE_OP, 2), (CLONE_FROM, 3), (ENUM_ALL, 2), (ENUM_CRASH, 1), (NEW, 1), (SELF, 1), (RESERVE_HUGE, 1),
        ],
        _ => &[
            (UNION, 10), (BATCH, 3), (MAKE, 5), (CLONE_OP, 12), (CLONE_FROM, 5), (IN_UNION, 3), (CLEAR, 1), (EXTEND, 2), (ENUM_ALL, 2), (FROM_ITER, 1),
            (RESERVE, 1),
        ],
    };
    let drop_rate = g.pick(&[0u64, 0, 3, 6]);
    let weights: Vec<(u8, u64)> = all
        .iter()
        .copied()
        .enumerate()
        .filter(|(i, x)| {
            *i < 2 || matches!((prop, x.0), ("C11", ENUM_ALL..=ENUM_CRASH) | ("C17", CLONE_OP)) || !g.chance(drop_rate, 10)
        })
        .map(|x| x.1)
        .collect();
    let total: u64 = weights.iter().map(|x| x.1).sum();
    let frate = match prop {
        "C12" => g.pick(&[1u64, 4, 7]),
        "C11" | "C17" => g.pick(&[0u64, 0, 3]),
        _ => 0,
    };
    let alloc_only = g.chance(1, 5);
    for _ in 0..nops {
        let mut t = g.below(total);
        let code = weights.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(objs as u64) as u8;
        o.o2 = g.below(objs as u64) as u8;
        o.a = g.below(4096) as u32;
        o.b = g.below(4096) as u32;
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match (prop, code) {
                ("C12", MAKE | UNION | SELF) => &[Fk::Hash, Fk::Eq, Fk::Eq, Fk::Alloc, Fk::Drop],
                ("C12", EXTEND | FROM_ITER) => &[Fk::Next, Fk::Next, Fk::Hash, Fk::Eq, Fk::Alloc, Fk::Drop],
                ("C12", EXTEND_REF | FROM_ITER_REF) => &[Fk::Next, Fk::Hash, Fk::Clone, Fk::Eq, Fk::Alloc, Fk::Drop],
                ("C12", IN_UNION | CONTAINS) => &[Fk::Hash, Fk::Eq],
                ("C12", CLEAR) => &[Fk::Drop],
                ("C12", RESERVE) => &[Fk::Alloc, Fk::AllocAll],
                ("C12" | "C17", CLONE_OP | CLONE_FROM) => &[Fk::Clone, Fk::Clone, Fk::Alloc, Fk::AllocAll],
                (_, ENUM_ALL | ENUM_PART) => &[Fk::Alloc, Fk::Alloc, Fk::AllocAll],
                _ => &[],
            };
            let kinds: Vec<Fk> = if alloc_only { kinds.iter().copied().filter(|k| matches!(k, Fk::Alloc)).collect() } else { kinds.to_vec() };
            if !kinds.is_empty() {
                let (k, mut n) = shuffle_fault(g, &kinds);
                if k == Fk::Alloc {
                    n = g.small(if matches!(code, ENUM_ALL | ENUM_PART) { 8 } else { 3 }) as u32;
                } else if g.chance(1, 4) {
                    n = g.small(if medium { 150 } else { 20 }) as u32;
                }
                o.fk = k;
                o.fnth = n;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}

// ---------------------------------------------------------------------------------------
// C13: large adversarial union orders on a small stack

pub const DEEP_NAMES: [&str; 5] = ["unite", "query", "enumerate", "clone_and_query", "register"];
const UNITE: u8 = 0;
const QUERY: u8 = 1;
const LISTALL: u8 = 2;
const CLONEQ: u8 = 3;
const REGISTER: u8 = 4;
/// what a client has; measured: see DESIGN.md
const STACK: usize = 256 << 10;
const LIMIT: usize = 6 << 10;
/// for enumerations: sorting takes several KB, whatever the number of elements
const LIST_LIMIT: usize = 24 << 10;
const ROOMY: usize = 256 << 20;

struct Uf {
    parent: Vec<u32>,
    size: Vec<u32>,
    known: Vec<bool>,
    n: usize,
}
impl Uf {
    fn find(&mut self, mut x: u32) -> u32 {
        while self.parent[x as usize] != x {
            let g = self.parent[self.parent[x as usize] as usize];
            self.parent[x as usize] = g;
            x = g;
        }
        x
    }
    fn add(&mut self, x: u32) {
        if !self.known[x as usize] {
            self.known[x as usize] = true;
            self.n += 1;
        }
    }
    fn unite(&mut self, a: u32, b: u32) {
        self.add(a);
        self.add(b);
        let (mut x, mut y) = (self.find(a), self.find(b));
        if x == y {
            return;
        }
        if self.size[x as usize] < self.size[y as usize] {
            std::mem::swap(&mut x, &mut y);
        }
        self.parent[y as usize] = x;
        self.size[x as usize] += self.size[y as usize];
    }
}

/// Fills the unused part of the client's own stack below the current frame with a pattern;
/// returns the upper end of the painted area.
#[inline(never)]
fn paint(n: usize) -> usize {
    let mark = 0u64;
    let top = (std::hint::black_box(&mark) as *const u64 as usize - 384) & !63;
    let mut p = top;
    while p > top - n {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(0x57AC_57AC_57AC_57AC) }
    }
    top
}
/// how deep below `top` something was written since it was painted
#[inline(never)]
fn touched(top: usize, n: usize) -> usize {
    let mut p = top - n;
    while p < top && unsafe { (p as *const u64).read_volatile() } == 0x57AC_57AC_57AC_57AC {
        p += 8;
    }
    top - p
}
#[inline(never)]
fn measured(what: &str, f: &mut dyn FnMut()) -> Option<()> {
    const N: usize = 96 << 10;
    let top = paint(N);
    let r = observe(CONTENT | STEPS, what, f);
    let used = touched(top, N);
    trace(0x57AC);
    let st = stats();
    st.stack = st.stack.max(used as u64);
    let limit = if what == DEEP_NAMES[LISTALL as usize] { LIST_LIMIT } else { LIMIT };
    if used > limit {
        violation(STEPS, &format!("{}: more than {} bytes of stack were used", what, limit));
    }
    r
}

fn order_of(pattern: u32, i: u32, n: u32, salt: u32) -> (u32, u32) {
    let h = |x: u32| (mix(x as u64 ^ (salt as u64) << 32) % n as u64) as u32;
    match pattern % 16 {
        0 => (i, i + 1),
        1 => (i + 1, i),
        2 => (n - i, n - i - 1),
        3 => (n - i - 1, n - i),
        4 => (0, i + 1),
        5 => (i + 1, 0),
        6 | 7 => {
            let p = 1u32 << (31 - n.leading_zeros());
            let (a, b) = if i + 1 < p { tournament(i, p) } else { (0, i + 1) };
            if pattern % 16 == 6 { (a, b) } else { (b, a) }
        }
        8 => (h(i), h(i + n)),
        9 => (i, h(i) % (i + 1)),
        10 => (h(i) % (i + 1), i),
        11 => {
            if i % 2 == 0 {
                (i, i + 1)
            } else {
                (i + 1, i)
            }
        }
        14 | 15 => {
            let (a, b) = rank_trap(pattern, i, salt);
            (a.min(n), b.min(n))
        }
        _ => {
            // a chain of equally ranked blocks, linked at their roots
            let size = 2u32 << (salt % 6);
            let (k, j) = (i / size, i % size);
            let (a, b) = if j + 1 < size {
                let (x, y) = tournament(j, size);
                (k * size + x, k * size + y)
            } else {
                (k * size, k.max(1) * size - size)
            };
            let (a, b) = (a.min(n), b.min(n));
            if pattern % 16 == 12 { (a, b) } else { (b, a) }
        }
    }
}
/// the i-th of the p-1 unions that pair up p elements level by level (worst case for ranks)
fn tournament(i: u32, p: u32) -> (u32, u32) {
    let (mut rem, mut cnt, mut l) = (i, p / 2, 0);
    while rem >= cnt && cnt > 0 {
        rem -= cnt;
        cnt /= 2;
        l += 1;
    }
    let step = 1u32 << l;
    (rem * 2 * step, rem * 2 * step + step)
}

/// the k-th element (of 0..=n) to register: decides which nodes are neighbours
fn register_order(pattern: u32, k: u32, n: u32) -> u32 {
    match pattern % 4 {
        0 => k,
        1 => n - k,
        2 => {
            // far apart first: 0, n/2, n/4, 3n/4, ...; elements beyond the power of two last
            let p = 1u32 << (31 - (n + 1).leading_zeros());
            if k < p && p > 1 { k.reverse_bits() >> (32 - p.trailing_zeros()) } else { k }
        }
        _ => {
            let mut step = 514_229 % (n as u64 + 1);
            while gcd(step, n as u64 + 1) != 1 {
                step += 1;
            }
            (k as u64 * step % (n as u64 + 1)) as u32
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

struct Deep {
    d: UnsafeCell<(AnyD<Cp>, Uf)>,
}
pub fn execute_deep(plan: &Plan) {
    // C10 and C11 use the same large histories, without a bound on the stack
    let small = plan.prop == "C13";
    begin(plan, if plan.prop == "C11" { ENUM } else { CONTENT });
    let stack = if small { STACK } else { ROOMY };
    let measured = |what: &str, f: &mut dyn FnMut()| if small { measured(what, f) } else { observe(CONTENT | ENUM, what, f) };
    let max = plan.get("n").max(2) as u32;
    let w: UnsafeCell<Option<Deep>> = UnsafeCell::new(None);
    let body = |me: usize| {
        {
            let _h = sched::acquire(&[(0, true)]);
            let w = unsafe { &mut *w.get() };
            if w.is_none() {
                let uf = Uf { parent: (0..max + 2).collect(), size: vec![1; max as usize + 2], known: vec![false; max as usize + 2], n: 0 };
                *w = Some(Deep { d: UnsafeCell::new((fresh(plan.get("h0") as u32, plan.get("h0") as u32 / 10), uf)) });
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, DEEP_NAMES[op.code as usize % 5]);
            let name = DEEP_NAMES[op.code as usize % 5];
            match op.code {
                UNITE | REGISTER => {
                    // in chunks, so that clients interleave inside a long union sequence
                    let (pat, salt, n) = (op.a, op.b, max);
                    let from = op.o as u32 * n / 8;
                    let len = n * (1 + op.o2 as u32 % 8) / 8;
                    let mut i = 0;
                    while i < len && !aborted() {
                        let _h = sched::acquire(&[(0, true)]);
                        let (d, uf) = unsafe { &mut *(*w.get()).as_ref().unwrap().d.get() };
                        let end = len.min(i + 4000);
                        let done = measured(name, &mut || {
                            for k in i..end {
                                let k = if op.code == UNITE { (k + from) % n } else { (k + from) % (n + 1) };
                                if op.code == UNITE {
                                    let (a, b) = order_of(pat, k, n, salt);
                                    ond!(&mut *d, x => x.union(Cp::make(a), Cp::make(b)));
                                    uf.unite(a, b);
                                } else {
                                    let k = register_order(pat, k, n);
                                    ond!(&mut *d, x => x.make_set(Cp::make(k)));
                                    uf.add(k);
                                }
                            }
                        });
                        if done.is_none() {
                            break;
                        }
                        i = end;
                        drop(_h);
                        sched::preempt_point();
                    }
                    hit(probe::DEEP);
                }
                QUERY | CLONEQ => {
                    let _h = sched::acquire(&[(0, true)]);
                    let (d, uf) = unsafe { &mut *(*w.get()).as_ref().unwrap().d.get() };
                    let mut copy = None;
                    if op.code == CLONEQ {
                        measured("clone", &mut || copy = Some(d.clone()));
                        if copy.is_none() {
                            continue;
                        }
                    }
                    let d = copy.as_mut().unwrap_or(d);
                    let qs: Vec<(u32, u32)> = (0..64u32)
                        .map(|i| match i % 4 {
                            0 => (i / 4, max.saturating_sub(i / 4)),
                            1 => (max / 2 + i, i),
                            _ => (
                                (mix(op.a as u64 + i as u64) % (max as u64 + 1)) as u32,
                                (mix(op.b as u64 ^ (i as u64) << 13) % (max as u64 + 1)) as u32,
                            ),
                        })
                        .map(|(a, b)| (a.min(max), b.min(max)))
                        .collect();
                    let mut r = Vec::new();
                    let ok = measured(name, &mut || r = qs.iter().map(|(a, b)| ond!(&mut *d, x => x.in_union(&Cp::make(*a), &Cp::make(*b)))).collect());
                    if ok.is_some() {
                        for ((a, b), g) in qs.iter().zip(r) {
                            let e = uf.known[*a as usize] && uf.known[*b as usize] && uf.find(*a) == uf.find(*b);
                            if g != e {
                                violation(CONTENT, &format!("in_union({}, {}) = {}, expected {}", a, b, g, e));
                            }
                        }
                    }
                    measured("destruction", &mut || drop(copy.take()));
                }
                _ => {
                    let _h = sched::acquire(&[(0, true)]);
                    let (d, uf) = unsafe { &mut *(*w.get()).as_ref().unwrap().d.get() };
                    let (mut sets, mut elems, mut odd) = (0usize, 0usize, None);
                    let mut seen = vec![0u32; max as usize + 2];
                    let ok = measured(name, &mut || {
                        ond!(&mut *d, x => for s in x {
                            sets += 1;
                            let mut root = None;
                            for k in s {
                                let v = k.val();
                                elems += 1;
                                if v > max || seen[v as usize] != 0 {
                                    odd = Some(format!("{} was listed twice or was never added", v));
                                    continue;
                                }
                                seen[v as usize] = sets as u32;
                                let r = uf.find(v);
                                if *root.get_or_insert(r) != r {
                                    odd = Some(format!("{} was listed with elements of another subset", v));
                                }
                            }
                            if root.is_none() {
                                odd = Some("an empty subset was listed".into());
                            }
                        });
                    });
                    let mut roots = 0;
                    for x in 0..uf.parent.len() as u32 {
                        if uf.known[x as usize] && uf.find(x) == x {
                            roots += 1;
                        }
                    }
                    if ok.is_some() && !aborted() {
                        if (sets, elems) != (roots, uf.n) {
                            odd = Some(format!("{} subsets with {} elements were listed, expected {} with {}", sets, elems, roots, uf.n));
                        }
                        if let Some(odd) = odd {
                            violation(CONTENT | ENUM, &format!("enumeration: {}", odd));
                        }
                        let l = ond!(&*d, x => x.len());
                        if l != uf.n {
                            violation(CONTENT, &format!("len() = {}, expected {}", l, uf.n));
                        }
                    }
                }
            }
        }
    };
    sched::clients(plan, plan.clients(), 1, stack, &body);
    if !aborted() {
        let last = |_| {
            sched::note_op("final queries, enumeration and destruction".into());
            let d = unsafe { (*w.get()).take().unwrap() };
            let (mut d, mut uf) = d.d.into_inner();
            let ends = [0, 1, max / 2, max - 1, max];
            for a in ends {
                for b in ends {
                    let e = uf.known[a as usize] && uf.known[b as usize] && uf.find(a) == uf.find(b);
                    let mut g = e;
                    if measured("query", &mut || g = ond!(&mut d, x => x.in_union(&Cp::make(a), &Cp::make(b)))).is_some() {
                        if g != e {
                            violation(CONTENT, &format!("in_union({}, {}) = {}, expected {}", a, b, g, e));
                        }
                    }
                }
            }
            // every element with the head of its subset, and the heads among each other
            let mut wrong = None;
            measured("query", &mut || {
                let mut head = None;
                for x in 0..=max {
                    if !uf.known[x as usize] {
                        continue;
                    }
                    let r = uf.find(x);
                    if !ond!(&mut d, s => s.in_union(&Cp::make(x), &Cp::make(r))) {
                        wrong = Some((x, r, false));
                    }
                    if r == x {
                        if let Some(h) = head {
                            if ond!(&mut d, s => s.in_union(&Cp::make(x), &Cp::make(h))) {
                                wrong = Some((x, h, true));
                            }
                        }
                        head = Some(x);
                    }
                }
            });
            if let Some((a, b, g)) = wrong {
                violation(CONTENT, &format!("in_union({}, {}) = {}, expected {}", a, b, g, !g));
            }
            let mut d = Some(d);
            measured("destruction", &mut || drop(d.take()));
        };
        sched::clients(&Plan::default(), 1, 0, stack, &last);
    }
}
/// Some C10 and C11 runs build one large set
pub fn is_large(seed: u64) -> bool {
    mix(seed ^ 0x1A46E) % 200 == 0
}
pub fn gen_deep(prop: &str, seed: u64, deep: bool) -> Plan {
    let mut g = Rng::new(seed ^ 0xDEE9);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("deep", 1);
    p.set("clients", g.pick(&[1, 1, 2, 3]));
    let big = if deep { [30_000i64, 100_000, 400_000, 1_000_000] } else { [10_000, 20_000, 50_000, 150_000] };
    let big = if prop == "C13" { big } else { [300, 1000, 5000, 65_536] };
    p.set("n", if g.chance(1, 2) { g.range(2, 3000) } else { g.pick(&big) + g.range(0, 50) });
    p.set("h0", g.pick(&[2i64, 3, 5, 6, 8, 8, 9]) + 10 * g.pick(&[0i64, 1, 4]));
    let nops = 1 + g.below(6);
    let pat = if g.chance(1, 5) { 14 + g.below(2) as u32 } else { g.below(14) as u32 };
    let trap = pat >= 14 && prop == "C13" && g.chance(4, 5);
    if trap {
        // depth can only grow with the square root of the number of unions
        p.set("n", g.range(100_000, if pat == 15 || deep { 600_000 } else { 400_000 }));
    }
    for i in 0..nops.max(if trap { 2 } else { 1 }) {
        let mut o = Op::new(if i == 0 { g.pick(&[UNITE, UNITE, REGISTER]) } else { g.pick(&[UNITE, UNITE, UNITE, QUERY, QUERY, LISTALL, CLONEQ, REGISTER]) });
        o.client = g.below(p.clients() as u64) as u8;
        o.a = if g.chance(2, 3) { pat } else { g.below(16) as u32 };
        o.b = g.below(4096) as u32;
        o.o = if g.chance(2, 3) { 0 } else { g.below(8) as u8 };
        o.o2 = if g.chance(2, 3) { 7 } else { g.below(8) as u8 };
        if trap && i < 2 {
            o.code = if i == 0 { UNITE } else { g.pick(&[QUERY, LISTALL, CLONEQ]) };
            (o.client, o.a, o.o, o.o2) = (0, pat, 0, 7);
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
