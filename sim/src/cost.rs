//! Services that run for a long time: how much memory the collections hold (C18) and how
//! many steps of virtual time their operations take (C24).  The plan's operations are
//! repeated for `rounds` rounds, with keys from a fixed universe.

use crate::clock;
use crate::core::*;
use crate::hasher::SimState;
use crate::heap;
use crate::plan::*;
use crate::rng::{mix, Rng};
use advanced_collections::circular_buffer::CircularBuffer;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hash, Hasher};
use std::iter::FromIterator;

// ---- elements: plain values whose callbacks can fail ----
pub trait El: Clone + Eq + Ord + Hash + std::fmt::Debug + 'static {
    fn make(x: u32) -> Self;
    fn val(&self) -> u32;
}
macro_rules! element {
    ($name:ident, $pad:expr) => {
        #[derive(Debug)]
        pub struct $name {
            v: u32,
            _pad: [u32; $pad],
        }
        impl El for $name {
            fn make(x: u32) -> Self {
                $name { v: x, _pad: [x; $pad] }
            }
            fn val(&self) -> u32 {
                self.v
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                cb(Fk::Clone);
                $name { v: self.v, _pad: self._pad }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                cb(Fk::Drop);
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                cb(Fk::Hash);
                h.write_u32(self.v);
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                cb(Fk::Eq);
                self.v == o.v
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                cb(Fk::Cmp);
                Some(self.v.cmp(&o.v))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                cb(Fk::Cmp);
                self.v.cmp(&o.v)
            }
        }
    };
}
element!(Small, 1);
element!(Fat, 33);

fn cb(k: Fk) {
    if TLS.with(|t| t.in_sut.get()) {
        fault_point(k);
    }
}

/// A source of items that can fail before each of them.
struct Items {
    u: u32,
    at: u32,
    step: u32,
    left: usize,
    exact: bool,
}
impl Items {
    fn next_val(&mut self) -> Option<u32> {
        cb(Fk::Next);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let v = self.at % self.u;
        self.at = (v + self.step) % self.u;
        Some(v)
    }
}
struct Owned<T>(Items, std::marker::PhantomData<T>);
impl<T: El> Iterator for Owned<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next_val().map(T::make)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.0.exact {
            (self.0.left, Some(self.0.left))
        } else {
            (0, None)
        }
    }
}
struct Refs<'a, T>(Items, &'a [T]);
impl<'a, T: El> Iterator for Refs<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next_val().map(|v| &self.1[v as usize])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.0.exact {
            (self.0.left, Some(self.0.left))
        } else {
            (0, None)
        }
    }
}

// ---- common ----
struct World<'a> {
    plan: &'a Plan,
    /// number of different keys
    u: usize,
    k: usize,
    round: u32,
    worst: Vec<(f64, u64, u64)>,
}
thread_local! {
    static NOW_OP: Cell<(u32, u8, u32, u64)> = const { Cell::new((0, 0, 0, 0)) };
}
pub fn overrun() {
    let (r, c, i, b) = NOW_OP.with(|x| x.get());
    violation(COST | STEPS, &format!("round {}, call {} of {}: still running after {} steps of virtual time", r, i, crate::props::op_name("C24", &Plan { prop: "C24".into(), ..KIND_PLAN.with(|k| { let mut p = Plan::default(); p.set("kind", k.get()); p }) }, c), b));
}
thread_local! {
    static KIND_PLAN: Cell<i64> = const { Cell::new(0) };
}

/// steps of virtual time one unit of work may take; about ten times what it takes
const UNIT: u64 = 600;

impl<'a> World<'a> {
    fn time(&self) -> bool {
        clock::ON && self.plan.prop == "C24"
    }
    fn items(&self, op: &Op, n: usize) -> Items {
        let u = self.u as u32;
        Items {
            u,
            at: op.a.wrapping_add(self.round.wrapping_mul(op.b % 17)) % u,
            step: [1, 1, 7, u.wrapping_sub(1), 31][(op.b / 17 % 5) as usize] % u.max(2),
            left: n,
            exact: op.b / 85 % 3 != 0,
        }
    }
    /// how many items this operation handles
    fn n(&self, op: &Op) -> usize {
        let k = self.k;
        match op.a / 4096 % 4 {
            0 => 1,
            1 => 1 + op.a as usize % 8,
            2 => k / 3 + 1,
            _ => k,
        }
    }
    /// One library call that handles `units` units of work.
    fn call<R>(&mut self, op: &Op, i: usize, units: u64, f: impl FnOnce() -> R) -> Out<R> {
        if !self.time() {
            return sut(op, f);
        }
        let budget = (units + 2) * UNIT;
        NOW_OP.with(|x| x.set((self.round, op.code, i as u32, 4 * budget)));
        let t0 = clock::now();
        clock::limit(t0 + 4 * budget);
        let r = sut(op, f);
        clock::limit(u64::MAX);
        let t = clock::now() - t0;
        stats().vclock += t;
        trace(t);
        let c = op.code as usize;
        if self.worst.len() <= c {
            self.worst.resize(c + 1, (0.0, 0, 0));
        }
        let q = t as f64 / budget as f64;
        if q > self.worst[c].0 {
            self.worst[c] = (q, t, units);
        }
        if t > budget {
            violation(
                COST,
                &format!("round {}, call {}: took {} steps of virtual time for {} units of work, at most {} expected", self.round, i, t, units, budget),
            );
        }
        r
    }
}
fn lib(e: String, what: &str) {
    violation(SPACE | COST, &format!("{} panicked: {}", what, e));
}
/// after every operation
fn space(bound: usize, what: &dyn Fn() -> String) {
    heap_check();
    let b = heap::SUT_BYTES.load(std::sync::atomic::Ordering::Relaxed);
    trace(b as u64);
    stats().space = stats().space.max(b.max(0) as u64);
    if std::env::var_os("ADVSIM_CAL").is_some() {
        say(&format!("CALS {:.3} {} {}", b as f64 / bound as f64, b, what()));
    }
    if b > bound as i64 {
        violation(SPACE, &format!("{}: the collections hold {} bytes; what they store needs at most {}", what(), b, bound));
    }
}
fn lg(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64 + 1
}

fn rounds(plan: &Plan, mut f: impl FnMut(u32, usize, &Op)) {
    let mut prev = 255;
    for r in 0..plan.get("rounds").max(1) as u32 {
        for (i, op) in plan.ops.iter().enumerate() {
            if aborted() {
                return;
            }
            if run().verbose && r < 3 {
                say(&format!("  round {} op {} client {}: {} a={} b={} fault={}@{}", r, i, op.client, crate::props::op_name(&plan.prop, plan, op.code), op.a, op.b, FK_NAMES[op.fk as usize], op.fnth));
            }
            if prev != op.client {
                prev = op.client;
                stats().switches += 1;
                run().ileave = mix(run().ileave ^ (i as u64) << 8 ^ op.client as u64);
            }
            stats().ops += 1;
            run().step += 1;
            trace(op.code as u64);
            // faults strike in some of the rounds
            let mut o = *op;
            if o.fk != Fk::None && plan.get("always") == 0 && mix(plan.seed ^ ((r as u64) << 20) ^ i as u64) % 3 == 0 {
                o.fk = Fk::None;
            }
            f(r, i, &o);
        }
    }
}

// ---- circular buffers ----
pub const RING_NAMES: [&str; 22] = [
    "push_back", "push_front", "pop_back", "pop_front", "access", "swap", "extend", "extend_ref", "drain", "clear", "resize", "clone",
    "clone_from", "append", "from_vec", "from_iter", "into_iter", "linearize", "reverse", "compare", "iterate", "drop",
];
fn ring<T: El>(plan: &Plan) {
    let k = plan.get("k").max(1) as usize;
    let mut w = World { plan, u: plan.get("u").max(1) as usize, k, round: 0, worst: vec![] };
    let all: Vec<T> = (0..w.u as u32).map(T::make).collect();
    let caps = [plan.get("cap0") as usize, plan.get("cap1") as usize];
    let mut cb: Vec<CircularBuffer<T>> = Vec::with_capacity(2);
    for i in 0..2 {
        match plain(|| CircularBuffer::new(caps[i])) {
            Out::Ok(c) => cb.push(c),
            _ => return violation(SPACE | COST, "new panicked"),
        }
    }
    rounds(plan, |r, _, op| {
        w.round = r;
        let o = op.o as usize % 2;
        let p = 1 - o;
        let n = w.n(op);
        let (len, cap) = (cb[o].len() as u64, cb[o].capacity() as u64);
        let (plen, pcap) = (cb[p].len() as u64, cb[p].capacity() as u64);
        let wide = 1 + std::mem::size_of::<T>() as u64 / 32;
        let res: Out<()> = match op.code {
            0..=3 => {
                let mut it = w.items(op, n);
                let mut r = Out::Ok(());
                for i in 0..n {
                    let x = &mut cb[o];
                    let v = T::make(it.next_val().unwrap_or(0));
                    r = w.call(op, i, 1, || match op.code {
                        0 => x.push_back(v),
                        1 => x.push_front(v),
                        2 => drop(x.pop_back()),
                        _ => drop(x.pop_front()),
                    });
                    if !matches!(r, Out::Ok(_)) {
                        break;
                    }
                }
                r
            }
            4 => {
                let mut r = Out::Ok(());
                for i in 0..n.min(200) {
                    let x = &mut cb[o];
                    r = w.call(op, i, 2, || {
                        let _ = (x.first().is_some(), x.last().is_some(), x.is_empty(), x.is_full(), x.capacity());
                        let _ = (x.first_mut().is_some(), x.last_mut().is_some(), x.slices().0.len(), x.slices_mut().1.len());
                        let l = x.len();
                        if l > 0 {
                            let j = mix(op.a as u64 ^ (i as u64) << 32) as usize % l;
                            std::hint::black_box(&x[j]);
                            std::hint::black_box(&mut x[l - 1 - j]);
                        }
                    });
                }
                r
            }
            5 => {
                let mut r = Out::Ok(());
                for i in 0..if len > 0 { n.min(200) } else { 0 } {
                    let x = &mut cb[o];
                    let (a, b) = (mix(op.a as u64 ^ (i as u64) << 32) % len, mix(op.b as u64 ^ (i as u64) << 32) % len);
                    r = w.call(op, i, 1, || x.swap(a as usize, b as usize));
                }
                r
            }
            6 => {
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let x = &mut cb[o];
                w.call(op, 0, (n as u64 + len) * wide, || x.extend(it))
            }
            7 => {
                let it = Refs(w.items(op, n), &all);
                let x = &mut cb[o];
                w.call(op, 0, (n as u64 + len) * wide, || x.extend(it))
            }
            8 => {
                let x = &mut cb[o];
                w.call(op, 0, (n as u64 + len) * wide, || {
                    let mut d = x.drain();
                    for _ in 0..n {
                        if d.next().is_none() {
                            break;
                        }
                    }
                    if op.b % 3 == 0 {
                        std::mem::forget(d);
                    }
                })
            }
            9 => {
                let x = &mut cb[o];
                w.call(op, 0, len * wide, || x.clear())
            }
            10 => {
                let c = [caps[0], caps[1], n % (caps[0] + 1), caps[0] + caps[1]][op.b as usize % 4];
                let x = &mut cb[o];
                w.call(op, 0, (cap + c as u64) * wide, || x.resize(c))
            }
            11 => {
                let (x, y) = two(&mut cb, o);
                w.call(op, 0, (cap + pcap) * wide, || *y = x.clone())
            }
            12 => {
                let (x, y) = two(&mut cb, o);
                w.call(op, 0, (cap + pcap) * wide, || y.clone_from(x))
            }
            13 => {
                let (x, y) = two(&mut cb, o);
                w.call(op, 0, (len + plen) * wide, || x.append(y))
            }
            14 => {
                let n = n.min(caps[0].max(caps[1]) + 1);
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let spare = [0, 1, n, 4 * n][op.b as usize / 4 % 4];
                let x = &mut cb[o];
                w.call(op, 0, (cap + (n + spare) as u64) * wide, || {
                    let mut v = Vec::with_capacity(n + spare);
                    v.extend(it);
                    *x = CircularBuffer::from(v);
                })
            }
            15 => {
                let n = n.min(caps[0].max(caps[1]) + 1);
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let rf = Refs(w.items(op, n), &all);
                let x = &mut cb[o];
                w.call(op, 0, (cap + n as u64) * 2 * wide, || *x = if op.b % 2 == 0 { CircularBuffer::from_iter(it) } else { CircularBuffer::from_iter(rf) })
            }
            16 => {
                let x = std::mem::replace(&mut cb[o], CircularBuffer::new(0));
                let r = w.call(op, 0, len * wide, || {
                    let mut it = x.into_iter();
                    for _ in 0..n {
                        if it.next().is_none() {
                            break;
                        }
                    }
                });
                renew(&mut cb[o], caps[o]);
                r
            }
            17 => {
                let x = &mut cb[o];
                w.call(op, 0, cap * wide, || {
                    x.linearize();
                })
            }
            18 => {
                let x = &mut cb[o];
                w.call(op, 0, cap * wide, || x.reverse())
            }
            19 => {
                let (x, y) = two(&mut cb, o);
                w.call(op, 0, len.min(plen), || {
                    let _ = (&*x == &*y, (*x).cmp(y), (*x).partial_cmp(y));
                })
            }
            20 => {
                let x = &mut cb[o];
                w.call(op, 0, len, || {
                    let a = x.iter().rev().map(|e| e.val() as u64).sum::<u64>();
                    let b = x.iter_mut().map(|e| e.val() as u64).sum::<u64>();
                    std::hint::black_box((a, b));
                })
            }
            _ => {
                let x = std::mem::replace(&mut cb[o], CircularBuffer::new(0));
                let r = w.call(op, 0, len * wide, || drop(x));
                renew(&mut cb[o], caps[o]);
                r
            }
        };
        if let Out::Lib(e) = res {
            lib(e, RING_NAMES[op.code as usize]);
        }
        let bound: usize = cb.iter().map(|x| 2 * (x.capacity() + 2) * std::mem::size_of::<T>() + 64).sum();
        space(bound, &|| format!("round {}, after {}", r, RING_NAMES[op.code as usize]));
    });
    finish(&w, &RING_NAMES);
    let _ = plain(|| drop(cb));
}
fn renew<T>(x: &mut CircularBuffer<T>, cap: usize) {
    let _ = plain(|| *x = CircularBuffer::new(cap));
}
fn two<T>(v: &mut [T], o: usize) -> (&mut T, &mut T) {
    let (a, b) = v.split_at_mut(1);
    if o == 0 {
        (&mut a[0], &mut b[0])
    } else {
        (&mut b[0], &mut a[0])
    }
}
fn finish(w: &World, names: &[&str]) {
    if std::env::var_os("ADVSIM_CAL").is_some() {
        for (c, x) in w.worst.iter().enumerate() {
            if x.0 > 0.0 {
                say(&format!("CAL {} {:.3} {} {}", names[c], x.0, x.1, x.2));
            }
        }
    }
}

// ---- counters ----
pub const CNT_NAMES: [&str; 20] = [
    "push", "extend", "extend_cloned", "add_assign", "add_assign_ref", "sub_assign", "sub_assign_ref", "add", "sub_ref", "most_common",
    "into_most_common", "clone", "clone_from", "from_iter", "remove", "clear", "get", "iterate", "eq", "shrink",
];
fn cnt<T: El, S: BuildHasher + Clone>(plan: &Plan, hasher: impl Fn() -> S) {
    let k = plan.get("k").max(1) as usize;
    let mut w = World { plan, u: plan.get("u").max(1) as usize, k, round: 0, worst: vec![] };
    let all: Vec<T> = (0..w.u as u32).map(T::make).collect();
    let mut c: Vec<Counter<T, S>> = (0..2).map(|_| Counter::with_hasher(hasher())).collect();
    // the most a table can have had to hold
    let peak = (w.u + w.k) as u64;
    let wide = 1 + std::mem::size_of::<T>() as u64 / 32;
    let unit = std::mem::size_of::<(T, usize)>() + 1;
    rounds(plan, |r, _, op| {
        w.round = r;
        let o = op.o as usize % 2;
        let n = w.n(op);
        if matches!(op.code, 3 | 4 | 7 | 8) && c.iter().any(|x| x.values().any(|v| *v > 1 << 40)) {
            // counts stay within the range of their type
            for v in c.iter_mut().flat_map(|x| x.values_mut()) {
                *v = 1;
            }
        }
        let (len, plen) = (c[o].len() as u64, c[1 - o].len() as u64);
        let res: Out<()> = match op.code {
            0 | 14 | 16 => {
                let mut it = w.items(op, n);
                let ks: Vec<T> = (0..n).map(|_| T::make(it.next_val().unwrap_or(0))).collect();
                let x = &mut c[o];
                // one growth or clean-up of the table in between
                let grow = if op.code == 0 { len + n as u64 } else { 0 };
                w.call(op, 0, (n as u64 + grow) * wide, || {
                    for k in ks {
                        match op.code {
                            0 => x.push(k),
                            14 => drop(x.remove(&k)),
                            _ => {
                                std::hint::black_box((x.get(&k).copied(), x.contains_key(&k), x.len(), x.is_empty()));
                            }
                        }
                    }
                })
            }
            1 => {
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let x = &mut c[o];
                w.call(op, 0, (2 * n as u64 + len) * wide, || x.extend(it))
            }
            2 => {
                let it = Refs(w.items(op, n), &all);
                let x = &mut c[o];
                w.call(op, 0, (2 * n as u64 + len) * wide, || x.extend(it.map(|k| k.clone())))
            }
            3 | 5 => {
                let (x, y) = two(&mut c, o);
                let Out::Ok(z) = plain(|| y.clone()) else { return };
                w.call(op, 0, (len + 2 * plen + peak) * wide, || if op.code == 3 { *x += z } else { *x -= z })
            }
            4 | 6 => {
                let (x, y) = two(&mut c, o);
                w.call(op, 0, (len + 2 * plen + peak) * wide, || if op.code == 4 { *x += &*y } else { *x -= &*y })
            }
            7 => {
                let (x, y) = two(&mut c, o);
                let h = hasher();
                w.call(op, 0, (2 * len + 2 * plen + 2 * peak) * wide, || {
                    let z = x.clone() + y.clone();
                    *x = Counter::with_hasher(h);
                    *x += z;
                })
            }
            8 => {
                let (x, y) = two(&mut c, o);
                let h = hasher();
                w.call(op, 0, (2 * len + 2 * plen + 2 * peak) * wide, || {
                    let z = x.clone() - &*y;
                    *x = Counter::with_hasher(h);
                    *x += &z;
                })
            }
            9 => {
                let x = &c[o];
                w.call(op, 0, (len * lg(len as usize) + peak) * wide / 4, || drop(x.most_common()))
            }
            10 => {
                let x = &c[o];
                let Out::Ok(z) = plain(|| x.clone()) else { return };
                w.call(op, 0, (len * lg(len as usize) + peak) * wide / 4, || drop(z.into_most_common()))
            }
            11 => {
                let (x, y) = two(&mut c, o);
                w.call(op, 0, (len + plen + peak) * wide, || *y = x.clone())
            }
            12 => {
                let (x, y) = two(&mut c, o);
                w.call(op, 0, (len + plen + peak) * wide, || y.clone_from(x))
            }
            13 => {
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let x = &mut c[o];
                let h = hasher();
                w.call(op, 0, (2 * n as u64 + peak) * wide, || {
                    *x = Counter::with_hasher(h);
                    x.extend(it);
                })
            }
            15 => {
                let x = &mut c[o];
                w.call(op, 0, (len + peak) * wide, || x.clear())
            }
            17 => {
                let x = &mut c[o];
                w.call(op, 0, len + peak, || {
                    let a: usize = x.values().fold(0, |a, b| a.wrapping_add(*b));
                    for (_, v) in &mut *x {
                        *v = (*v).max(1);
                    }
                    std::hint::black_box(a);
                })
            }
            18 => {
                let (x, y) = two(&mut c, o);
                w.call(op, 0, len + plen + peak, || {
                    // the hash map underneath compares contents
                    std::hint::black_box(x.len() == y.len() && x.iter().all(|(k, v)| y.get(k) == Some(v)));
                })
            }
            _ => {
                let x = &mut c[o];
                w.call(op, 0, (len + peak) * wide, || x.shrink_to_fit())
            }
        };
        if let Out::Lib(e) = res {
            lib(e, CNT_NAMES[op.code as usize]);
        }
        let bound = 2 * 3 * (peak as usize + 8) * unit;
        space(bound, &|| format!("round {}, after {}", r, CNT_NAMES[op.code as usize]));
    });
    finish(&w, &CNT_NAMES);
    let _ = plain(|| drop(c));
}

// ---- disjoint sets ----
pub const DS_NAMES: [&str; 12] = [
    "make_set", "union", "in_union", "contains", "extend", "enumerate", "clear", "reserve", "clone", "clone_from", "from_iter", "deep",
];
fn ds<T: El, S: BuildHasher + Clone>(plan: &Plan, hasher: impl Fn() -> S) {
    let k = plan.get("k").max(1) as usize;
    let mut w = World { plan, u: plan.get("u").max(1) as usize, k, round: 0, worst: vec![] };
    let all: Vec<T> = (0..w.u as u32).map(T::make).collect();
    let mut d: Vec<DisjointSet<T, S>> = (0..2).map(|_| DisjointSet::with_hasher(hasher())).collect();
    let peak = (w.u + w.k) as u64;
    let wide = 1 + std::mem::size_of::<T>() as u64 / 32;
    let unit = std::mem::size_of::<(T, usize)>() + 1 + 24;
    rounds(plan, |r, _, op| {
        w.round = r;
        let o = op.o as usize % 2;
        let n = w.n(op);
        let (len, plen) = (d[o].len() as u64, d[1 - o].len() as u64);
        let res: Out<()> = match op.code {
            0 | 1 => {
                let mut it = w.items(op, 2 * n + 2);
                let ks: Vec<(T, T)> = if op.code == 0 {
                    (0..n).map(|_| (T::make(it.next_val().unwrap_or(0)), T::make(0))).collect()
                } else {
                    pairs(op, n, w.u).into_iter().map(|(a, b)| (T::make(a), T::make(b))).collect()
                };
                let x = &mut d[o];
                w.call(op, 0, (4 * n as u64 + len) * wide, || {
                    for (a, b) in ks {
                        if op.code == 0 {
                            x.make_set(a);
                        } else {
                            x.union(a, b);
                        }
                    }
                })
            }
            2 | 3 => {
                let ps = pairs(op, n, w.u);
                let x = &mut d[o];
                w.call(op, 0, 2 * n as u64 + len / 8, || {
                    for (a, b) in ps {
                        let (a, b) = (&all[a as usize], &all[b as usize]);
                        if op.code == 2 {
                            std::hint::black_box(x.in_union(a, b));
                        } else {
                            std::hint::black_box((x.contains(a), x.len(), x.is_empty()));
                        }
                    }
                })
            }
            4 => {
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let x = &mut d[o];
                w.call(op, 0, (2 * n as u64 + len) * wide, || x.extend(it))
            }
            5 => {
                let x = &mut d[o];
                w.call(op, 0, (3 * len + peak) / 2, || {
                    let mut m = 0u64;
                    for (i, s) in x.into_iter().enumerate() {
                        if op.b % 3 == 0 && i >= n {
                            break;
                        }
                        for e in s {
                            m += e.val() as u64;
                        }
                    }
                    std::hint::black_box(m);
                })
            }
            6 => {
                let x = &mut d[o];
                w.call(op, 0, (len + peak) * wide, || x.clear())
            }
            7 => {
                let x = &mut d[o];
                w.call(op, 0, (len + n as u64 + peak) * wide, || x.reserve(n))
            }
            8 => {
                let (x, y) = two(&mut d, o);
                w.call(op, 0, (len + plen + peak) * wide, || *y = x.clone())
            }
            9 => {
                let (x, y) = two(&mut d, o);
                w.call(op, 0, (len + plen + peak) * wide, || y.clone_from(x))
            }
            10 => {
                let it = Owned::<T>(w.items(op, n), std::marker::PhantomData);
                let x = &mut d[o];
                let h = hasher();
                w.call(op, 0, (2 * n as u64 + peak) * wide, || {
                    *x = DisjointSet::with_hasher(h);
                    x.extend(it);
                })
            }
            _ => {
                deep(&mut w, op, &all, &hasher);
                Out::Ok(())
            }
        };
        if let Out::Lib(e) = res {
            lib(e, DS_NAMES[op.code as usize]);
        }
        let bound = 2 * 3 * (peak as usize + 8) * unit;
        space(bound, &|| format!("round {}, after {}", r, DS_NAMES[op.code as usize]));
    });
    finish(&w, &DS_NAMES);
    let _ = plain(|| drop(d));
}
/// Pairs to join or ask about.
fn pairs(op: &Op, n: usize, u: usize) -> Vec<(u32, u32)> {
    let u = u as u32;
    let s = op.b / 7 % u;
    (0..n as u32)
        .map(|i| match op.b % 7 {
            0 => ((s + i) % u, (s + i + 1) % u),
            1 => ((s + i + 1) % u, (s + i) % u),
            2 => (s, (s + i) % u),
            3 => ((s + i) % u, s),
            4 => {
                // level by level
                let l = (i + 1).trailing_zeros();
                (i.wrapping_add(1) % u, (i.wrapping_add(1) ^ (1 << l)) % u)
            }
            5 => (i % u, (u - 1 - i % u)),
            _ => (mix(op.b as u64 ^ i as u64) as u32 % u, mix(op.a as u64 ^ (i as u64) << 20) as u32 % u),
        })
        .collect()
}
/// Searches repeated in a forest as deep as unions can make it take as long as in a flat one.
fn deep<T: El, S: BuildHasher + Clone>(w: &mut World, op: &Op, all: &[T], hasher: &impl Fn() -> S) {
    let m = 1usize << (usize::BITS - 1 - w.u.min(1 << 14).leading_zeros());
    if m < 4 {
        return;
    }
    let mut flat: DisjointSet<T, S> = DisjointSet::with_hasher(hasher());
    let mut tall: DisjointSet<T, S> = DisjointSet::with_hasher(flat_hasher(hasher));
    let flip = op.b % 2 == 0;
    let _ = w.call(op, 0, 40 * m as u64, || {
        for k in all.iter().take(m) {
            flat.make_set(k.clone());
            tall.make_set(k.clone());
        }
        // equal trees are joined at their roots: depth log2(m)
        let mut step = 1;
        while step < m {
            for i in (0..m).step_by(2 * step) {
                let (a, b) = (all[i].clone(), all[i + step].clone());
                if flip {
                    tall.union(a, b)
                } else {
                    tall.union(b, a)
                }
            }
            step *= 2;
        }
    });
    let ask: Vec<usize> = (0..64).map(|i| if i == 0 { m - 1 } else { mix(op.a as u64 ^ i) as usize % m }).collect();
    let mut times = Vec::new();
    for pass in 0..6 {
        let mut t = [0u64; 2];
        for (j, d) in [&mut flat, &mut tall].into_iter().enumerate() {
            let t0 = clock::now();
            let _ = w.call(op, pass + 1, 4 * 64, || {
                for a in &ask {
                    std::hint::black_box(d.in_union(&all[*a], &all[*a]));
                }
            });
            t[j] = clock::now() - t0;
        }
        times.push(t);
    }
    let t = times[5];
    if w.time() && t[1] > t[0] + t[0] / 4 + 64 * 24 {
        violation(COST, &format!("64 searches repeated for the sixth time in a forest of {} elements built level by level take {} steps of virtual time, {} among single elements (all passes: {:?})", m, t[1], t[0], times));
    }
    // no order of unions makes a single search slow: blocks of elements joined to each other
    let mut chain: DisjointSet<T, S> = DisjointSet::with_hasher(hasher());
    let ps: Vec<(u32, u32)> = if op.b / 2 % 3 == 0 {
        pairs(op, m, w.u)
    } else if op.b / 2 % 3 == 1 && op.b / 6 % 2 == 0 {
        // depth could only grow with the square root of the number of unions
        let (kind, all) = (op.b / 12, w.u.min(1 << 16) as u32);
        let n = if kind % 2 == 0 { all } else { 4 * all };
        (0..n).map(|i| rank_trap(kind, i, op.b / 24)).take_while(|(a, b)| *a.max(b) < all).collect()
    } else {
        let b = (1u32 << (op.b / 6 % 5)).min(m as u32);
        let mut ps = vec![];
        for j in 0..m as u32 / b {
            let x = j * b;
            let mut step = 1;
            while step < b {
                for i in (0..b).step_by(2 * step as usize) {
                    ps.push(if op.b / 30 % 2 == 0 { (x + i, x + i + step) } else { (x + i + step, x + i) });
                }
                step *= 2;
            }
            if j > 0 {
                // this block and the one before, or the first one
                let (i, k) = (op.b / 60 % b, op.b / 600 % b);
                let y = if op.b / 120 % 4 == 0 { k } else { x - b + k };
                ps.push(if op.b / 480 % 2 == 0 { (x + i, y) } else { (y, x + i) });
            }
        }
        ps
    };
    let _ = w.call(op, 10, 40 * m as u64, || {
        for (a, b) in &ps {
            chain.union(all[*a as usize].clone(), all[*b as usize].clone());
        }
    });
    let mut alone = 0;
    for i in 0..24usize {
        let j = match i {
            0 => 0,
            1 => m - 1,
            _ => mix(op.a as u64 ^ (i as u64) << 24) as usize % m,
        };
        let j = if i < 2 { j } else { ps[j % ps.len()].0 as usize };
        let mut t = [0u64; 2];
        for (k, d) in [&mut flat, &mut chain].into_iter().enumerate() {
            let t0 = clock::now();
            let _ = w.call(op, 11 + i, lg(m), || std::hint::black_box(d.in_union(&all[j], &all[j])));
            t[k] = clock::now() - t0;
        }
        alone = alone.max(t[0]);
        if w.time() && t[1] > 2 * alone + 24 * lg(w.u.max(m)) {
            violation(COST, &format!("a search in a forest built by {} unions takes {} steps of virtual time, at most {} among single elements", ps.len(), t[1], alone));
        }
    }
    let _ = plain(|| {
        drop(flat);
        drop(tall);
        drop(chain)
    });
}
fn flat_hasher<S: Clone>(h: &impl Fn() -> S) -> S {
    h()
}

// ---- plans ----
pub fn names(p: &Plan) -> &'static [&'static str] {
    match p.get("kind") {
        0 | 1 => &RING_NAMES,
        2 | 3 => &CNT_NAMES,
        _ => &DS_NAMES,
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, if plan.prop == "C24" { COST } else { SPACE | MEM });
    // a fresh thread: the hash keys of RandomState are per thread
    std::thread::scope(|sc| {
        if sc.spawn(|| body(plan)).join().is_err() {
            say("H the scenario panicked (harness error)");
            exit_now(9);
        }
    });
    end_checks(true);
}
fn body(plan: &Plan) {
    KIND_PLAN.with(|k| k.set(plan.get("kind")));
    let h = plan.get("hash");
    match plan.get("kind") {
        0 => ring::<Small>(plan),
        1 => ring::<Fat>(plan),
        k => {
            let sim = || SimState::new((h / 3) as u32 % 2);
            match (k, h % 3) {
                (2, 0) => cnt::<Small, _>(plan, sim),
                (2, 1) => cnt::<Small, _>(plan, RandomState::new),
                (2, _) => cnt::<Small, _>(plan, FnvBuildHasher::default),
                (3, _) => cnt::<Fat, _>(plan, sim),
                (4, 0) => ds::<Small, _>(plan, sim),
                (4, 1) => ds::<Small, _>(plan, RandomState::new),
                (4, _) => ds::<Small, _>(plan, FnvBuildHasher::default),
                _ => ds::<Fat, _>(plan, sim),
            }
        }
    }
}
pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0xC057);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    let time = prop == "C24";
    let kind = g.pick(&[0i64, 0, 1, 2, 2, 3, 4, 4, 5]);
    p.set("kind", kind);
    p.set("clients", g.pick(&[1, 2, 3, 4]));
    p.set("hash", g.below(6) as i64);
    p.set("fill", g.below(4) as i64);
    let u = if time {
        g.pick(&[8i64, 64, 500, 4096, 4096, 30_000, 65_536])
    } else {
        g.pick(&[1, 3, 8, 8, 30, 100, 500])
    };
    p.set("u", u);
    let k = if time { g.pick(&[u, u / 2 + 1, 2 * u]) } else { 1 + g.below(u as u64 * 2) as i64 };
    p.set("k", k);
    p.set("cap0", g.pick(&[u, u / 2, u, 2 * u, 0]));
    p.set("cap1", g.pick(&[u, u / 3, 3, u + 1]));
    let nops = 1 + g.small(if time { 10 } else { 6 });
    let rounds = if time { g.pick(&[1i64, 2, 4]) } else { g.pick(&[20i64, 200, 800, 2500]) };
    // bounded work per run
    let rounds = if time { rounds } else { rounds.min(200_000 / (nops as i64 * (k / 2 + 4))).max(30) };
    p.set("rounds", rounds);
    let codes = match kind {
        0 | 1 => RING_NAMES.len(),
        2 | 3 => CNT_NAMES.len(),
        _ => DS_NAMES.len(),
    } as u64;
    // something to work on
    let first: &[u8] = match kind {
        0 | 1 => &[0, 1, 6, 7],
        2 | 3 => &[0, 1, 2],
        _ => &[0, 1, 4],
    };
    let frate = if time { g.pick(&[0u64, 0, 3]) } else { g.pick(&[0u64, 2, 5]) };
    if !time && kind >= 2 && g.chance(1, 3) {
        // the same failures again and again
        p.set("u", g.pick(&[1, 2, 3, 8, 8]));
        p.set("k", g.pick(&[1, 2, 4, 8]));
        p.set("always", g.chance(2, 3) as i64);
        let nops = 1 + g.below(3);
        p.set("rounds", g.pick(&[1000, 5000, 20_000]));
        for i in 0..nops {
            let code = if i == 0 { g.pick(first) } else { g.below(codes - 1) as u8 };
            let mut o = Op::new(code);
            o.client = g.below(p.clients() as u64) as u8;
            o.o = g.below(2) as u8 * (i > 0) as u8;
            o.a = g.below(1 << 14) as u32;
            o.b = g.below(1 << 12) as u32;
            if g.chance(1, 2) {
                o.b -= o.b % 17;
            }
            if g.chance(1, 2) {
                o.a &= 4095;
            }
            if i == 0 || g.chance(1, 2) {
                let f = faults(kind, code);
                o.fk = if f.is_empty() { Fk::None } else { g.pick(f) };
                o.fnth = g.small(if o.fk == Fk::Alloc { 2 } else { 6 }) as u32;
            }
            p.ops.push(o);
        }
        return p;
    }
    for i in 0..nops + 1 {
        let code = if i == 0 || g.chance(1, 3) { g.pick(first) } else { g.below(codes) as u8 };
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(2) as u8;
        o.a = g.below(1 << 14) as u32;
        o.b = g.below(1 << 12) as u32;
        if i == 0 {
            o.a |= 3 << 12;
            if time {
                o.o = 0;
            }
        }
        if frate > 0 && g.chance(frate, 10) {
            let kinds = faults(kind, code);
            if !kinds.is_empty() {
                o.fk = g.pick(kinds);
                o.fnth = g.small(if o.fk == Fk::Alloc { 2 } else { 30 }) as u32;
            }
        }
        p.ops.push(o);
    }
    p
}
/// what can fail in an operation
fn faults(kind: i64, code: u8) -> &'static [Fk] {
    match (kind, code) {
        (0 | 1, 16 | 21) => &[],
        (0 | 1, 0..=3 | 8 | 9) => &[Fk::Drop],
        (0 | 1, 6) => &[Fk::Drop, Fk::Next],
        (0 | 1, 7) => &[Fk::Clone, Fk::Next, Fk::Drop],
        (0 | 1, 10) => &[Fk::Alloc, Fk::Drop],
        (0 | 1, 11 | 12) => &[Fk::Alloc, Fk::Clone],
        (0 | 1, 13) => &[Fk::Drop],
        (0 | 1, 14 | 15) => &[Fk::Next, Fk::Alloc],
        (0 | 1, 19) => &[Fk::Eq, Fk::Cmp],
        (2 | 3, 0) => &[Fk::Hash, Fk::Eq, Fk::Alloc],
        (2 | 3, 1 | 13) => &[Fk::Next, Fk::Hash, Fk::Eq, Fk::Alloc],
        (2 | 3, 2) => &[Fk::Next, Fk::Clone, Fk::Hash, Fk::Eq, Fk::Alloc],
        (2 | 3, 3..=8) => &[Fk::Clone, Fk::Hash, Fk::Eq, Fk::Alloc],
        (2 | 3, 9 | 10 | 11 | 12) => &[Fk::Clone, Fk::Alloc],
        (2 | 3, 14 | 16 | 18) => &[Fk::Hash, Fk::Eq],
        (4 | 5, 0 | 1) => &[Fk::Hash, Fk::Hash, Fk::Eq, Fk::Alloc],
        (4 | 5, 2 | 3) => &[Fk::Hash, Fk::Eq],
        (4 | 5, 4 | 10) => &[Fk::Next, Fk::Hash, Fk::Eq, Fk::Alloc],
        (4 | 5, 5 | 7) => &[Fk::Alloc],
        (4 | 5, 8 | 9) => &[Fk::Clone, Fk::Alloc],
        _ => &[],
    }
}
