//! C19: capacity that was promised needs no memory later.  Clients share counters or disjoint
//! sets made with a capacity; whatever fits must succeed while the allocator refuses everything.

use crate::core::*;
use crate::cost::{El, Fat, Small};
use crate::hasher::SimState;
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::counter::Counter;
use advanced_collections::disjoint_set::DisjointSet;
use fnv::FnvBuildHasher;
use std::cell::UnsafeCell;
use std::collections::hash_map::RandomState;
use std::collections::BTreeMap;
use std::hash::BuildHasher;

pub const NAMES: [&str; 8] = ["create", "reserve", "fill", "grow", "ask", "remove", "clear", "impossible"];
const CREATE: u8 = 0;
const RESERVE: u8 = 1;
const FILL: u8 = 2;
const GROW: u8 = 3;
const ASK: u8 = 4;
const REMOVE: u8 = 5;
const CLEAR: u8 = 6;
const IMPOSSIBLE: u8 = 7;

/// number of occurrences and representative of every element
#[derive(Default, Clone)]
struct Model {
    cnt: BTreeMap<u32, u64>,
    head: BTreeMap<u32, u32>,
}
impl Model {
    fn len(&self) -> usize {
        self.cnt.len()
    }
    fn add(&mut self, x: u32) {
        *self.cnt.entry(x).or_insert(0) += 1;
        self.head.entry(x).or_insert(x);
    }
    fn join(&mut self, a: u32, b: u32) {
        self.add(a);
        self.add(b);
        let (a, b) = (self.head[&a], self.head[&b]);
        for h in self.head.values_mut() {
            if *h == b {
                *h = a;
            }
        }
    }
    fn same(&self, a: u32, b: u32) -> bool {
        self.head.get(&a).is_some() && self.head.get(&a) == self.head.get(&b)
    }
}

struct Feed<T> {
    items: std::vec::IntoIter<T>,
    exact: bool,
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.exact {
            self.items.size_hint()
        } else {
            (0, None)
        }
    }
}

trait Coll<T: El>: Sized {
    const SET: bool;
    /// `how`: new, default, with_hasher, with_capacity, with_capacity_and_hasher
    fn create(how: u32, n: usize, h: u32) -> Self;
    fn reserve(&mut self, n: usize);
    fn push(&mut self, x: T);
    fn feed(&mut self, f: Feed<T>);
    /// a batch as another counter, or a union of two
    fn batch(xs: &[u32]) -> Option<Counter<T, FnvBuildHasher>>;
    fn merge(&mut self, b: &mut Option<Counter<T, FnvBuildHasher>>, by_ref: bool);
    fn join(&mut self, a: T, b: T);
    fn remove(&mut self, x: &T, way: u32);
    fn clear(&mut self);
    fn room(&self) -> Option<usize>;
    fn holds(&mut self, x: &T, y: &T) -> (usize, bool, u64, bool);
}
trait Hashers: BuildHasher + Default + Clone {
    fn of(h: u32) -> Self;
}
impl Hashers for RandomState {
    fn of(_: u32) -> Self {
        RandomState::new()
    }
}
impl Hashers for FnvBuildHasher {
    fn of(_: u32) -> Self {
        FnvBuildHasher::default()
    }
}
impl Hashers for SimState {
    fn of(h: u32) -> Self {
        SimState::new(h)
    }
}
impl<T: El, S: Hashers> Coll<T> for Counter<T, S> {
    const SET: bool = false;
    fn create(how: u32, n: usize, h: u32) -> Self {
        match how {
            0 => Counter::new(),
            1 => Counter::default(),
            2 => Counter::with_hasher(S::of(h)),
            3 => Counter::with_capacity(n),
            _ => Counter::with_capacity_and_hasher(n, S::of(h)),
        }
    }
    fn reserve(&mut self, n: usize) {
        (**self).reserve(n)
    }
    fn push(&mut self, x: T) {
        Counter::push(self, x)
    }
    fn feed(&mut self, f: Feed<T>) {
        self.extend(f)
    }
    fn batch(xs: &[u32]) -> Option<Counter<T, FnvBuildHasher>> {
        // sometimes with a larger table than it needs
        let mut c = Counter::with_capacity(if xs.len() % 3 == 0 { 64 } else { 0 });
        for x in xs {
            c.push(T::make(*x));
        }
        Some(c)
    }
    fn merge(&mut self, b: &mut Option<Counter<T, FnvBuildHasher>>, by_ref: bool) {
        if by_ref {
            *self += b.as_ref().unwrap()
        } else {
            *self += b.take().unwrap()
        }
    }
    fn join(&mut self, a: T, b: T) {
        Counter::push(self, a);
        Counter::push(self, b);
    }
    fn remove(&mut self, x: &T, way: u32) {
        if way % 2 == 0 {
            (**self).remove(x);
        } else {
            let n = self.get(x).copied().unwrap_or(0);
            let mut c: Counter<T, FnvBuildHasher> = Counter::default();
            if n > 0 {
                c.insert(x.clone(), n);
            }
            *self -= c;
        }
    }
    fn clear(&mut self) {
        (**self).clear()
    }
    fn room(&self) -> Option<usize> {
        Some(self.capacity())
    }
    fn holds(&mut self, x: &T, y: &T) -> (usize, bool, u64, bool) {
        let s = self.contains_key(x) && self.contains_key(y);
        (self.len(), self.contains_key(x), self.get(x).copied().unwrap_or(0) as u64, s)
    }
}
impl<T: El, S: Hashers> Coll<T> for DisjointSet<T, S> {
    const SET: bool = true;
    fn create(how: u32, n: usize, h: u32) -> Self {
        match how {
            0 => DisjointSet::new(),
            1 => DisjointSet::default(),
            2 => DisjointSet::with_hasher(S::of(h)),
            3 => DisjointSet::with_capacity(n),
            _ => DisjointSet::with_capacity_and_hasher(n, S::of(h)),
        }
    }
    fn reserve(&mut self, n: usize) {
        DisjointSet::reserve(self, n)
    }
    fn push(&mut self, x: T) {
        self.make_set(x)
    }
    fn feed(&mut self, f: Feed<T>) {
        self.extend(f)
    }
    fn batch(_: &[u32]) -> Option<Counter<T, FnvBuildHasher>> {
        None
    }
    fn merge(&mut self, _: &mut Option<Counter<T, FnvBuildHasher>>, _: bool) {}
    fn join(&mut self, a: T, b: T) {
        self.union(a, b)
    }
    fn remove(&mut self, _: &T, _: u32) {}
    fn clear(&mut self) {
        DisjointSet::clear(self)
    }
    fn room(&self) -> Option<usize> {
        None
    }
    fn holds(&mut self, x: &T, y: &T) -> (usize, bool, u64, bool) {
        (self.len(), self.contains(x), 0, self.in_union(x, y))
    }
}

struct Obj<C> {
    c: Option<C>,
    m: Model,
    /// different elements it must hold without asking for memory
    promise: usize,
    /// an element was removed: the table may have worn slots
    worn: bool,
}
/// sizes around those at which tables and vectors grow
fn size(a: u32, big: i64) -> usize {
    let n = match a % 8 {
        0 => 0,
        1 | 2 => 1 + (a / 8 % 9) as usize,
        3 => (1usize << (a / 8 % 11)) + (a / 88 % 3) as usize - 1,
        4 => (7usize << (a / 8 % 8)) + (a / 64 % 3) as usize - 1,
        5 => (a / 8 % 60) as usize,
        6 => (a / 8 % 400) as usize,
        _ => (a / 8 % 3000) as usize,
    };
    n.min(big as usize)
}
fn body<T: El, C: Coll<T>>(plan: &Plan) {
    let objs: Vec<UnsafeCell<Obj<C>>> = (0..2).map(|_| UnsafeCell::new(Obj { c: None, m: Model::default(), promise: 0, worn: false })).collect();
    let client = |me: usize| {
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            let k = op.o as usize % 2;
            let _h = sched::acquire(&[(k, true)]);
            begin_op(i, op, NAMES[op.code as usize % 8]);
            step::<T, C>(plan, op, unsafe { &mut *objs[k].get() });
        }
    };
    sched::clients(plan, plan.clients(), 2, 1 << 20, &client);
    for o in objs {
        let o = o.into_inner();
        let _ = plain(|| drop(o.c));
    }
}
fn create<T: El, C: Coll<T>>(op: &Op, o: &mut Obj<C>, how: u32, n: usize) {
    match sut(op, || C::create(how, n, op.b)) {
        Out::Ok(c) => {
            if n == 0 && requests() != 0 {
                violation(MEM, &format!("creating an empty collection (way {}) without capacity requested memory", how));
            }
            let old = o.c.replace(c);
            let _ = plain(|| drop(old));
            (o.m, o.promise, o.worn) = (Model::default(), n, false);
        }
        Out::Fault(_) if n == 0 => violation(MEM, &format!("creating an empty collection (way {}) without capacity requested memory", how)),
        Out::Fault(_) => {}
        Out::Lib(e) => violation(MEM | CONTENT, &format!("creating a collection with capacity {} panicked: {}", n, e)),
    }
}
/// Under a refusing allocator: must succeed and ask for nothing.
fn must(what: &str, o: (usize, usize), r: Out<()>) -> bool {
    match r {
        Out::Ok(()) if requests() == 0 => true,
        Out::Lib(e) => {
            violation(MEM | CONTENT, &format!("{} with {} of {} promised elements present panicked: {}", what, o.0, o.1, e));
            false
        }
        _ => {
            violation(MEM, &format!("{} with {} elements present requested memory; {} were to fit without", what, o.0, o.1));
            false
        }
    }
}
fn step<T: El, C: Coll<T>>(plan: &Plan, op: &Op, o: &mut Obj<C>) {
    let big = plan.get("big");
    let u = plan.get("u").max(1) as u32;
    if o.c.is_none() && op.code != CREATE {
        create::<T, C>(&Op::new(0), o, 3 + op.b % 2, size(op.b, big));
        if aborted() {
            return;
        }
    }
    match op.code {
        CREATE => {
            let how = op.b % 8;
            let how = if how > 4 { 3 + how % 2 } else { how };
            create::<T, C>(op, o, how, if how < 3 { 0 } else { size(op.a, big) });
        }
        RESERVE => {
            let n = size(op.a, big);
            let c = o.c.as_mut().unwrap();
            // what is there already needs nothing
            let there = !o.worn && o.m.len() + n <= o.promise;
            match sut(op, || c.reserve(n)) {
                Out::Ok(()) => {
                    if there && requests() != 0 {
                        violation(MEM, &format!("reserve({}) with {} elements present requested memory; {} were promised", n, o.m.len(), o.promise));
                    }
                    o.promise = o.promise.max(o.m.len() + n);
                    if n > 0 && o.worn {
                        o.promise = o.m.len() + n;
                    }
                    o.worn &= n == 0;
                }
                Out::Fault(_) if there => violation(MEM, &format!("reserve({}) with {} elements present requested memory; {} were promised", n, o.m.len(), o.promise)),
                Out::Fault(_) => {}
                Out::Lib(e) => violation(MEM | CONTENT, &format!("reserve({}) panicked: {}", n, e)),
            }
        }
        FILL | GROW => {
            let mut refuse = *op;
            if op.code == FILL {
                (refuse.fk, refuse.fnth) = (Fk::AllocAll, 0);
            }
            let way = op.b % 5;
            let mut left = match op.a % 3 {
                _ if op.code == GROW => 1 + size(op.a, big),
                0 => 1 + op.a as usize / 3 % 6,
                _ => usize::MAX,
            };
            // single calls until there is no room
            let mut i = 0u32;
            while left > 0 && !aborted() {
                let room = if op.code == GROW { usize::MAX } else { o.promise.saturating_sub(o.m.len()) };
                let need = if way == 4 { 2 } else { 1 };
                if i > 3 * big as u32 + 100 {
                    break;
                }
                if room < need {
                    // elements that are there take no room, however full it is
                    let there: Vec<u32> = if op.code == FILL && matches!(way, 0 | 1 | 4) && !o.worn { o.m.cnt.keys().copied().collect() } else { Vec::new() };
                    for k in 0..4u32.min(there.len() as u32) {
                        let old = |k: u32| there[mix(op.a as u64 ^ (k as u64) << 24) as usize % there.len()];
                        let x = old(2 * k);
                        let y = if room == 1 && k == 0 { op.a / 7 % u } else { old(2 * k + 1) };
                        let (x, y) = if op.b / 10 % 2 == 0 { (x, y) } else { (y, x) };
                        let at = (o.m.len(), o.promise);
                        let c = o.c.as_mut().unwrap();
                        let fine = if way == 4 {
                            let (e, f) = (T::make(x), T::make(y));
                            must("join", at, sut(&refuse, || c.join(e, f)))
                        } else {
                            let e = T::make(there[k as usize]);
                            must("push", at, sut(&refuse, || c.push(e)))
                        };
                        if !fine {
                            return;
                        }
                        if way == 4 {
                            o.m.join(x, y);
                        } else {
                            o.m.add(there[k as usize]);
                        }
                    }
                    break;
                }
                let key = |i: u32| match op.b / 5 % 3 {
                    0 => (op.a / 32).wrapping_add(i) % u,
                    1 => mix(op.a as u64 ^ (i as u64) << 20) as u32 % u,
                    _ => (op.a / 32).wrapping_add(i.wrapping_mul(64)) % u,
                };
                let at = (o.m.len(), o.promise);
                let c = o.c.as_mut().unwrap();
                let mut done = |r| if op.code == FILL { must(["push", "push", "extend", if C::SET { "extend" } else { "merge" }, "join"][way as usize], at, r) } else { matches!(r, Out::Ok(())) };
                match way {
                    0 | 1 => {
                        let x = key(i);
                        let e = T::make(x);
                        if !done(sut(&refuse, || c.push(e))) {
                            return;
                        }
                        o.m.add(x);
                        i += 1;
                        left -= 1;
                    }
                    4 => {
                        let (x, y) = (key(i), key(i + 1 + op.b % 2));
                        let (e, f) = (T::make(x), T::make(y));
                        if !done(sut(&refuse, || c.join(e, f))) {
                            return;
                        }
                        o.m.join(x, y);
                        i += 1;
                        left -= 1;
                    }
                    _ => {
                        // as many items as there is room for, at most
                        let n = room.min(left).min(big as usize).min(if op.b / 15 % 2 == 0 { 7 } else { usize::MAX });
                        let xs: Vec<u32> = (i..i + n as u32).map(key).collect();
                        if way == 3 && !C::SET {
                            let mut b = C::batch(&xs);
                            let r = sut(&refuse, || c.merge(&mut b, op.b / 30 % 2 == 0));
                            if !done(r) {
                                return;
                            }
                        } else {
                            let items: Vec<T> = xs.iter().map(|x| T::make(*x)).collect();
                            let f = Feed { items: items.into_iter(), exact: op.b / 30 % 3 != 0 };
                            if !done(sut(&refuse, || c.feed(f))) {
                                return;
                            }
                        }
                        for x in xs {
                            o.m.add(x);
                        }
                        i += n as u32;
                        left -= n;
                    }
                }
            }
            if op.code == FILL {
                hit(probe::FULL);
            } else if !o.worn {
                o.promise = o.promise.max(o.m.len());
            } else {
                o.promise = o.m.len();
            }
        }
        REMOVE => {
            if !C::SET && o.m.len() > 0 {
                let keys: Vec<u32> = o.m.cnt.keys().copied().collect();
                for i in 0..1 + op.b % 5 {
                    let x = keys[(op.a as usize + i as usize) % keys.len()];
                    let e = T::make(x);
                    let c = o.c.as_mut().unwrap();
                    let _ = plain(|| c.remove(&e, op.b / 5));
                    o.m.cnt.remove(&x);
                    o.m.head.remove(&x);
                }
                (o.promise, o.worn) = (o.m.len(), true);
            }
        }
        CLEAR => {
            let c = o.c.as_mut().unwrap();
            if let Out::Lib(e) = plain(|| c.clear()) {
                violation(MEM | CONTENT, &format!("clear panicked: {}", e));
            }
            o.m = Model::default();
        }
        IMPOSSIBLE => {
            let n = [usize::MAX, usize::MAX - 1, usize::MAX / 2, isize::MAX as usize, 1 << 60, 1 << 59, 1 << 50, 1 << 40][op.a as usize % 8];
            let made = op.b % 2 == 0;
            let c = o.c.as_mut().unwrap();
            let r = if made {
                let mut d = None;
                let r = sut(op, || d = Some(C::create(3 + op.b / 2 % 2, n, op.b)));
                let _ = plain(|| drop(d));
                r
            } else {
                sut(op, || c.reserve(n))
            };
            if let Out::Ok(()) = r {
                violation(MEM, &format!("{} elements were promised", n));
            }
        }
        _ => {}
    }
    if aborted() || o.c.is_none() {
        return;
    }
    heap_check();
    let c = o.c.as_mut().unwrap();
    // answers need no memory either
    let none = Op { fk: Fk::AllocAll, ..Op::new(ASK) };
    if let Some(cap) = observe(CONTENT, "capacity", || c.room()).flatten() {
        if !o.worn && cap < o.promise {
            violation(MEM, &format!("capacity {} reported, {} promised", cap, o.promise));
        }
        if !o.worn {
            o.promise = cap;
        }
    }
    let n = if op.code == ASK { 12 } else { 3 };
    for i in 0..n {
        let near = |k: u32| {
            let x = mix(op.a as u64 ^ (k as u64) << 32 ^ i) as u32 % u;
            if k % 2 == 0 { o.m.cnt.range(x..).next().map_or(x, |e| *e.0) } else { x }
        };
        let (x, y) = (near(i as u32 / 2 * 2), near(7 + i as u32));
        let (a, b) = (T::make(x), T::make(y));
        let mut got = (0, false, 0, false);
        if !must("a question", (o.m.len(), o.promise), sut(&none, || got = c.holds(&a, &b))) {
            return;
        }
        let has = o.m.cnt.contains_key(&x);
        let e = if C::SET { (o.m.len(), has, 0, o.m.same(x, y)) } else { (o.m.len(), has, o.m.cnt.get(&x).copied().unwrap_or(0), has && o.m.cnt.contains_key(&y)) };
        if got != e {
            violation(CONTENT, &format!("(elements, contains {}, its count, with {}) is {:?}, expected {:?}", x, y, got, e));
            return;
        }
    }
}

fn run_t<T: El>(plan: &Plan) {
    match (plan.get("set"), plan.get("hash") % 3) {
        (0, 0) => body::<T, Counter<T, SimState>>(plan),
        (0, 1) => body::<T, Counter<T, FnvBuildHasher>>(plan),
        (0, _) => body::<T, Counter<T, RandomState>>(plan),
        (_, 0) => body::<T, DisjointSet<T, SimState>>(plan),
        (_, 1) => body::<T, DisjointSet<T, FnvBuildHasher>>(plan),
        _ => body::<T, DisjointSet<T, RandomState>>(plan),
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, MEM | CONTENT);
    if plan.get("fat") == 1 {
        run_t::<Fat>(plan)
    } else {
        run_t::<Small>(plan)
    }
    end_checks(true);
}
pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0xCA9);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("set", g.below(2) as i64);
    p.set("fat", g.chance(1, 4) as i64);
    p.set("hash", g.below(3) as i64);
    p.set("fill", g.below(4) as i64);
    p.set("clients", g.pick(&[1i64, 2, 2, 3]));
    let big = g.pick(&[10i64, 40, 40, 150, 600, 3000]);
    p.set("big", big);
    p.set("u", g.pick(&[big * 8, 1 << 20, big * 2, big]));
    let nops = 2 + g.below(if big > 500 { 8 } else { 25 });
    for i in 0..nops {
        let code = if i < 2 {
            g.pick(&[CREATE, CREATE, FILL, RESERVE])
        } else {
            g.pick(&[CREATE, RESERVE, RESERVE, FILL, FILL, FILL, FILL, GROW, ASK, REMOVE, CLEAR, IMPOSSIBLE])
        };
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(2) as u8;
        o.a = g.below(1 << 16) as u32;
        o.b = g.below(1 << 12) as u32;
        if code == CREATE || code == RESERVE || code == IMPOSSIBLE {
            (o.fk, o.fnth) = match g.below(4) {
                0 => (Fk::Alloc, g.below(3) as u32),
                1 => (Fk::AllocAll, 0),
                _ => (Fk::None, 0),
            };
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
