//! C08: distributed counting. Workers count shards of a durable item stream into their own
//! counters and ship them over a simulated network (delay, reordering, loss with
//! retransmission, relays) to an aggregator; workers and the aggregator crash and recount.

use crate::core::*;
use crate::counter::{check_ranking, fresh, minus, plus, read, AnyC, Key, Model};
use crate::elem::*;
use crate::iters::*;
use crate::on;
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::counter::Counter;
use fnv::FnvBuildHasher;
use std::cell::{RefCell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::collections::HashMap;

pub const NAMES: [&str; 10] =
    ["process", "process_weighted", "ship", "worker_crash", "deliver", "retract", "check", "relay", "lose", "aggregator_crash"];
pub const PROCESS: u8 = 0;
pub const WEIGHTED: u8 = 1;
pub const SHIP: u8 = 2;
pub const CRASH: u8 = 3;
pub const DELIVER: u8 = 4;
pub const RETRACT: u8 = 5;
pub const CHECK: u8 = 6;
pub const RELAY: u8 = 7;
pub const LOSE: u8 = 8;
pub const AGG_CRASH: u8 = 9;

type Log = Vec<(u32, usize)>;
struct Batch<K: Key> {
    c: Option<AnyC<K>>,
    log: Log,
}
struct Worker<K: Key> {
    c: AnyC<K>,
    log: Log,
}
struct World<K: Key> {
    workers: Vec<UnsafeCell<Option<Worker<K>>>>,
    /// lock n
    net: UnsafeCell<Vec<Batch<K>>>,
    /// lock n+1
    agg: UnsafeCell<Option<AnyC<K>>>,
    merged: UnsafeCell<Vec<Batch<K>>>,
    keys: u32,
}

fn total(log: &[(u32, usize)]) -> Model {
    let mut m = Model::new();
    for (k, n) in log {
        *m.entry(*k).or_insert(0) += n;
    }
    m
}
fn expect<K: Key>(bs: &[Batch<K>]) -> Model {
    bs.iter().fold(Model::new(), |m, b| plus(&m, &total(&b.log)).expect("counts stay small"))
}
fn compare<K: Key>(c: &AnyC<K>, e: &Model, what: &str) {
    if aborted() {
        return;
    }
    let Some(g) = observe(CONV, what, || read(c, CONV, 1)) else { return };
    if g != *e {
        violation(CONV, &format!("{}: counts {:?}, true counts {:?}", what, g, e));
    }
    for (k, n) in &g {
        trace(mix((*k as u64) << 40 ^ *n as u64));
    }
}
fn lib(what: &str, e: String) {
    violation(CONV, &format!("{} panicked: {}", what, e));
}
/// counts a log from scratch, in some order, with some mixture of operations
fn count<K: Key>(op: &Op, log: &Log, how: u32) -> Option<AnyC<K>> {
    let log2 = RefCell::new(Vec::with_capacity(log.len() + 1));
    let mut order: Vec<usize> = (0..log.len()).collect();
    let mut g = Rng::new(how as u64);
    for i in (1..order.len()).rev() {
        order.swap(i, g.below(i as u64 + 1) as usize);
    }
    let ones: Vec<u32> = order.iter().filter(|i| log[**i].1 == 1).map(|i| log[*i].0).collect();
    let heavy: Vec<(u32, usize)> = order.iter().filter(|i| log[**i].1 != 1).map(|i| log[*i]).collect();
    let r = sut(op, || {
        let mut c: AnyC<K> = if how % 3 == 0 {
            let s = Src::<K>::new(&ones, how / 4 % 4, &log2);
            match how / 16 % 3 {
                0 => s.collect::<Counter<K, crate::hasher::SimState>>().into(),
                1 => s.collect::<Counter<K, RandomState>>().into(),
                _ => s.collect::<Counter<K, FnvBuildHasher>>().into(),
            }
        } else {
            let mut c = as_harness(|| fresh::<K>(how / 4, how / 64));
            if how % 3 == 1 {
                on!(&mut c, x => x.extend(Src::<K>::new(&ones, how / 4 % 4, &log2)));
            } else {
                for v in &ones {
                    let k = as_harness(|| K::make(*v));
                    on!(&mut c, x => x.push(k));
                }
            }
            c
        };
        for (v, n) in &heavy {
            let one: HashMap<K, usize> = as_harness(|| {
                let mut h = HashMap::new();
                h.insert(K::make(*v), *n);
                h
            });
            let w: Counter<K, RandomState> = Counter::from_hashmap(one);
            on!(&mut c, x => *x += w);
        }
        c
    });
    match r {
        Out::Ok(c) => Some(c),
        Out::Fault(_) => None,
        Out::Lib(e) => {
            lib("counting a shard", e);
            None
        }
    }
}
fn recount<K: Key>(log: &Log, how: u32) -> Option<AnyC<K>> {
    count(&Op::new(0), log, how)
}
/// merges (or subtracts) with one of the operator forms; None: the aggregator died
fn combine<K: Key>(op: &Op, agg: AnyC<K>, b: &mut Batch<K>, form: u32, add: bool) -> Option<AnyC<K>> {
    let by_ref = form % 2 == 0;
    let in_place = form / 2 % 2 == 0;
    let r = if by_ref {
        let y = b.c.as_ref().unwrap();
        sut(op, || {
            let mut agg = agg;
            if in_place {
                on!(&mut agg, x => on!(y, y => if add { *x += y } else { *x -= y }));
                agg
            } else {
                on!(agg, x => on!(y, y => if add { AnyC::from(x + y) } else { AnyC::from(x - y) }))
            }
        })
    } else {
        let y = b.c.take().unwrap();
        sut(op, || {
            let mut agg = agg;
            if in_place {
                on!(&mut agg, x => on!(y, y => if add { *x += y } else { *x -= y }));
                agg
            } else {
                on!(agg, x => on!(y, y => if add { AnyC::from(x + y) } else { AnyC::from(x - y) }))
            }
        })
    };
    match r {
        Out::Ok(a) => Some(a),
        Out::Fault(_) => {
            hit(probe::MERGEINT);
            None
        }
        Out::Lib(e) => {
            lib("merging", e);
            None
        }
    }
}
/// the aggregator lost its memory: recount all merged batches from their logs
fn rebuild<K: Key>(w: &World<K>, how: u32) {
    let merged = unsafe { &mut *w.merged.get() };
    let agg = unsafe { &mut *w.agg.get() };
    *agg = None;
    let mut a = fresh::<K>(how, how / 10);
    let mut order: Vec<usize> = (0..merged.len()).collect();
    let mut g = Rng::new(how as u64 ^ 77);
    for i in (1..order.len()).rev() {
        order.swap(i, g.below(i as u64 + 1) as usize);
    }
    for i in order {
        let Some(c) = recount(&merged[i].log, g.u64() as u32) else { return };
        merged[i].c = Some(c);
        match combine(&Op::new(0), a, &mut merged[i], g.u64() as u32, true) {
            Some(x) => a = x,
            None => return,
        }
    }
    *agg = Some(a);
    check(w, "aggregate after recounting");
}
fn check<K: Key>(w: &World<K>, what: &str) {
    let merged = unsafe { &*w.merged.get() };
    if let Some(a) = unsafe { &*w.agg.get() } {
        compare(a, &expect(merged), what);
    }
}
fn deliver<K: Key>(w: &World<K>, op: &Op) {
    let net = unsafe { &mut *w.net.get() };
    let merged = unsafe { &mut *w.merged.get() };
    let agg = unsafe { &mut *w.agg.get() };
    if net.is_empty() || aborted() {
        return;
    }
    let mut b = net.swap_remove(sched::pick(net.len()));
    let Some(a) = agg.take() else { return };
    let e = total(&b.log);
    match combine(op, a, &mut b, op.b, true) {
        Some(a) => {
            if let Some(c) = &b.c {
                compare(c, &e, "a batch after it was merged by reference");
            }
            *agg = Some(a);
            merged.push(b);
            check(w, "aggregate after a merge");
        }
        None => {
            hit(probe::CRASHED);
            merged.push(b);
            rebuild(w, op.a);
        }
    }
}

fn exec<K: Key>(w: &World<K>, op: &Op, me: usize) {
    let n = w.workers.len();
    let (net_l, agg_l) = (n, n + 1);
    let wi = me % n;
    let want: Vec<(usize, bool)> = match op.code {
        PROCESS | WEIGHTED | CRASH => vec![(wi, true)],
        SHIP => vec![(wi, true), (net_l, true)],
        DELIVER => vec![(net_l, true), (agg_l, true)],
        RETRACT | AGG_CRASH => vec![(agg_l, true)],
        CHECK => vec![(agg_l, false)],
        _ => vec![(net_l, true)],
    };
    let _held = sched::acquire(&want);
    if aborted() {
        return;
    }
    let worker = unsafe { &mut *w.workers[wi].get() };
    let net = unsafe { &mut *w.net.get() };
    match op.code {
        PROCESS => {
            let Some(k) = worker.as_mut() else { return };
            let v: Vec<u32> = (0..op.a % 64 * run().mult as u32).map(|i| (mix(op.b as u64 ^ (i as u64) << 20) % w.keys as u64) as u32).collect();
            let log = RefCell::new(Vec::with_capacity(v.len() + 1));
            k.log.extend(v.iter().map(|x| (*x, 1)));
            let r = sut(op, || {
                if op.b % 5 == 0 {
                    for x in &v {
                        let e = as_harness(|| K::make(*x));
                        on!(&mut k.c, c => c.push(e));
                    }
                } else {
                    on!(&mut k.c, c => c.extend(Src::<K>::new(&v, op.b, &log)))
                }
            });
            match r {
                Out::Ok(()) => compare(&k.c, &total(&k.log), "a worker's counter"),
                Out::Fault(_) => {
                    // the worker died in the middle of its shard: recount from scratch
                    hit(probe::CRASHED);
                    if let Some(c) = recount(&k.log, op.b) {
                        k.c = c;
                        compare(&k.c, &total(&k.log), "a recounted shard");
                    } else {
                        *worker = None;
                    }
                }
                Out::Lib(e) => lib("feeding", e),
            }
        }
        WEIGHTED => {
            let Some(k) = worker.as_mut() else { return };
            let item = (op.a % w.keys, 2 + ((op.b as usize) << (op.a % 40)));
            k.log.push(item);
            match recount::<K>(&vec![item], op.b) {
                Some(c) => {
                    let mut b = Batch { c: Some(c), log: vec![item] };
                    let c = std::mem::replace(&mut k.c, fresh(2, 0));
                    match combine(op, c, &mut b, op.b, true) {
                        Some(c) => k.c = c,
                        None => {
                            hit(probe::CRASHED);
                            match recount(&k.log, op.b) {
                                Some(c) => k.c = c,
                                None => *worker = None,
                            }
                        }
                    }
                }
                None => *worker = None,
            }
            if let Some(k) = worker.as_ref() {
                compare(&k.c, &total(&k.log), "a worker's counter");
            }
        }
        CRASH => {
            let Some(k) = worker.as_mut() else { return };
            hit(probe::CRASHED);
            match recount(&k.log, op.b) {
                Some(c) => {
                    k.c = c;
                    compare(&k.c, &total(&k.log), "a recounted shard");
                }
                None => *worker = None,
            }
        }
        SHIP => {
            let Some(k) = worker.as_mut() else { return };
            let r = plain(|| fresh::<K>(op.a, op.b));
            let Out::Ok(new) = r else { return };
            let c = std::mem::replace(&mut k.c, new);
            let log = std::mem::take(&mut k.log);
            // what travels: the counter itself, a copy, or a conversion of it
            let r = plain(|| match op.b % 6 {
                0 | 1 | 2 => c,
                3 => on!(&c, x => AnyC::from(x.clone())),
                4 => on!(&c, x => AnyC::from(Counter::<K, FnvBuildHasher>::from(&**x))),
                _ => {
                    let h: HashMap<K, usize> = on!(c, x => x.into_iter().collect());
                    AnyC::from(Counter::<K, crate::hasher::SimState>::from(h))
                }
            });
            match r {
                Out::Ok(c) => {
                    compare(&c, &total(&log), "a shipped batch");
                    net.push(Batch { c: Some(c), log });
                }
                Out::Fault(_) => {}
                Out::Lib(e) => lib("shipping", e),
            }
        }
        DELIVER => deliver(w, op),
        RETRACT => {
            let merged = unsafe { &mut *w.merged.get() };
            let agg = unsafe { &mut *w.agg.get() };
            if merged.is_empty() {
                return;
            }
            let mut b = merged.swap_remove(op.a as usize % merged.len());
            if b.c.is_none() || op.b % 8 == 7 {
                b.c = recount(&b.log, op.b);
            }
            let Some(a) = agg.take() else { return };
            if b.c.is_none() {
                return;
            }
            let e = minus(&plus(&expect(merged), &total(&b.log)).unwrap(), &total(&b.log));
            match combine(op, a, &mut b, op.b / 8, false) {
                Some(a) => {
                    compare(&a, &e, "aggregate after a retraction");
                    *agg = Some(a);
                    check(w, "aggregate after a retraction");
                    if op.b % 3 == 0 {
                        // sent again later
                        if b.c.is_none() {
                            b.c = recount(&b.log, op.a);
                        }
                        if b.c.is_some() {
                            drop(_held);
                            let _h = sched::acquire(&[(net_l, true)]);
                            net.push(b);
                        }
                    }
                }
                None => {
                    hit(probe::CRASHED);
                    rebuild(w, op.a)
                }
            }
        }
        CHECK => {
            check(w, "aggregate");
            let a = unsafe { &*w.agg.get() };
            if let Some(a) = a {
                let e = expect(unsafe { &*w.merged.get() });
                if let Out::Ok(v) = plain(|| on!(a, x => x.most_common())) {
                    let r: Vec<(u32, usize)> = v.iter().map(|(k, n)| (k.val(), *n)).collect();
                    check_ranking(&r, &e, CONV, "ranking of the aggregate");
                }
            }
        }
        RELAY => {
            // an intermediate node merges two batches into one
            if net.len() < 2 {
                return;
            }
            let x = net.swap_remove(sched::pick(net.len()));
            let mut y = net.swap_remove(sched::pick(net.len()));
            let mut log = x.log.clone();
            log.extend(y.log.iter().copied());
            let (how, a) = (op.a, x.c);
            let Some(a) = a else { return };
            match combine(op, a, &mut y, op.b, true).or_else(|| recount(&log, how)) {
                Some(c) => {
                    compare(&c, &total(&log), "a relayed batch");
                    net.push(Batch { c: Some(c), log });
                }
                None => {}
            }
        }
        LOSE => {
            if net.is_empty() {
                return;
            }
            // lost in transit: the sender recounts and sends again
            let i = sched::pick(net.len());
            hit(probe::NETLOSS);
            net[i].c = None;
            let c = recount(&net[i].log, op.b);
            match c {
                Some(c) => net[i].c = Some(c),
                None => {
                    net.swap_remove(i);
                }
            }
        }
        AGG_CRASH => {
            hit(probe::CRASHED);
            rebuild(w, op.a)
        }
        _ => {}
    }
    heap_check();
}

fn run_k<K: Key>(plan: &Plan) {
    let n = plan.clients();
    let w: World<K> = World {
        workers: (0..n).map(|_| UnsafeCell::new(None)).collect(),
        net: UnsafeCell::new(Vec::new()),
        agg: UnsafeCell::new(None),
        merged: UnsafeCell::new(Vec::new()),
        keys: plan.get("keys").max(1) as u32,
    };
    let body = |me: usize| {
        {
            let _h = sched::acquire(&[(me, true), (n + 1, true)]);
            let h = plan.get(["h0", "h1", "h2", "h3", "h4"][me % 5]) as u32;
            if let Out::Ok(c) = plain(|| fresh::<K>(h, h / 10)) {
                unsafe { *w.workers[me].get() = Some(Worker { c, log: Vec::new() }) };
            }
            let agg = unsafe { &mut *w.agg.get() };
            if agg.is_none() {
                if let Out::Ok(c) = plain(|| fresh::<K>(plan.get("h5") as u32, 3)) {
                    *agg = Some(c);
                }
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op, me);
        }
    };
    sched::clients(plan, n, n + 2, 256 << 10, &body);
    if !aborted() {
        // faults have stopped: everything is shipped and delivered, in some order
        let mut tail = Plan::default();
        let mut g = Rng::new(plan.seed ^ 0xD1);
        tail.pick = (0..64).map(|_| g.below(250) as u8).collect();
        let g = RefCell::new(g);
        let last = |_| {
            sched::note_op("final drain of the network".into());
            for i in 0..n {
                let mut o = Op::new(SHIP);
                o.b = g.borrow_mut().u64() as u32 % 4096;
                exec(&w, &o, i);
            }
            let mut left = 10_000;
            while !unsafe { &*w.net.get() }.is_empty() && !aborted() && left > 0 {
                let mut o = Op::new(DELIVER);
                o.b = g.borrow_mut().u64() as u32 % 4096;
                deliver(&w, &o);
                left -= 1;
            }
            check(&w, "final aggregate");
            unsafe {
                for x in &w.workers {
                    *x.get() = None;
                }
                (*w.net.get()).clear();
                *w.agg.get() = None;
                (*w.merged.get()).clear();
            }
        };
        sched::clients(&tail, 1, n + 2, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, CONV | LIFE | LEAK);
    match plan.get("kind") {
        0 => run_k::<Plain>(plan),
        1 => run_k::<Boxed>(plan),
        _ => run_k::<Cp>(plan),
    }
    end_checks(true);
}

pub fn gen(seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0xD157);
    let g = &mut g;
    let mut p = Plan { prop: "C08".into(), seed, ..Default::default() };
    p.set("kind", g.pick(&[0, 1, 2]));
    p.set("clients", g.pick(&[2, 2, 3, 3, 4, 5]));
    p.set("fill", g.below(4) as i64);
    p.set("keys", g.pick(&[2, 4, 8, 12, 40, 200]));
    for k in ["h0", "h1", "h2", "h3", "h4", "h5"] {
        p.set(k, g.below(400) as i64);
    }
    let medium = g.chance(1, 25);
    if medium {
        p.set("mult", g.pick(&[5, 20]));
    }
    let ws: &[(u8, u64)] = &[
        (PROCESS, 14), (WEIGHTED, 2), (SHIP, 9), (CRASH, 2), (DELIVER, 8), (RETRACT, 4), (CHECK, 2), (RELAY, 3), (LOSE, 1), (AGG_CRASH, 1),
    ];
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let frate = g.pick(&[0u64, 1, 3]);
    for _ in 0..if medium { 16 } else { crate::ring::long_history(seed).unwrap_or(g.pick(&[8u64, 16, 30, 50])) } {
        let mut t = g.below(total);
        let code = ws.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.a = g.below(4096) as u32;
        o.b = g.below(4096) as u32;
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match code {
                PROCESS => &[Fk::Next, Fk::Next, Fk::Next, Fk::Hash, Fk::Eq, Fk::Alloc],
                DELIVER | RETRACT | RELAY | WEIGHTED => &[Fk::Hash, Fk::Eq, Fk::Clone, Fk::Alloc],
                _ => &[],
            };
            if !kinds.is_empty() {
                o.fk = g.pick(kinds);
                o.fnth = g.small(if o.fk == Fk::Alloc { 2 } else if medium { 400 } else { 20 }) as u32;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
