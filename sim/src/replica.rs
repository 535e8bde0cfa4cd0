//! C25: replicas of a partition. Nodes hold the same disjoint set; facts ("x exists", "a and b
//! belong together") travel over a simulated network (reordering, duplication, loss with late
//! retransmission), nodes gossip their enumerated subsets, ship clones of themselves, compact
//! their logs by enumeration, crash and replay their durable logs in another order.

use crate::core::*;
use crate::dset::{fresh, groups, join, read, AnyD, DKey, Part};
use crate::elem::*;
use crate::iters::*;
use crate::ond;
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule};
use crate::rng::{mix, Rng};
use crate::sched;
use std::cell::{RefCell, UnsafeCell};

pub const NAMES: [&str; 10] =
    ["emit", "deliver", "duplicate", "lose", "gossip", "transfer", "crash", "compact", "ask", "burst"];
const EMIT: u8 = 0;
const DELIVER: u8 = 1;
const DUPLICATE: u8 = 2;
const LOSE: u8 = 3;
const GOSSIP: u8 = 4;
const TRANSFER: u8 = 5;
const CRASH: u8 = 6;
const COMPACT: u8 = 7;
const ASK: u8 = 8;
const BURST: u8 = 9;

/// elements of one subset, in some order; one element alone is a subset too
type Fact = Vec<u32>;
enum Msg<K: DKey> {
    Facts(Vec<Fact>),
    /// a whole replica with what is in it
    Copy(AnyD<K>, Part, Vec<Fact>),
}
struct Node<K: DKey> {
    d: Option<AnyD<K>>,
    log: Vec<Fact>,
    part: Part,
}
struct World<K: DKey> {
    nodes: Vec<UnsafeCell<Node<K>>>,
    /// lock n; (receiver, message)
    net: UnsafeCell<Vec<(usize, Msg<K>)>>,
    lost: UnsafeCell<Vec<(usize, Vec<Fact>)>>,
    all: UnsafeCell<Vec<Fact>>,
    keys: u32,
    probes: Vec<K>,
}
fn learn(p: &mut Part, f: &Fact) {
    join(p, f[0], f[0]);
    for w in f.windows(2) {
        join(p, w[0], w[1]);
    }
}
fn check<K: DKey>(w: &World<K>, n: &Node<K>, what: &str) {
    let Some(d) = &n.d else { return };
    if aborted() {
        return;
    }
    let Some((part, len, empty, odd)) = observe(CONV, what, || read(d, &w.probes, &n.part, len_seed(n))) else { return };
    if let Some(s) = odd {
        violation(CONV, &format!("{}: {}", what, s));
    }
    if len != n.part.len() || empty != n.part.is_empty() {
        violation(CONV, &format!("{}: len() = {}, is_empty() = {}, {} elements are known", what, len, empty, n.part.len()));
    }
    let (g, e) = (groups(&part), groups(&n.part));
    if g != e {
        violation(CONV, &format!("{}: subsets {:?}, expected {:?}", what, g, e));
    }
    trace(mix(part.len() as u64 ^ (g.len() as u64) << 32));
}
fn len_seed<K: DKey>(n: &Node<K>) -> u64 {
    n.log.len() as u64
}
/// applies facts to a set in one of several ways
fn apply<K: DKey>(op: &Op, d: &mut AnyD<K>, facts: &[Fact], how: u32) -> Out<()> {
    let log = RefCell::new(Vec::with_capacity(facts.iter().map(|f| f.len()).sum::<usize>() + 2));
    sut(op, || {
        for (i, f) in facts.iter().enumerate() {
            let how = mix(how as u64 ^ (i as u64) << 32) as u32;
            if how % 4 == 0 || f.len() == 1 {
                // registered first
                if how % 8 < 4 {
                    ond!(&mut *d, x => x.extend(Src::<K>::new(f, how / 8 % 4, &log)));
                } else {
                    for v in f {
                        let k = as_harness(|| K::make(*v));
                        ond!(&mut *d, x => x.make_set(k));
                    }
                }
            }
            for (j, w) in f.windows(2).enumerate() {
                // each element to the one before it, or to the first one
                let a = if how / 32 % 2 == 0 { w[0] } else { f[0] };
                let (a, b) = if how / 64 % 3 == (j % 2) as u32 { (a, w[1]) } else { (w[1], a) };
                let (a, b) = as_harness(|| (K::make(a), K::make(b)));
                ond!(&mut *d, x => x.union(a, b));
            }
        }
    })
}
fn shuffled(facts: &[Fact], seed: u64) -> Vec<Fact> {
    let mut v = facts.to_vec();
    let mut g = Rng::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, g.below(i as u64 + 1) as usize);
    }
    for f in v.iter_mut() {
        if g.chance(1, 3) {
            f.reverse();
        }
    }
    v
}
/// the node lost its memory: replays its log in some order
fn restart<K: DKey>(w: &World<K>, n: &mut Node<K>, how: u32) {
    hit(probe::CRASHED);
    let old = n.d.take();
    let _ = plain(|| drop(old));
    let Out::Ok(mut d) = plain(|| fresh::<K>(how, how / 10)) else { return };
    let facts = shuffled(&n.log, how as u64);
    match apply(&Op::new(0), &mut d, &facts, how) {
        Out::Ok(()) => {}
        Out::Fault(_) => return,
        Out::Lib(e) => violation(CONV, &format!("replaying a log panicked: {}", e)),
    }
    n.d = Some(d);
    n.part = Part::new();
    for f in &n.log {
        learn(&mut n.part, f);
    }
    check(w, n, "a restarted node");
}
fn take<K: DKey>(w: &World<K>, op: &Op, n: &mut Node<K>, m: Msg<K>) {
    if aborted() {
        return;
    }
    match m {
        Msg::Facts(fs) => {
            n.log.extend(fs.iter().cloned());
            let Some(d) = n.d.as_mut() else { return restart(w, n, op.b) };
            match apply(op, d, &fs, op.b) {
                Out::Ok(()) => {
                    for f in &fs {
                        learn(&mut n.part, f);
                    }
                    check(w, n, "a node after a delivery");
                }
                Out::Fault(_) => restart(w, n, op.b),
                Out::Lib(e) => violation(CONV, &format!("applying facts panicked: {}", e)),
            }
        }
        Msg::Copy(mut d, mut part, facts) => {
            // what it knew itself is added to the copy
            let own = shuffled(&n.log, op.b as u64);
            match apply(op, &mut d, &own, op.b) {
                Out::Ok(()) => {
                    for f in &own {
                        learn(&mut part, f);
                    }
                    n.log.extend(facts);
                    let old = n.d.replace(d);
                    let _ = plain(|| drop(old));
                    n.part = part;
                    check(w, n, "a node that took over a copy");
                }
                Out::Fault(_) => {
                    let _ = plain(|| drop(d));
                    n.log.extend(facts);
                    restart(w, n, op.b)
                }
                Out::Lib(e) => violation(CONV, &format!("merging into a copy panicked: {}", e)),
            }
        }
    }
}
fn listing<K: DKey>(op: &Op, n: &mut Node<K>) -> Option<Vec<Fact>> {
    let total: usize = n.part.len();
    let out: RefCell<Vec<Fact>> = RefCell::new(Vec::with_capacity(total + 1));
    let r = sut(op, || {
        ond!(n.d.as_mut().unwrap(), x => for s in x {
            let mut f = as_harness(Vec::new);
            for k in s {
                as_harness(|| {
                    k.check("enumerating");
                    f.push(k.val())
                });
            }
            as_harness(|| out.borrow_mut().push(f));
        })
    });
    match r {
        Out::Ok(()) => {}
        Out::Fault(_) => return None,
        Out::Lib(e) => {
            violation(CONV, &format!("enumerating panicked: {}", e));
            return None;
        }
    }
    let out = out.into_inner();
    let mut e: Vec<Vec<u32>> = groups(&n.part).into_iter().map(|g| g.into_iter().collect()).collect();
    let mut g = out.clone();
    g.iter_mut().for_each(|f| f.sort());
    g.sort();
    e.sort();
    if g != e {
        violation(CONV, &format!("a node lists the subsets {:?}, expected {:?}", g, e));
        return None;
    }
    Some(out)
}
fn emit<K: DKey>(w: &World<K>, op: &Op, me: usize) {
    let u = w.keys;
    let n = unsafe { &mut *w.nodes[me].get() };
    let net = unsafe { &mut *w.net.get() };
    let all = unsafe { &mut *w.all.get() };
    let key = |i: u32| (mix(op.a as u64 ^ (i as u64) << 20) % u as u64) as u32;
    let count = if op.code == BURST { 1 + op.b % 12 * run().mult as u32 } else { 1 };
    let fs: Vec<Fact> = (0..count)
        .map(|i| match (op.b / 16 + i) % 6 {
            0 => vec![key(i)],
            1 => vec![key(i), key(i)],
            2 => (0..2 + key(i) % 5).map(|j| key(i + j + 1)).collect(),
            // neighbours: long chains over time
            3 => vec![key(i), (key(i) + 1) % u],
            _ => vec![key(i), key(i + 1)],
        })
        .collect();
    all.extend(fs.iter().cloned());
    for i in 0..w.nodes.len() {
        if i != me {
            if op.b / 128 % 3 == 0 {
                for f in &fs {
                    net.push((i, Msg::Facts(vec![f.clone()])));
                }
            } else {
                net.push((i, Msg::Facts(fs.clone())));
            }
        }
    }
    take(w, op, n, Msg::Facts(fs));
}
fn exec<K: DKey>(w: &World<K>, op: &Op, me: usize) {
    let nn = w.nodes.len();
    let me = me % nn;
    let want: Vec<(usize, bool)> = match op.code {
        DUPLICATE | LOSE => vec![(nn, true)],
        CRASH | COMPACT | ASK => vec![(me, true)],
        _ => vec![(me, true), (nn, true)],
    };
    let _held = sched::acquire(&want);
    if aborted() {
        return;
    }
    let n = unsafe { &mut *w.nodes[me].get() };
    let net = unsafe { &mut *w.net.get() };
    let to = (me + 1 + op.a as usize % nn.max(2).saturating_sub(1)) % nn;
    match op.code {
        EMIT | BURST => emit(w, op, me),
        DELIVER => {
            let mine: Vec<usize> = (0..net.len()).filter(|i| net[*i].0 == me).collect();
            if mine.is_empty() {
                return;
            }
            let (_, m) = net.swap_remove(mine[sched::pick(mine.len())]);
            take(w, op, n, m);
        }
        DUPLICATE => {
            if net.is_empty() {
                return;
            }
            let i = sched::pick(net.len());
            let m = match &net[i].1 {
                Msg::Facts(f) => Msg::Facts(f.clone()),
                Msg::Copy(d, p, f) => match plain(|| d.clone()) {
                    Out::Ok(d) => Msg::Copy(d, p.clone(), f.clone()),
                    _ => return,
                },
            };
            let to = if op.b % 2 == 0 { net[i].0 } else { op.a as usize % nn };
            net.push((to, m));
        }
        LOSE => {
            if net.is_empty() {
                return;
            }
            hit(probe::NETLOSS);
            let (to, m) = net.swap_remove(sched::pick(net.len()));
            match m {
                Msg::Facts(f) => unsafe { (*w.lost.get()).push((to, f)) },
                Msg::Copy(d, ..) => {
                    let _ = plain(|| drop(d));
                }
            }
        }
        GOSSIP => {
            if n.d.is_none() {
                return;
            }
            if let Some(fs) = listing(op, n) {
                net.push((to, Msg::Facts(shuffled(&fs, op.b as u64))));
            }
        }
        TRANSFER => {
            let Some(d) = &n.d else { return };
            match sut(op, || d.clone()) {
                Out::Ok(c) => net.push((to, Msg::Copy(c, n.part.clone(), n.log.clone()))),
                Out::Fault(_) => {}
                Out::Lib(e) => violation(CONV, &format!("cloning panicked: {}", e)),
            }
            check(w, n, "a node after it was copied");
        }
        CRASH => restart(w, n, op.b),
        COMPACT => {
            if n.d.is_none() {
                return;
            }
            if let Some(fs) = listing(op, n) {
                n.log = fs;
            }
            check(w, n, "a node after compaction");
        }
        _ => {
            let Some(d) = n.d.as_mut() else { return };
            for i in 0..6u32 {
                let (a, b) = (mix(op.a as u64 ^ (i as u64) << 16) as usize % w.probes.len(), mix(op.b as u64 ^ (i as u64) << 24) as usize % w.probes.len());
                let (a, b) = (&w.probes[a], &w.probes[b]);
                let mut g = (false, false);
                if let Out::Ok(()) = plain(|| g = ond!(&mut *d, x => (x.in_union(a, b), x.contains(a)))) {
                    let e = n.part.get(&a.val()).is_some() && n.part.get(&a.val()) == n.part.get(&b.val());
                    if g != (e, n.part.contains_key(&a.val())) {
                        violation(CONV, &format!("(in_union({0}, {1}), contains({0})) is {2:?}", a.val(), b.val(), g));
                    }
                }
            }
        }
    }
    heap_check();
}
fn run_k<K: DKey>(plan: &Plan) {
    let n = plan.clients();
    let keys = plan.get("keys").max(1) as u32;
    let w: World<K> = World {
        nodes: (0..n).map(|_| UnsafeCell::new(Node { d: None, log: vec![], part: Part::new() })).collect(),
        net: UnsafeCell::new(vec![]),
        lost: UnsafeCell::new(vec![]),
        all: UnsafeCell::new(vec![]),
        keys,
        probes: (0..keys + 2).map(K::make).collect(),
    };
    let body = |me: usize| {
        {
            let _h = sched::acquire(&[(me, true)]);
            let h = plan.get(["h0", "h1", "h2", "h3", "h4"][me % 5]) as u32;
            if let Out::Ok(d) = plain(|| fresh::<K>(h, h / 10)) {
                unsafe { (*w.nodes[me].get()).d = Some(d) };
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op, me);
        }
    };
    sched::clients(plan, n, n + 1, 256 << 10, &body);
    if !aborted() {
        // faults have stopped: everything lost is sent again and everything is delivered, in some order
        let mut tail = Plan::default();
        let mut g = Rng::new(plan.seed ^ 0xD5);
        tail.pick = (0..64).map(|_| g.below(250) as u8).collect();
        let g = RefCell::new(g);
        let last = |_| {
            sched::note_op("final delivery".into());
            let net = unsafe { &mut *w.net.get() };
            for (to, f) in unsafe { (*w.lost.get()).drain(..) } {
                net.push((to, Msg::Facts(f)));
            }
            while !net.is_empty() && !aborted() {
                let (to, m) = net.swap_remove(sched::pick(net.len()));
                let mut o = Op::new(DELIVER);
                o.b = g.borrow_mut().u64() as u32 % 4096;
                take(&w, &o, unsafe { &mut *w.nodes[to].get() }, m);
            }
            let mut e = Part::new();
            for f in unsafe { &*w.all.get() } {
                learn(&mut e, f);
            }
            for i in 0..n {
                let node = unsafe { &mut *w.nodes[i].get() };
                if node.d.is_none() {
                    restart(&w, node, 3);
                }
                if aborted() {
                    return;
                }
                // agreement: what every node knows is all there is to know
                node.part = e.clone();
                check(&w, node, "a replica at the end");
                if node.d.is_some() && !aborted() {
                    let _ = listing(&Op::new(0), node);
                }
            }
            for x in &w.nodes {
                let d = unsafe { (*x.get()).d.take() };
                let _ = plain(|| drop(d));
            }
        };
        sched::clients(&tail, 1, n + 1, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    }
}
pub fn execute(plan: &Plan) {
    begin(plan, CONV | LIFE | LEAK);
    match plan.get("kind") {
        0 => run_k::<Plain>(plan),
        1 => run_k::<Boxed>(plan),
        _ => run_k::<Cp>(plan),
    }
    end_checks(true);
}
pub fn gen(seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0x9E71);
    let g = &mut g;
    let mut p = Plan { prop: "C25".into(), seed, ..Default::default() };
    p.set("kind", g.pick(&[0, 1, 2]));
    p.set("clients", g.pick(&[2, 2, 3, 3, 4, 5]));
    p.set("fill", g.below(4) as i64);
    p.set("keys", g.pick(&[3, 6, 10, 10, 20, 50]));
    for k in ["h0", "h1", "h2", "h3", "h4"] {
        p.set(k, g.below(400) as i64);
    }
    let medium = g.chance(1, 25);
    if medium {
        p.set("mult", g.pick(&[4, 12]));
        p.set("keys", g.pick(&[60, 140, 300]));
    }
    let ws: &[(u8, u64)] =
        &[(EMIT, 12), (BURST, 4), (DELIVER, 16), (DUPLICATE, 3), (LOSE, 2), (GOSSIP, 4), (TRANSFER, 3), (CRASH, 2), (COMPACT, 2), (ASK, 3)];
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let frate = g.pick(&[0u64, 1, 3]);
    let nops = if medium { 14 } else { crate::ring::long_history(seed).map_or(g.pick(&[8u64, 16, 30, 50]), |n| n.min(300)) };
    for _ in 0..nops {
        let mut t = g.below(total);
        let code = ws.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.a = g.below(4096) as u32;
        o.b = g.below(4096) as u32;
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match code {
                EMIT | BURST | DELIVER => &[Fk::Hash, Fk::Eq, Fk::Alloc, Fk::Next],
                GOSSIP | COMPACT => &[Fk::Alloc],
                TRANSFER => &[Fk::Clone, Fk::Alloc],
                _ => &[],
            };
            if !kinds.is_empty() {
                o.fk = g.pick(kinds);
                o.fnth = g.small(if o.fk == Fk::Alloc { 2 } else { 12 }) as u32;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
