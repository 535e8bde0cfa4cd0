//! Seeded scheduling: client threads run one at a time; who runs next is decided by the plan.

use crate::core::{aborted, exit_now, hit, probe, run, say, stats, Global, TLS};
use crate::plan::Plan;
use crate::rng::mix;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::thread::{self, Thread};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Waiting(usize),
    Done,
}
#[derive(Clone, Copy, Default)]
struct Lock {
    readers: u32,
    writer: bool,
}
struct Sched {
    st: Vec<St>,
    th: Vec<Thread>,
    locks: Vec<Lock>,
    opsw: Vec<u8>,
    io: usize,
    pre: Vec<(u16, u8)>,
    ip: usize,
    gap: u32,
    pick: Vec<u8>,
    ik: usize,
    cur_op: Vec<String>,
}
static S: Global<Option<Sched>> = Global(UnsafeCell::new(None));
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);

fn s() -> &'static mut Sched {
    unsafe { (*S.0.get()).as_mut().expect("no run in progress") }
}
fn me() -> usize {
    TLS.with(|t| t.client.get())
}

pub fn note_op(text: String) {
    let m = me();
    s().cur_op[m] = text;
}
pub fn describe() -> String {
    match unsafe { (*S.0.get()).as_ref() } {
        Some(s) => format!("client {} in {}", me(), s.cur_op.get(me()).cloned().unwrap_or_default()),
        None => String::new(),
    }
}

/// next value of the pick list (0 when exhausted)
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let x = s();
    let v = x.pick.get(x.ik).copied().unwrap_or(0);
    x.ik += 1;
    if v as usize % n > 0 {
        hit(probe::NETREORDER);
    }
    v as usize % n
}

fn give(to: usize) {
    let m = me();
    let r = run();
    r.ileave = mix(r.ileave ^ mix(to as u64) ^ r.step);
    r.trace = mix(r.trace ^ 0x5177 ^ to as u64);
    CUR.store(to, Release);
    s().th[to].unpark();
    wait(m);
}
fn wait(m: usize) {
    while CUR.load(Acquire) != m {
        thread::park();
    }
}
fn others() -> Vec<usize> {
    let m = me();
    let x = s();
    (0..x.st.len()).filter(|i| *i != m && x.st[*i] == St::Ready).collect()
}
fn maybe(choice: u8) -> bool {
    if choice == 0 {
        return false;
    }
    let o = others();
    if o.is_empty() {
        return false;
    }
    give(o[(choice as usize - 1) % o.len()]);
    true
}

/// operation boundary
pub fn op_point() {
    let x = s();
    let c = x.opsw.get(x.io).copied().unwrap_or(0);
    x.io += 1;
    if maybe(c) {
        stats().switches += 1;
    }
}
/// inside a library call or between the steps of a reader
pub fn preempt_point() {
    let x = s();
    if x.st.len() < 2 || x.ip >= x.pre.len() {
        return;
    }
    if x.gap > 0 {
        x.gap -= 1;
        return;
    }
    let c = x.pre[x.ip].1;
    x.ip += 1;
    x.gap = x.pre.get(x.ip).map(|p| p.0 as u32).unwrap_or(0);
    let _h = crate::heap::harness();
    if maybe(c) {
        stats().preempts += 1;
    }
}

fn block(on: usize) {
    let m = me();
    s().st[m] = St::Waiting(on);
    stats().forced += 1;
    let o = others();
    if o.is_empty() {
        say("H simulated deadlock (harness error)");
        exit_now(9);
    }
    give(o[pick(o.len())]);
}
pub fn lock(i: usize, write: bool) {
    loop {
        let l = &mut s().locks[i];
        if !l.writer && (!write || l.readers == 0) {
            if write {
                l.writer = true
            } else {
                l.readers += 1;
                if l.readers > 1 {
                    crate::core::hit(crate::core::probe::OVERLAP);
                }
            }
            return;
        }
        block(i);
    }
}
pub fn unlock(i: usize, write: bool) {
    let x = s();
    if write {
        x.locks[i].writer = false
    } else {
        x.locks[i].readers -= 1
    }
    for st in x.st.iter_mut() {
        if *st == St::Waiting(i) {
            *st = St::Ready
        }
    }
}
/// Locks held by the current operation; released in reverse order.
pub struct Held(Vec<(usize, bool)>);
/// acquires in ascending order; duplicates merged (write wins)
pub fn acquire(want: &[(usize, bool)]) -> Held {
    let mut v = want.to_vec();
    v.sort();
    let mut out: Vec<(usize, bool)> = Vec::new();
    for (i, w) in v {
        match out.last_mut() {
            Some(l) if l.0 == i => l.1 |= w,
            _ => out.push((i, w)),
        }
    }
    for (i, w) in &out {
        lock(*i, *w);
    }
    Held(out)
}
impl Drop for Held {
    fn drop(&mut self) {
        for (i, w) in self.0.iter().rev() {
            unlock(*i, *w);
        }
    }
}

struct Ptr<T: ?Sized>(*const T);
impl<T: ?Sized> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: ?Sized> Copy for Ptr<T> {}
unsafe impl<T: ?Sized> Send for Ptr<T> {}

/// Runs `body(client)` for every client on its own (fresh) thread under the plan's schedule.
pub fn clients(plan: &Plan, n: usize, nlocks: usize, stack: usize, body: &dyn Fn(usize)) {
    let sc = Sched {
        st: vec![St::Ready; n],
        th: Vec::new(),
        locks: vec![Lock::default(); nlocks],
        opsw: plan.opsw.clone(),
        io: 0,
        gap: plan.pre.first().map(|p| p.0 as u32).unwrap_or(0),
        pre: plan.pre.clone(),
        ip: 0,
        pick: plan.pick.clone(),
        ik: 0,
        cur_op: vec![String::new(); n],
    };
    unsafe { *S.0.get() = Some(sc) };
    CUR.store(usize::MAX, Release);
    let body = Ptr(body as *const dyn Fn(usize));
    thread::scope(|scope| {
        let mut hs = Vec::new();
        for i in 0..n {
            let h = thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(scope, move || {
                    let b = body;
                    TLS.with(|t| t.client.set(i));
                    wait(i);
                    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*b.0)(i) })) {
                        crate::core::violation(
                            crate::core::ANY,
                            &format!("panic outside of a guarded call: {}", crate::core::payload_msg(&*p)),
                        );
                    }
                    s().st[i] = St::Done;
                    let o = others();
                    if !o.is_empty() {
                        let to = o[pick(o.len())];
                        CUR.store(to, Release);
                        s().th[to].unpark();
                    }
                })
                .expect("cannot start a client thread");
            hs.push(h);
        }
        s().th = hs.iter().map(|h| h.thread().clone()).collect();
        let first = pick(n);
        CUR.store(first, Release);
        s().th[first].unpark();
        for h in hs {
            let _ = h.join();
        }
    });
    let _ = aborted();
    unsafe { *S.0.get() = None };
}
