//! Per-run state, fault seams, the boundary between simulator and library, violations.

use crate::heap;
use crate::plan::{Fk, Op, Plan, FK_NAMES};
use crate::rng::mix;
use crate::sched;
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Global<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}

// violation classes (bit mask)
pub const CONTENT: u32 = 1; // result or contents differ from the reference model
pub const LIFE: u32 = 2; // an element used, returned or destroyed when it must not be
pub const LEAK: u32 = 4; // an element never destroyed
pub const PARTIAL: u32 = 8; // state after an interrupted operation is not a legal one
pub const ABANDON: u32 = 16; // after an abandoned iterator
pub const MEM: u32 = 32; // memory requests, refused memory, heap integrity, memory leak
pub const CLONE: u32 = 64; // clone completeness / isolation
pub const ENUM: u32 = 128; // enumeration / ranking
pub const CONV: u32 = 256; // convergence of distributed workloads
pub const ARITH: u32 = 512; // interval arithmetic
pub const FORM: u32 = 1024; // ill-formed interval
pub const SPACE: u32 = 2048; // memory held without need
pub const COST: u32 = 4096; // virtual time
pub const ORDER: u32 = 8192; // comparisons and what is sorted by them
pub const TEXT: u32 = 16384; // textual form
pub const STEPS: u32 = 1 << 30; // no progress
pub const ANY: u32 = 1 << 31;
const CLASS_NAMES: [(u32, &str); 17] = [
    (CONTENT, "content"), (LIFE, "element-life"), (LEAK, "element-leak"), (PARTIAL, "interrupted-operation"),
    (ABANDON, "abandoned-iterator"), (MEM, "memory"), (CLONE, "clone"), (ENUM, "listing"), (CONV, "convergence"),
    (ARITH, "arithmetic"), (FORM, "well-formedness"), (SPACE, "memory-held"), (COST, "virtual-time"), (ORDER, "order"), (TEXT, "text"), (STEPS, "no-progress"), (ANY, "unexpected"),
];
pub fn class_name(bits: u32) -> String {
    CLASS_NAMES.iter().filter(|(b, _)| bits & b != 0).map(|(_, n)| *n).collect::<Vec<_>>().join("+")
}

pub const NOUID: u32 = u32::MAX;

#[derive(Clone, Copy)]
pub struct Ent {
    pub live: bool,
    pub leak_ok: bool,
    pub hashed: bool,
    pub parent: u32,
    pub by: u8,
}

pub struct Run {
    pub scope: u32,
    pub abort: bool,
    pub trace: u64,
    pub ileave: u64,
    pub nonce: u64,
    pub reg: Vec<Ent>,
    pub zst_live: i64,
    pub zst_leak_ok: i64,
    pub fill: u8,
    pub draws: u64,
    pub step: u64,
    pub fired: u64,
    pub verbose: bool,
    pub lenient: bool,
    pub range: i64,
    pub wrap: u8,
    /// one value is unequal to everything (like a float's NaN)
    pub nan: bool,
    /// bulk factor of the rare large runs
    pub mult: usize,
}
pub static RUN: Global<Run> = Global(UnsafeCell::new(Run {
    scope: 0, abort: false, trace: 0, ileave: 0, nonce: 0, reg: Vec::new(), zst_live: 0, zst_leak_ok: 0, fill: 0xA5,
    draws: 0, step: 0, fired: 0, verbose: false, lenient: false, range: 0, wrap: 0, nan: false, mult: 1,
}));
/// Only the client holding the baton (or the driver while no client runs) calls this.
#[allow(clippy::mut_from_ref)]
pub fn run() -> &'static mut Run {
    unsafe { &mut *RUN.0.get() }
}

pub const PROBES: [&str; 32] = [
    "ring wrapped", "ring full push", "ring capacity 0", "ring shrink discards", "ring rotated linearize",
    "ring interrupted operation", "ring append overflow", "ring out-of-range panic", "alloc refused, nothing changed",
    "iterator abandoned midway", "iterator leaked", "consumer crashed", "counter table grown", "counter key removed",
    "counter saturated", "counter huge count", "feed interrupted", "merge interrupted", "dset union of unions",
    "dset chain deeper than 2 possible", "dset enumeration abandoned", "dset update interrupted", "interval order reversed",
    "interval collapsed to empty", "interval overflow midway", "interval merge refused", "clone interrupted",
    "shared readers overlapped", "network reordered", "network lost a message", "network duplicated a message", "receiver restarted and replayed",
];
pub mod probe {
    pub const WRAP: usize = 0;
    pub const FULL: usize = 1;
    pub const CAP0: usize = 2;
    pub const SHRINK: usize = 3;
    pub const ROTLIN: usize = 4;
    pub const RINT: usize = 5;
    pub const APPOVF: usize = 6;
    pub const OOB: usize = 7;
    pub const REFUSED: usize = 8;
    pub const ABANDON: usize = 9;
    pub const LEAKED: usize = 10;
    pub const CRASHED: usize = 11;
    pub const GROWN: usize = 12;
    pub const REMOVED: usize = 13;
    pub const SATUR: usize = 14;
    pub const HUGE: usize = 15;
    pub const FEEDINT: usize = 16;
    pub const MERGEINT: usize = 17;
    pub const UU: usize = 18;
    pub const DEEP: usize = 19;
    pub const ENUMAB: usize = 20;
    pub const DSINT: usize = 21;
    pub const REVERSED: usize = 22;
    pub const COLLAPSED: usize = 23;
    pub const OVERFLOW: usize = 24;
    pub const REFUSEDMERGE: usize = 25;
    pub const CLONEINT: usize = 26;
    pub const OVERLAP: usize = 27;
    pub const NETREORDER: usize = 28;
    pub const NETLOSS: usize = 29;
    pub const NETDUP: usize = 30;
    pub const RESTARTED: usize = 31;
}

/// Totals over all runs of this process.
#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub ops: u64,
    pub seams: u64,
    pub switches: u64,
    pub preempts: u64,
    pub forced: u64,
    pub aborted: u64,
    pub fired: [u64; 12],
    pub armed: [u64; 12],
    pub probes: [u64; 32],
    pub stack: u64,
    pub vclock: u64,
    pub space: u64,
}
pub static STATS: Global<Option<Box<Stats>>> = Global(UnsafeCell::new(None));
pub fn stats() -> &'static mut Stats {
    unsafe { (*STATS.0.get()).get_or_insert_with(Default::default) }
}
pub fn hit(p: usize) {
    stats().probes[p] += 1;
}
pub fn trace(x: u64) {
    let r = run();
    r.trace = mix(r.trace ^ x);
}

pub struct Tls {
    pub client: Cell<usize>,
    pub in_sut: Cell<bool>,
    fk: Cell<Fk>,
    n: Cell<i64>,
    pub fired: Cell<bool>,
    seams: Cell<u64>,
    pub req: Cell<u64>,
}
thread_local! {
    pub static TLS: Tls = const { Tls { client: Cell::new(0), in_sut: Cell::new(false), fk: Cell::new(Fk::None), n: Cell::new(0),
        fired: Cell::new(false), seams: Cell::new(0), req: Cell::new(0) } };
}

/// Payload of injected panics.
pub struct SimFault(pub Fk);

const SEAM_LIMIT: u64 = 30_000_000;

/// A point where the library calls back into caller code (kind), about element `x`.
pub fn seam(kind: Fk, x: u64) {
    if !TLS.with(|t| t.in_sut.get()) {
        return;
    }
    let r = run();
    r.trace = mix(r.trace ^ ((kind as u64) << 56) ^ x);
    stats().seams += 1;
    let n = TLS.with(|t| {
        let n = t.seams.get() + 1;
        t.seams.set(n);
        n
    });
    if n > SEAM_LIMIT {
        violation(STEPS, "an operation made 30000000 callbacks without finishing");
    }
    if std::thread::panicking() {
        return;
    }
    sched::preempt_point();
    fault_point(kind);
}

/// Fires the armed fault of this kind when its turn comes.
pub fn fault_point(kind: Fk) {
    if kind == Fk::None || std::thread::panicking() {
        return;
    }
    let fire = TLS.with(|t| {
        if t.fk.get() != kind {
            return false;
        }
        let n = t.n.get();
        t.n.set(n - 1);
        if n == 0 {
            t.fired.set(true);
            t.fk.set(Fk::None);
        }
        n == 0
    });
    if fire {
        inject(kind);
    }
}
pub fn inject(kind: Fk) -> ! {
    TLS.with(|t| t.fired.set(true));
    stats().fired[kind as usize] += 1;
    let r = run();
    r.fired += 1;
    r.trace = mix(r.trace ^ 0xFA17 ^ ((kind as u64) << 40));
    if r.verbose {
        say(&format!("      fault fires: {}", FK_NAMES[kind as usize]));
    }
    heap::leave_quietly();
    panic_any(SimFault(kind));
}

/// What the allocation error hook does.
pub fn alloc_refused() -> ! {
    heap::disarm();
    inject(Fk::Alloc)
}

pub enum Out<R> {
    Ok(R),
    Fault(Fk),
    Lib(String),
}

pub fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs a library call with the faults of `op` armed.
pub fn sut<R>(op: &Op, f: impl FnOnce() -> R) -> Out<R> {
    let arm = match op.fk {
        Fk::Alloc => op.fnth as i64,
        Fk::AllocAll => -2,
        _ => -1,
    };
    if op.fk != Fk::None {
        stats().armed[op.fk as usize] += 1;
    }
    TLS.with(|t| {
        t.fk.set(op.fk);
        t.n.set(op.fnth as i64);
        t.fired.set(false);
        t.seams.set(0);
        t.in_sut.set(true);
    });
    heap::enter(arm, run().fill);
    let r = catch_unwind(AssertUnwindSafe(f));
    let (req, _, refused) = heap::leave();
    TLS.with(|t| {
        t.in_sut.set(false);
        t.fk.set(Fk::None);
        t.req.set(req);
        if refused {
            t.fired.set(true);
        }
    });
    match r {
        Ok(v) => Out::Ok(v),
        Err(p) => {
            if let Some(f) = p.downcast_ref::<SimFault>() {
                let k = f.0;
                drop(p);
                Out::Fault(k)
            } else {
                let m = payload_msg(&*p);
                drop(p);
                TLS.with(|t| t.req.set(0));
                trace(0x11B);
                if run().verbose {
                    say(&format!("      library panic: {}", m));
                }
                Out::Lib(m)
            }
        }
    }
}
/// A library call without faults (still counted and preemptible).
pub fn plain<R>(f: impl FnOnce() -> R) -> Out<R> {
    sut(&Op::new(0), f)
}
pub fn fired() -> bool {
    TLS.with(|t| t.fired.get())
}
pub fn requests() -> u64 {
    TLS.with(|t| t.req.get())
}
/// Caller code (a consumer, a source) running inside `sut`: its own memory is not the library's.
pub fn as_harness<R>(f: impl FnOnce() -> R) -> R {
    let was = TLS.with(|t| t.in_sut.replace(false));
    let g = heap::harness();
    let r = f();
    drop(g);
    TLS.with(|t| t.in_sut.set(was));
    r
}
/// Library call made by the oracle: no faults, no preemption; a panic is a violation of `bits`.
pub fn observe<R>(bits: u32, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            let m = payload_msg(&*p);
            violation(bits, &format!("{} panicked: {}", what, m));
            None
        }
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}
pub fn say(s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.push(b'\n');
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { write(1, b.as_ptr().add(o), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub const EXIT_VIOLATION: i32 = 10;

/// Reports a violation and ends the process, if the property under check covers its class;
/// otherwise the rest of the run is skipped.
pub fn violation(bits: u32, msg: &str) {
    let _h = heap::harness();
    let r = run();
    if r.abort {
        return;
    }
    if bits & (r.scope | STEPS | ANY) == 0 {
        if r.lenient {
            return;
        }
        if r.verbose {
            say(&format!("      (out of scope: {}: {})", class_name(bits), msg));
        }
        r.abort = true;
        return;
    }
    let shown = bits & (r.scope | STEPS | ANY);
    let mut msg = msg.replace('\n', " ");
    if msg.chars().count() > 900 {
        let (a, b): (String, Vec<char>) = (msg.chars().take(600).collect(), msg.chars().rev().take(250).collect());
        msg = format!("{} ... {}", a, b.into_iter().rev().collect::<String>());
    }
    let cl = sched::describe();
    say(&format!("V {} | {} | {} | trace {:016x}", class_name(shown), msg, cl, r.trace));
    exit_now(EXIT_VIOLATION);
}
pub fn aborted() -> bool {
    run().abort
}

/// Seeded replacement of the operating system's randomness.
static RAND_SEED: AtomicU64 = AtomicU64::new(0);
static RAND_N: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let s = RAND_SEED.load(Relaxed);
    for i in 0..n {
        if i % 8 == 0 {
            RAND_N.fetch_add(1, Relaxed);
        }
        *buf.add(i) = (mix(s ^ mix(RAND_N.load(Relaxed))) >> (8 * (i % 8))) as u8;
    }
    n as isize
}

pub fn me() -> u8 {
    TLS.with(|t| t.client.get()) as u8
}
pub fn draw() -> u64 {
    let r = run();
    r.draws += 1;
    mix(r.nonce ^ mix(r.draws))
}

/// Resets everything for a new run.
pub fn begin(plan: &Plan, scope: u32) {
    RAND_SEED.store(mix(plan.seed ^ 0x5EED), Relaxed);
    RAND_N.store(0, Relaxed);
    let r = run();
    r.scope = scope;
    r.abort = false;
    r.lenient = plan.prop == "C02";
    r.trace = 0;
    r.ileave = 0;
    r.nonce = mix(plan.seed ^ 0x4E4F_4E43);
    r.reg.clear();
    r.zst_live = 0;
    r.zst_leak_ok = 0;
    r.fill = [0xA5, 0x00, 0xFF, 0x01][plan.get("fill") as usize % 4];
    r.range = plan.get("range").max(1);
    r.wrap = plan.get("wrap") as u8;
    r.nan = plan.get("nan") == 1;
    r.mult = plan.get("mult").max(1) as usize;
    r.draws = 0;
    r.step = 0;
    r.fired = 0;
    heap::EPOCH.fetch_add(1, Relaxed);
    heap::SUT_LIVE.store(0, Relaxed);
    heap::SUT_BYTES.store(0, Relaxed);
    heap::ERR.store(0, Relaxed);
}

/// End of run: everything destroyed? (called after all clients are done and objects are gone)
pub fn end_checks(check_mem: bool) {
    if aborted() {
        return;
    }
    let r = run();
    for (i, e) in r.reg.iter().enumerate() {
        if e.live && !e.leak_ok {
            violation(LEAK, &format!("element #{} was never destroyed", i));
            break;
        }
    }
    if r.zst_live < 0 || r.zst_live > r.zst_leak_ok {
        violation(LEAK, &format!("{} zero-sized elements never destroyed (or destroyed too often)", r.zst_live));
    }
    heap_check();
    if check_mem {
        let l = heap::SUT_LIVE.load(Relaxed);
        if l != 0 {
            violation(MEM, &format!("{} memory blocks of the library were never released", l));
        }
    }
}
pub fn heap_check() {
    let e = heap::ERR.load(Relaxed);
    if e != 0 {
        violation(MEM | LIFE, &format!("heap: {}", heap::ERR_NAMES[e as usize]));
    }
}

/// the i-th union of a sequence that makes a chain of a forest whose ranks are not what they should be:
/// growing stars (even `kind`), or elements united with themselves ever more often (odd), each then joined to the chain
pub fn rank_trap(kind: u32, i: u32, salt: u32) -> (u32, u32) {
    let (s, e, link) = if kind % 2 == 0 {
        // stage s: a star of 2s+2 elements
        let mut s = (((1 + 4 * i as u64) as f64).sqrt() as u32).saturating_sub(1) / 2;
        while s > 0 && s * s + s > i {
            s -= 1;
        }
        while (s + 1) * (s + 1) + s + 1 <= i {
            s += 1;
        }
        let (root, j) = (s * s + s, i - s * s - s);
        (s, if j <= 2 * s { (root, root + 1 + j) } else { (root, root.saturating_sub(2 * s)) }, j > 2 * s)
    } else {
        // stage s: s+1 unions that change nothing
        let start = |s: u64| s * (s + 3) / 2;
        let mut s = (2.0 * i as f64).sqrt() as u64;
        while s > 0 && start(s) > i as u64 {
            s -= 1;
        }
        while start(s + 1) <= i as u64 {
            s += 1;
        }
        let j = i as u64 - start(s);
        let s = s as u32;
        let x = if salt & 4 == 0 { 1 } else { 2 };
        (s, if j <= s as u64 { (s * x, s * x + x - 1) } else { (s * x, (s * x).saturating_sub(x)) }, j > s as u64)
    };
    let _ = s;
    let flip = if link { salt & 1 } else { salt >> 1 & 1 };
    if flip == 0 { e } else { (e.1, e.0) }
}
