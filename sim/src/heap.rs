//! The simulated heap: every allocation of the process goes through it.  While a client is
//! inside the library ("sut mode", a per-thread flag) requests are counted, can be refused
//! by the plan, and fresh memory is filled with a garbage pattern.  All blocks carry a header and red zones:
//! wrong layout on release, double release and out-of-bounds writes are recorded.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::Relaxed};

const HDR: usize = 64;
const TAIL: usize = 16;
const LIVE: u64 = 0xA110_CA7E_D00D_F00D;
const FREED: u64 = 0xDEAD_0B1C_DEAD_0B1C;
const RED: u8 = 0xE7;
/// single requests above this are refused in sut mode
const HUGE: usize = 48 << 20;

thread_local! {
    static SUT: Cell<bool> = const { Cell::new(false) };
    /// -1: no fault; -2: refuse everything; n >= 0: refuse after n more requests
    static ARM: Cell<i64> = const { Cell::new(-1) };
    static REQ: Cell<u64> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0xA5) };
    static REFUSED: Cell<bool> = const { Cell::new(false) };
}
pub static EPOCH: AtomicU32 = AtomicU32::new(0);
pub static SUT_LIVE: AtomicI64 = AtomicI64::new(0);
/// bytes the library holds
pub static SUT_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ERR: AtomicU32 = AtomicU32::new(0);
pub const ERR_NAMES: [&str; 6] =
    ["", "release of a block that is not allocated", "release with a different size or alignment than requested",
     "write beyond the end of a block", "write before the start of a block", "double release of a block"];

pub struct SimHeap;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    off: usize,
    sut: u32,
    epoch: u32,
    red: [u8; 24],
}

fn off(align: usize) -> usize {
    (HDR + align - 1) / align * align
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let sut = SUT.with(|m| m.get());
        if sut && !std::thread::panicking() {
            REQ.with(|r| r.set(r.get() + 1));
            let arm = ARM.with(|a| a.get());
            let mut refuse = l.size() > HUGE;
            if arm == -2 || arm == 0 {
                refuse = true;
            } else if arm > 0 {
                ARM.with(|a| a.set(arm - 1));
            }
            if refuse {
                REFUSED.with(|r| r.set(true));
                return std::ptr::null_mut();
            }
        }
        let o = off(l.align());
        let Some(total) = l.size().checked_add(o + TAIL) else { return std::ptr::null_mut() };
        let Ok(full) = Layout::from_size_align(total, l.align().max(16)) else { return std::ptr::null_mut() };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(o);
        let h = p.sub(HDR) as *mut Hdr;
        (*h).magic = LIVE;
        (*h).size = l.size();
        (*h).align = l.align();
        (*h).off = o;
        (*h).sut = sut as u32;
        (*h).epoch = EPOCH.load(Relaxed);
        (*h).red = [RED; 24];
        std::ptr::write_bytes(p.add(l.size()), RED, TAIL);
        if sut {
            SUT_LIVE.fetch_add(1, Relaxed);
            SUT_BYTES.fetch_add(l.size() as i64, Relaxed);
            std::ptr::write_bytes(p, FILL.with(|f| f.get()), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HDR) as *mut Hdr;
        if (*h).magic != LIVE {
            let e = if (*h).magic == FREED { 5 } else { 1 };
            let _ = ERR.compare_exchange(0, e, Relaxed, Relaxed);
            return;
        }
        let mut err = 0;
        if (*h).size != l.size() || (*h).align != l.align() {
            err = 2;
        }
        let size = (*h).size;
        for i in 0..TAIL {
            if *p.add(size + i) != RED {
                err = 3;
            }
        }
        if (*h).red != [RED; 24] {
            err = 4;
        }
        if err != 0 {
            let _ = ERR.compare_exchange(0, err, Relaxed, Relaxed);
        }
        if (*h).sut != 0 && (*h).epoch == EPOCH.load(Relaxed) {
            SUT_LIVE.fetch_sub(1, Relaxed);
            SUT_BYTES.fetch_sub((*h).size as i64, Relaxed);
        }
        (*h).magic = FREED;
        let o = (*h).off;
        std::ptr::write_bytes(p, 0xDD, size.min(4096));
        System.dealloc(p.sub(o), Layout::from_size_align_unchecked(size + o + TAIL, (*h).align.max(16)));
    }
}

/// Enter sut mode with an optional refusal fault.
pub fn enter(arm: i64, fill: u8) {
    ARM.with(|a| a.set(arm));
    REQ.with(|r| r.set(0));
    FILL.with(|f| f.set(fill));
    REFUSED.with(|r| r.set(false));
    SUT.with(|m| m.set(true));
}
/// Leave sut mode; returns (requests made, remaining arm, whether one was refused).
pub fn leave() -> (u64, i64, bool) {
    SUT.with(|m| m.set(false));
    let arm = ARM.with(|a| a.replace(-1));
    (REQ.with(|r| r.get()), arm, REFUSED.with(|r| r.get()))
}
/// Called by the allocation error hook: no further refusals while unwinding.
pub fn disarm() {
    ARM.with(|a| a.set(-1));
}
/// A fault was injected: what follows in this call (unwinding) is not the library's.
pub fn leave_quietly() {
    disarm();
    SUT.with(|m| m.set(false));
}
pub struct Harness(bool);
/// Harness code running inside a library call: allocations are not the library's.
pub fn harness() -> Harness {
    Harness(SUT.with(|m| m.replace(false)))
}
impl Drop for Harness {
    fn drop(&mut self) {
        SUT.with(|m| m.set(self.0));
    }
}
