//! Virtual time of the "cost" build: the compiler puts a call at every basic block of the
//! library (and of the standard library's generic code compiled with it); the call advances
//! this clock.  Moved memory counts one step per 8 bytes.  The same plan always takes the
//! same number of steps, on every machine.  In the other builds the clock stands still.

#[cfg(feature = "cost")]
mod imp {
    use std::ptr::{addr_of, addr_of_mut, read_volatile, write_volatile};
    static mut CLOCK: u64 = 0;
    static mut LIMIT: u64 = u64::MAX;

    std::arch::global_asm!(
        r#"
.globl __sanitizer_cov_trace_pc
__sanitizer_cov_trace_pc:
    movq {clock}(%rip), %rax
    incq %rax
    movq %rax, {clock}(%rip)
    cmpq {limit}(%rip), %rax
    ja 1f
    ret
1:  movq $-1, {limit}(%rip)
    jmp {over}

.globl memcpy
memcpy:
    movq %rdi, %rax
    movq %rdx, %rcx
    shrq $3, %rcx
    addq %rcx, {clock}(%rip)
    movq %rdx, %rcx
    rep movsb
    ret

.globl memmove
memmove:
    movq %rdx, %rcx
    shrq $3, %rcx
    addq %rcx, {clock}(%rip)
    movq %rdi, %rax
    movq %rdx, %rcx
    movq %rdi, %r8
    subq %rsi, %r8
    cmpq %rdx, %r8
    jb 2f
    rep movsb
    ret
2:  leaq -1(%rdi,%rdx), %rdi
    leaq -1(%rsi,%rdx), %rsi
    std
    rep movsb
    cld
    ret
"#,
        clock = sym CLOCK,
        limit = sym LIMIT,
        over = sym overrun,
        options(att_syntax)
    );
    extern "C" fn overrun() {
        super::overrun()
    }
    pub fn now() -> u64 {
        unsafe { read_volatile(addr_of!(CLOCK)) }
    }
    pub fn limit(n: u64) {
        unsafe { write_volatile(addr_of_mut!(LIMIT), n) }
    }
}
#[cfg(not(feature = "cost"))]
mod imp {
    pub fn now() -> u64 {
        0
    }
    pub fn limit(_: u64) {}
}

pub use imp::{limit, now};
pub const ON: bool = cfg!(feature = "cost");

#[cfg_attr(not(feature = "cost"), allow(dead_code))]
fn overrun() {
    let _h = crate::heap::harness();
    crate::cost::overrun()
}
