#![feature(alloc_error_hook)]
#![allow(dead_code)]
//! advsim: deterministic simulation of advanced_collections. See /verif/DESIGN.md.

#[cfg(not(feature = "cost"))]
mod cap;
mod clock;
mod core;
mod cost;
#[cfg(not(feature = "cost"))]
mod counter;
#[cfg(not(feature = "cost"))]
mod dist;
#[cfg(not(feature = "cost"))]
mod dset;
mod driver;
#[cfg(not(feature = "cost"))]
mod elem;
mod hasher;
mod heap;
#[cfg(not(feature = "cost"))]
mod iters;
#[cfg(not(feature = "cost"))]
mod iv;
#[cfg(not(feature = "cost"))]
mod lease;
mod plan;
mod props;
#[cfg(not(feature = "cost"))]
mod replica;
#[cfg(not(feature = "cost"))]
mod ring;
mod rng;
mod sched;

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

fn main() {
    std::process::exit(driver::main())
}
