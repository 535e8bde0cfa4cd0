//! Source iterators (caller code): configurable size hints, early end, panics, non-fused tails.

use crate::core::*;
use crate::elem::{Elem, M, m};
use crate::heap;
use crate::plan::Fk;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    Under,
    Over,
    /// claims more items than it has: safe code may do this, memory must stay safe
    LieHigh,
    /// claims fewer items than it has
    LieLow,
}
/// Only where nothing but memory and element safety is judged.
pub fn lies(b: u32) -> bool {
    run().lenient && b / 8 % 5 == 1
}
pub fn hint_of(b: u32) -> Hint {
    if lies(b) {
        return if b % 2 == 0 { Hint::LieHigh } else { Hint::LieLow };
    }
    [Hint::Exact, Hint::Unknown, Hint::Under, Hint::Over][(b % 4) as usize]
}
fn hint(h: Hint, left: usize) -> (usize, Option<usize>) {
    match h {
        Hint::Exact => (left, Some(left)),
        Hint::Unknown => (0, None),
        Hint::Under => (left / 2, None),
        // a legal loose hint: the upper bound is far above the truth
        Hint::Over => (0, Some(left * 3 + 5)),
        Hint::LieHigh => (left + 3, Some(left + 3)),
        Hint::LieLow => (left / 3, Some(left / 3)),
    }
}

/// Yields freshly made elements with the given values; logs what was handed over.
pub struct Src<'a, E> {
    vals: &'a [u32],
    pos: usize,
    hint: Hint,
    /// not fused: yields again after the first None
    zombie: bool,
    ended: bool,
    log: &'a std::cell::RefCell<Vec<M>>,
    _e: std::marker::PhantomData<E>,
}
impl<'a, E: Elem> Src<'a, E> {
    pub fn new(vals: &'a [u32], b: u32, log: &'a std::cell::RefCell<Vec<M>>) -> Self {
        Src { vals, pos: 0, hint: hint_of(b), zombie: b / 4 % 2 == 1, ended: false, log, _e: std::marker::PhantomData }
    }
}
impl<E: Elem> Iterator for Src<'_, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        seam(Fk::Next, self.pos as u64);
        if self.pos >= self.vals.len() {
            if self.ended && self.zombie {
                let _h = heap::harness();
                let e = E::make(77);
                self.log.borrow_mut().push(m(&e));
                return Some(e);
            }
            self.ended = true;
            return None;
        }
        let _h = heap::harness();
        let e = E::make(self.vals[self.pos]);
        self.pos += 1;
        self.log.borrow_mut().push(m(&e));
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.vals.len() - self.pos)
    }
}

/// Yields references; counts how many were handed over.
pub struct RefSrc<'a, E> {
    items: &'a [E],
    pos: usize,
    hint: Hint,
    pub log: &'a std::cell::Cell<usize>,
}
impl<'a, E> RefSrc<'a, E> {
    pub fn new(items: &'a [E], b: u32, log: &'a std::cell::Cell<usize>) -> Self {
        RefSrc { items, pos: 0, hint: hint_of(b), log }
    }
}
impl<'a, E: Elem> Iterator for RefSrc<'a, E> {
    type Item = &'a E;
    fn next(&mut self) -> Option<&'a E> {
        seam(Fk::Next, self.pos as u64);
        let r = self.items.get(self.pos);
        if r.is_some() {
            self.pos += 1;
            self.log.set(self.pos);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.items.len() - self.pos)
    }
}
