//! Seeded hash families.

use crate::core::{draw, run};
use crate::rng::mix;
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Debug)]
pub struct SimState {
    pub kind: u8,
    pub seed: u64,
}
impl SimState {
    pub fn new(kind: u32) -> Self {
        let kind = if run().mult > 1 { kind % 2 } else { kind % 7 };
        SimState { kind: kind as u8, seed: draw() }
    }
}
impl Default for SimState {
    fn default() -> Self {
        SimState::new((draw() % 7) as u32)
    }
}
impl PartialEq for SimState {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for SimState {}
pub struct SimHasher {
    kind: u8,
    seed: u64,
    acc: u64,
    last: u64,
}
impl BuildHasher for SimState {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher { kind: self.kind, seed: self.seed, acc: 0, last: 0 }
    }
}
impl Hasher for SimHasher {
    fn finish(&self) -> u64 {
        let h = mix(self.seed ^ self.acc);
        match self.kind {
            0 | 1 => h,
            2 => 0,                        // everything collides
            3 => h & 3,                    // same control byte, few buckets
            4 => self.last,                // identity
            5 => h << 57,                  // one bucket, different control bytes
            _ => (self.last & 7) << 61 | self.last & 1, // structured
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.acc = mix(self.acc ^ *x as u64);
            self.last = self.last.wrapping_mul(256).wrapping_add(*x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.acc = mix(self.acc ^ x as u64);
        self.last = x as u64;
    }
}
