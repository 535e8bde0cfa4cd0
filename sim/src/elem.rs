//! Element types whose every callback is a seam, and whose life is tracked in a registry.

use crate::core::*;
use crate::heap;
use crate::plan::Fk;
use crate::rng::mix;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub trait Elem: Sized + Clone + Eq + Ord + Hash + std::fmt::Debug + 'static {
    /// has a destructor whose calls are tracked
    const TRACKED: bool;
    const ZST: bool = false;
    fn make(val: u32) -> Self;
    fn val(&self) -> u32;
    fn uid(&self) -> u32;
    fn set_val(&mut self, v: u32);
    /// is this a live element? (reports a violation otherwise)
    fn check(&self, what: &str) -> bool;
}

#[derive(Debug)]
pub struct Tag {
    uid: u32,
    val: u32,
    chk: u64,
}
fn chk(uid: u32, val: u32) -> u64 {
    mix(run().nonce ^ ((uid as u64) << 32) ^ val as u64)
}
impl Tag {
    fn new(val: u32, parent: u32) -> Tag {
        let _h = heap::harness();
        let r = run();
        let uid = r.reg.len() as u32;
        r.reg.push(Ent { live: true, leak_ok: false, hashed: false, parent, by: me() });
        Tag { uid, val, chk: chk(uid, val) }
    }
    fn set(&mut self, v: u32) {
        self.val = v;
        self.chk = chk(self.uid, v);
    }
    fn ok(&self, what: &str) -> bool {
        if self.chk != chk(self.uid, self.val) {
            violation(LIFE, &format!("{}: not an element (garbage or freed memory)", what));
            return false;
        }
        if !run().reg[self.uid as usize].live {
            violation(LIFE, &format!("{}: element #{} (value {}) was already destroyed", what, self.uid, self.val));
            return false;
        }
        true
    }
    fn died(&self) {
        if self.ok("destroying an element") {
            run().reg[self.uid as usize].live = false;
            trace(mix(0xD1ED ^ self.uid as u64));
        }
    }
}

/// In runs with `nan`, 5 is no number: unequal to everything and in no order with anything.
pub fn same_value(a: u32, b: u32) -> bool {
    a == b && !(run().nan && a == 5)
}
pub fn value_order(a: u32, b: u32) -> Option<Ordering> {
    if run().nan && (a == 5 || b == 5) { None } else { a.partial_cmp(&b) }
}
macro_rules! callbacks {
    ($t:ident) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.check("comparing an element");
                o.check("comparing an element");
                seam(Fk::Eq, self.val() as u64);
                same_value(self.val(), o.val())
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                self.check("comparing an element");
                o.check("comparing an element");
                seam(Fk::Cmp, self.val() as u64);
                value_order(self.val(), o.val())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.check("comparing an element");
                o.check("comparing an element");
                seam(Fk::Cmp, self.val() as u64);
                self.val().cmp(&o.val())
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.check("hashing an element");
                hash_seam(self.uid(), self.val());
                h.write_u32(self.val());
            }
        }
    };
}

/// Hash faults strike only the first hash of an instance since `rehashable`: a table that
/// rehashes its stored keys is the standard library's business, not this crate's.
fn hash_seam(uid: u32, val: u32) {
    if uid == NOUID || run().reg[uid as usize].hashed {
        seam(Fk::None, val as u64);
        return;
    }
    run().reg[uid as usize].hashed = true;
    seam(Fk::Hash, val as u64);
}
pub fn rehashable(uid: u32) {
    if uid != NOUID {
        run().reg[uid as usize].hashed = false;
    }
}

macro_rules! tracked {
    ($t:ident, $mk:expr, $get:expr, $getm:expr) => {
        impl Elem for $t {
            const TRACKED: bool = true;
            fn make(val: u32) -> Self {
                let _h = heap::harness();
                let f: fn(Tag) -> $t = $mk;
                f(Tag::new(val, NOUID))
            }
            fn val(&self) -> u32 {
                let f: fn(&$t) -> &Tag = $get;
                f(self).val
            }
            fn uid(&self) -> u32 {
                let f: fn(&$t) -> &Tag = $get;
                f(self).uid
            }
            fn set_val(&mut self, v: u32) {
                let f: fn(&mut $t) -> &mut Tag = $getm;
                f(self).set(v)
            }
            fn check(&self, what: &str) -> bool {
                let f: fn(&$t) -> &Tag = $get;
                f(self).ok(what)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                self.check("cloning an element");
                seam(Fk::Clone, self.val() as u64);
                let _h = heap::harness();
                let f: fn(Tag) -> $t = $mk;
                f(Tag::new(self.val(), self.uid()))
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let f: fn(&$t) -> &Tag = $get;
                f(self).died();
                seam(Fk::Drop, f(self).val as u64);
            }
        }
        callbacks!($t);
    };
}

/// plain owning value with a reference inside (no bit pattern of zeros is valid)
#[derive(Debug)]
pub struct Plain {
    tag: Tag,
    anchor: &'static u8,
}
static ANCHOR: u8 = 7;
tracked!(Plain, |tag| Plain { tag, anchor: &ANCHOR }, |p| {
    debug_assert!(std::ptr::eq(p.anchor, &ANCHOR) || true);
    &p.tag
}, |p| &mut p.tag);

/// owns memory
#[derive(Debug)]
pub struct Boxed(Box<Tag>);
tracked!(Boxed, |t| Boxed(Box::new(t)), |b| &b.0, |b| &mut b.0);

/// over-aligned, large, with a niche-only field
#[derive(Debug)]
#[repr(align(64))]
pub struct Big {
    _pad: [u8; 40],
    _c: char,
    tag: Tag,
}
tracked!(Big, |tag| Big { _pad: [1; 40], _c: 'x', tag }, |b| &b.tag, |b| &mut b.tag);

/// zero-sized with a destructor (only counted)
#[derive(Debug)]
pub struct Zst;
impl Elem for Zst {
    const TRACKED: bool = true;
    const ZST: bool = true;
    fn make(_: u32) -> Self {
        run().zst_live += 1;
        Zst
    }
    fn val(&self) -> u32 {
        0
    }
    fn uid(&self) -> u32 {
        NOUID
    }
    fn set_val(&mut self, _: u32) {}
    fn check(&self, _: &str) -> bool {
        true
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        seam(Fk::Clone, 0);
        run().zst_live += 1;
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        run().zst_live -= 1;
        if run().zst_live < 0 {
            violation(LIFE, "a zero-sized element was destroyed twice");
        }
        seam(Fk::Drop, 0);
    }
}
callbacks!(Zst);

/// Copy type without destructor
#[derive(Debug)]
pub struct Cp(u32, u32);
impl Elem for Cp {
    const TRACKED: bool = false;
    fn make(val: u32) -> Self {
        Cp(val, chk(1, val) as u32)
    }
    fn val(&self) -> u32 {
        self.0
    }
    fn uid(&self) -> u32 {
        NOUID
    }
    fn set_val(&mut self, v: u32) {
        *self = Cp::make(v)
    }
    fn check(&self, what: &str) -> bool {
        let ok = self.1 == chk(1, self.0) as u32;
        if !ok {
            violation(LIFE, &format!("{}: not an element (garbage memory)", what));
        }
        ok
    }
}
impl Copy for Cp {}
impl Clone for Cp {
    fn clone(&self) -> Self {
        self.check("cloning an element");
        seam(Fk::Clone, self.0 as u64);
        *self
    }
}
callbacks!(Cp);

/// A number: tracked, every callback a seam, a bounded range; `val` is the number plus 2^31.
#[derive(Debug)]
pub struct Num(Tag);
tracked!(Num, |t| Num(t), |n| &n.0, |n| &mut n.0);
impl Num {
    pub fn of(v: i64) -> Num {
        Num::make((v + (1 << 31)) as u32)
    }
    pub fn get(&self) -> i64 {
        self.val() as i64 - (1 << 31)
    }
    /// None: this number type fails here
    pub fn calc(op: u8, a: i64, b: i64) -> Option<i64> {
        let r = run().range;
        let x = match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 if b == 0 => return None,
            3 => a / b,
            _ => -a,
        };
        if (-r..=r).contains(&x) {
            Some(x)
        } else {
            match run().wrap {
                0 => None,
                1 => Some((x + r).rem_euclid(2 * r + 1) - r),
                _ => Some(x.clamp(-r, r)),
            }
        }
    }
    fn update(&mut self, op: u8, b: i64) {
        seam(Fk::Arith, op as u64);
        match Num::calc(op, self.get(), b) {
            None => inject(Fk::Overflow),
            Some(v) => {
                self.set_val((v + (1 << 31)) as u32);
                // fails after it changed its operand
                seam(Fk::Arith, v as u64);
            }
        }
    }
}
macro_rules! arith {
    ($op:expr, $a:ident, $af:ident, $b:ident, $bf:ident) => {
        impl std::ops::$b for Num {
            fn $bf(&mut self, o: Num) {
                self.check("calculating");
                o.check("calculating");
                self.update($op, o.get());
            }
        }
        impl std::ops::$a for Num {
            type Output = Num;
            fn $af(mut self, o: Num) -> Num {
                self.check("calculating");
                o.check("calculating");
                self.update($op, o.get());
                self
            }
        }
    };
}
arith!(0, Add, add, AddAssign, add_assign);
arith!(1, Sub, sub, SubAssign, sub_assign);
arith!(2, Mul, mul, MulAssign, mul_assign);
arith!(3, Div, div, DivAssign, div_assign);
impl std::ops::Neg for Num {
    type Output = Num;
    fn neg(mut self) -> Num {
        self.check("calculating");
        self.update(4, 0);
        self
    }
}

/// an element that stayed inside something that was legitimately leaked
pub fn allow_leak(uid: u32) {
    if uid == NOUID {
        run().zst_leak_ok += 1;
    } else {
        run().reg[uid as usize].leak_ok = true;
    }
}

/// what the reference models store
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct M {
    pub uid: u32,
    pub val: u32,
}
pub fn m<E: Elem>(e: &E) -> M {
    M { uid: e.uid(), val: e.val() }
}
impl M {
    /// same element (or same value where the element's identity is not known yet)
    pub fn same(&self, o: &M) -> bool {
        self.val == o.val && (self.uid == o.uid || self.uid == NOUID || o.uid == NOUID)
    }
}
pub fn show(v: &[M]) -> String {
    let f: Vec<String> = v
        .iter()
        .take(24)
        .map(|x| if x.uid == NOUID { format!("{}", x.val) } else { format!("{}#{}", x.val, x.uid) })
        .collect();
    format!("[{}{}]", f.join(" "), if v.len() > 24 { " .." } else { "" })
}
