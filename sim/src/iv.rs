//! Interval scenarios: C14 (arithmetic on shared intervals), C15 (lossy delivery to coalescing,
//! narrowing and spanning receivers), C16 (failing bound values).

use crate::core::*;
use crate::elem::{Elem, Num};
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule, shuffle_fault};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cell::UnsafeCell;
use std::fmt::Debug;
use std::ops::*;

pub trait N:
    Ord
    + Clone
    + Debug
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Neg<Output = Self>
    + 'static
{
    const LIMIT: i64;
    fn of(v: i64) -> Self;
    fn num(&self) -> i64;
    fn sound(&self, what: &str);
    fn ident(&self) -> u32;
    /// None: the number type fails
    fn calc(op: u8, a: i64, b: i64) -> Option<i64>;
}
impl N for Num {
    const LIMIT: i64 = 1 << 20;
    fn of(v: i64) -> Self {
        Num::of(v)
    }
    fn num(&self) -> i64 {
        self.get()
    }
    fn sound(&self, what: &str) {
        self.check(what);
    }
    fn ident(&self) -> u32 {
        self.uid()
    }
    fn calc(op: u8, a: i64, b: i64) -> Option<i64> {
        Num::calc(op, a, b)
    }
}
macro_rules! prim {
    ($t:ty) => {
        impl N for $t {
            const LIMIT: i64 = <$t>::MAX as i64;
            fn of(v: i64) -> Self {
                v as $t
            }
            fn num(&self) -> i64 {
                *self as i64
            }
            fn sound(&self, _: &str) {}
            fn ident(&self) -> u32 {
                NOUID
            }
            fn calc(op: u8, a: i64, b: i64) -> Option<i64> {
                let (a, b) = (a as $t, b as $t);
                let strict = cfg!(debug_assertions);
                let w = |c: Option<$t>, v: $t| if strict { c } else { Some(v) };
                match op {
                    0 => w(a.checked_add(b), a.wrapping_add(b)),
                    1 => w(a.checked_sub(b), a.wrapping_sub(b)),
                    2 => w(a.checked_mul(b), a.wrapping_mul(b)),
                    3 => a.checked_div(b),
                    _ => w(a.checked_neg(), a.wrapping_neg()),
                }
                .map(|x| x as i64)
            }
        }
    };
}
prim!(i8);
prim!(i32);

/// lower bound, closed, upper bound, closed
pub type Iv = Option<(i64, bool, i64, bool)>;

fn well_formed(i: &Iv) -> bool {
    match i {
        None => true,
        Some((l, lc, u, uc)) => l < u || l == u && *lc && *uc,
    }
}
fn make<T: N>(i: &Iv) -> Interval<T> {
    match i {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(T::of(*l), *lc, T::of(*u), *uc),
    }
}
/// reads an interval through all accessors
fn read<T: N>(x: &Interval<T>, bits: u32, what: &str) -> Iv {
    let r = match x.bounds() {
        None => None,
        Some((l, u)) => {
            l.val().sound(what);
            u.val().sound(what);
            Some((l.val().num(), l.is_closed(), u.val().num(), u.is_closed()))
        }
    };
    let ok = match &r {
        None => {
            x.is_empty() && !x.is_single() && x.lower().is_none() && x.upper().is_none() && x.is_lower_closed().is_none() && x.is_upper_closed().is_none()
        }
        Some((l, lc, u, uc)) => {
            !x.is_empty()
                && x.is_single() == (l == u)
                && x.lower().map(|b| (b.val().num(), b.is_closed())) == Some((*l, *lc))
                && x.upper().map(|b| (b.val().num(), b.is_closed())) == Some((*u, *uc))
                && x.is_lower_closed() == Some(*lc)
                && x.is_upper_closed() == Some(*uc)
        }
    };
    if !ok {
        violation(bits, &format!("{}: the accessors of {:?} disagree", what, r));
    }
    if !well_formed(&r) {
        violation(bits | FORM, &format!("{}: ill-formed interval {:?}", what, r));
    }
    r
}

struct Obj<T: N> {
    i: Option<Interval<T>>,
    model: Iv,
    bits: u32,
}
struct World<T: N> {
    objs: Vec<UnsafeCell<Obj<T>>>,
    range: i64,
}
fn look<T: N>(o: &Obj<T>, bits: u32, what: &str) {
    if aborted() {
        return;
    }
    let Some(i) = o.i.as_ref() else { return };
    let bits = bits | o.bits;
    let Some(g) = observe(bits, what, || read(i, bits, what)) else { return };
    if g != o.model {
        violation(bits, &format!("{}: interval is {:?}, expected {:?}", what, g, o.model));
    }
    if let Some((l, lc, u, uc)) = g {
        trace(mix((l as u64) << 20 ^ u as u64 ^ (lc as u64) << 60 ^ (uc as u64) << 61));
    }
}

// ---------------------------------------------------------------------------------------
// C14

pub const MATH_NAMES: [&str; 14] = [
    "add_assign", "sub_assign", "mul_assign", "div_assign", "add", "sub", "mul", "div", "neg", "set", "read", "both_forms", "sequence", "copy",
];
const NEG: u8 = 8;
const SET: u8 = 9;
const READ: u8 = 10;
const BOTH: u8 = 11;
const SEQ: u8 = 12;
const COPY: u8 = 13;

/// None: the number type fails
fn transformed<T: N>(i: &Iv, op: u8, v: i64) -> Option<Iv> {
    let Some((l, lc, u, uc)) = *i else { return Some(None) };
    let (a, b) = (T::calc(op, l, v)?, T::calc(op, u, v)?);
    let r = if a > b {
        hit(probe::REVERSED);
        (b, uc, a, lc)
    } else {
        (a, lc, b, uc)
    };
    if r.0 == r.2 && !(r.1 && r.3) {
        hit(probe::COLLAPSED);
        return Some(None);
    }
    Some(Some(r))
}
fn in_place<T: N>(i: &mut Interval<T>, op: u8, v: T) {
    match op {
        0 => *i += v,
        1 => *i -= v,
        2 => *i *= v,
        _ => *i /= v,
    }
}
fn returning<T: N>(i: Interval<T>, op: u8, v: T) -> Interval<T> {
    match op {
        0 => i + v,
        1 => i - v,
        2 => i * v,
        3 => i / v,
        _ => -i,
    }
}
/// small numbers, zero, minus one and the ends of the range are likely
pub fn number(range: i64, b: u32) -> i64 {
    let x = mix(b as u64 ^ 0x11) >> 8;
    match b % 8 {
        0 | 1 => (x % 7) as i64 - 3,
        2 => [0, -1, 1, 2, -2, range, -range][(x % 7) as usize],
        3 => range - (x % 4) as i64,
        4 => (x % 4) as i64 - range,
        _ => (x % (2 * range as u64 + 1)) as i64 - range,
    }
}
fn some_interval(range: i64, a: u32, b: u32) -> Iv {
    let form = a % 16;
    if form == 0 {
        return None;
    }
    let (x, y) = (number(range, a / 16 + 4096), number(range, b));
    let (l, u) = (x.min(y), x.max(y));
    if l == u || form == 1 {
        return Some((l, true, l, true));
    }
    Some((l, form & 2 > 0, u, form & 4 > 0))
}

fn math<T: N>(w: &World<T>, op: &Op) {
    let n = w.objs.len();
    let (oi, oj) = (op.o as usize % n, op.o2 as usize % n);
    let wr = !matches!(op.code, READ);
    let two = op.code == COPY;
    let _held = sched::acquire(&[(oi, wr), (if two { oj } else { oi }, wr)]);
    if aborted() {
        return;
    }
    let name = MATH_NAMES[op.code as usize % MATH_NAMES.len()];
    let o = unsafe { &mut *w.objs[oi].get() };
    if o.i.is_none() {
        return;
    }
    let bits = ARITH | FORM;
    let old = o.model;
    let v = number(w.range, op.b);
    let k = op.code % 4;
    match op.code {
        0..=3 | SEQ => {
            let steps = if op.code == SEQ { 2 + op.a % 3 } else { 1 };
            for s in 0..steps {
                let (k, v) = if op.code == SEQ { ((mix(op.a as u64 + s as u64) % 4) as u8, number(w.range, op.b + s)) } else { (k, v) };
                let old = o.model;
                let new = transformed::<T>(&old, k, v);
                let x = T::of(v);
                let i = o.i.as_mut().unwrap();
                let r = sut(op, || in_place(i, k, x));
                let what = format!("{} {} {}", if matches!(r, Out::Ok(())) { "after" } else { "after failed" }, MATH_NAMES[k as usize], v);
                match (r, new) {
                    (Out::Ok(()), Some(m)) => {
                        o.model = m;
                        look(o, bits, &what)
                    }
                    (Out::Ok(()), None) => {
                        let g = observe(bits, &what, || read(o.i.as_ref().unwrap(), bits, &what));
                        violation(bits, &format!("{} of {:?} gave {:?} although the number type fails", what, old, g.unwrap_or(None)))
                    }
                    (Out::Lib(e), Some(_)) => violation(bits, &format!("{} {} of {:?} panicked: {}", name, v, old, e)),
                    (_, new) => {
                        if new.is_none() {
                            hit(probe::OVERFLOW);
                        }
                        look(o, bits, &what)
                    }
                }
                if aborted() {
                    return;
                }
            }
        }
        4..=NEG => {
            let k = if op.code == NEG { 4 } else { op.code - 4 };
            let new = transformed::<T>(&old, k, v);
            let x = T::of(v);
            let i = o.i.as_ref().unwrap();
            let r = sut(op, || returning(i.clone(), k, x));
            match (r, new) {
                (Out::Ok(i), Some(m)) => {
                    look(o, bits, "operand of a returning operation");
                    if op.a % 4 == 0 {
                        o.i = Some(i);
                        o.model = m;
                        look(o, bits, name);
                    } else {
                        let t = Obj { i: Some(i), model: m, bits: 0 };
                        look(&t, bits, &format!("{} {} of {:?}", name, v, old));
                    }
                }
                (Out::Ok(i), None) => {
                    let g = read(&i, bits, name);
                    violation(bits, &format!("{} {} of {:?} gave {:?} although the number type fails", name, v, old, g))
                }
                (Out::Lib(e), Some(_)) => violation(bits, &format!("{} {} of {:?} panicked: {}", name, v, old, e)),
                (_, new) => {
                    if new.is_none() {
                        hit(probe::OVERFLOW);
                    }
                    look(o, bits, "operand of a failed operation")
                }
            }
        }
        SET => {
            let m = some_interval(w.range, op.a, op.b);
            let form = op.a / 16 % 3;
            let r = plain(|| match (m, form) {
                (None, _) => Interval::empty(),
                (Some((l, _, u, _)), 1) if l == u => Interval::single(T::of(l)),
                (Some((l, false, u, false)), 1) => Interval::open(T::of(l), T::of(u)),
                (Some((l, true, u, true)), 1) => Interval::closed(T::of(l), T::of(u)),
                (Some((l, true, u, false)), 1) => Interval::lower_closed(T::of(l), T::of(u)),
                (Some((l, false, u, true)), 1) => Interval::upper_closed(T::of(l), T::of(u)),
                (Some((l, lc, u, uc)), 2) => Interval::from_bounds(LowerBound::new(T::of(l), lc), UpperBound::new(T::of(u), uc)),
                _ => make(&m),
            });
            match r {
                Out::Ok(i) => {
                    o.i = Some(i);
                    o.model = m;
                    look(o, bits, name)
                }
                Out::Fault(_) => {}
                Out::Lib(e) => violation(bits, &format!("constructing {:?} panicked: {}", m, e)),
            }
        }
        BOTH => {
            let i = o.i.as_ref().unwrap();
            let (mut a, b) = (i.clone(), i.clone());
            let (x, y) = (T::of(v), T::of(v));
            let r = plain(|| in_place(&mut a, k, x));
            let q = plain(|| returning(b, k, y));
            match (r, q) {
                (Out::Ok(()), Out::Ok(b)) => {
                    let (ra, rb) = (read(&a, bits, name), read(&b, bits, name));
                    if ra != rb || observe(bits, "comparing intervals", || a == b) == Some(false) {
                        violation(bits, &format!("{} {} of {:?}: in place {:?}, returned {:?}", MATH_NAMES[k as usize], v, old, ra, rb));
                    }
                }
                (Out::Ok(()), _) | (_, Out::Ok(_)) => {
                    violation(bits, &format!("{} {} of {:?}: only one of the in-place and the returning form failed", MATH_NAMES[k as usize], v, old))
                }
                _ => {}
            }
        }
        COPY => {
            if oi != oj {
                let p = unsafe { &mut *w.objs[oj].get() };
                if let Out::Ok(c) = sut(op, || o.i.clone().unwrap()) {
                    p.i = Some(c);
                    p.model = old;
                }
                look(p, bits, name);
                look(o, bits, name);
            }
        }
        _ => look(o, bits, name),
    }
}

// ---------------------------------------------------------------------------------------
// C15: cells: 2p is the point p, 2p+1 the gap between p and p+1

pub const SET_NAMES: [&str; 10] =
    ["send", "deliver_coalesce", "deliver_narrow", "deliver_span", "lose", "query", "gossip", "receiver_restart", "pair", "duplicate"];
const SEND: u8 = 0;
const D_COAL: u8 = 1;
const D_NARROW: u8 = 2;
const D_SPAN: u8 = 3;
const LOSE: u8 = 4;
const QUERY: u8 = 5;
const GOSSIP: u8 = 6;
const RESTART: u8 = 7;
const PAIR: u8 = 8;
const DUP: u8 = 9;

type Cells = u128;
const BASE: i64 = 30;
fn cells(i: &Iv) -> Cells {
    match i {
        None => 0,
        Some((l, lc, u, uc)) => {
            let a = 2 * (l + BASE) + !*lc as i64;
            let b = 2 * (u + BASE) - !*uc as i64;
            ((1u128 << (b - a + 1)) - 1) << a
        }
    }
}
fn iv_of(c: Cells) -> Iv {
    if c == 0 {
        return None;
    }
    let a = c.trailing_zeros() as i64;
    let b = 127 - c.leading_zeros() as i64;
    Some(((a - (a & 1)) / 2 - BASE, a & 1 == 0, (b + (b & 1)) / 2 - BASE, b & 1 == 0))
}
fn hull(c: Cells) -> Cells {
    cells(&iv_of(c))
}
fn runs(mut c: Cells) -> Vec<Cells> {
    let mut v = Vec::new();
    while c != 0 {
        let a = c.trailing_zeros();
        let len = (!(c >> a)).trailing_zeros();
        let r = ((1u128 << len) - 1) << a;
        v.push(r);
        c &= !r;
    }
    v
}

struct Rx<T: N> {
    pieces: Vec<Interval<T>>,
    union: Cells,
    narrow: Interval<T>,
    common: Cells,
    span: Interval<T>,
    reach: Cells,
    log: Vec<(u8, Iv)>,
}
struct Net<T: N> {
    /// lock 0
    net: UnsafeCell<Vec<Interval<T>>>,
    /// lock 1
    rx: UnsafeCell<Option<Rx<T>>>,
    range: i64,
}
fn short(range: i64, a: u32, b: u32) -> Iv {
    if a % 4 == 0 {
        return some_interval(range, a / 4, b);
    }
    // mostly short ones, often touching each other
    let l = (mix(b as u64) % (2 * range as u64 + 1)) as i64 - range;
    let u = (l + (a / 4 % 4) as i64).min(range);
    let f = a / 16;
    if l == u {
        Some((l, true, u, true))
    } else {
        Some((l, f & 1 > 0, u, f & 2 > 0))
    }
}
fn state<T: N>(x: &Interval<T>, e: Cells, what: &str) {
    if aborted() {
        return;
    }
    if let Some(g) = observe(CONV, what, || read(x, CONV, what)) {
        if g != iv_of(e) || (e != 0 && hull(e) != e) {
            violation(CONV, &format!("{}: {:?}, expected {:?}", what, g, iv_of(e)));
        }
    }
}
/// every query agrees with the point sets
fn agree<T: N>(a: &Interval<T>, ca: Cells, b: &Interval<T>, cb: Cells, range: i64, salt: u32) {
    if aborted() {
        return;
    }
    let (ia, ib) = (iv_of(ca), iv_of(cb));
    let r = plain(|| {
        (
            [a.contains_interval(b), a.intersects(b), b.intersects(a), a.can_be_merged(b), b.can_be_merged(a)],
            [a.contains_interval(a), a.is_empty()],
        )
    });
    let Out::Ok((g, h)) = r else {
        if let Out::Lib(e) = r {
            violation(CONV, &format!("querying {:?} and {:?} panicked: {}", ia, ib, e));
        }
        return;
    };
    let common = ca & cb != 0;
    let mergeable = ca == 0 || cb == 0 || hull(ca | cb) == ca | cb;
    let e = [cb & !ca == 0, common, common, mergeable, mergeable];
    if g != e || h != [true, ca == 0] {
        violation(
            CONV,
            &format!("{:?} and {:?}: contains/intersects(2)/mergeable(2) = {:?}, expected {:?}; contains itself {}, empty {}", ia, ib, g, e, h[0], h[1]),
        );
    }
    for i in 0..3u32 {
        let v = match (i, ib) {
            (0, Some(x)) => x.0,
            (1, Some(x)) => x.2,
            _ => (mix(salt as u64 + i as u64) % (2 * range as u64 + 1)) as i64 - range,
        };
        let x = T::of(v);
        let want = ca >> (2 * (v + BASE)) & 1 == 1;
        match plain(|| a.contains_val(&x)) {
            Out::Ok(g) if g != want => violation(CONV, &format!("{:?} contains_val({}) = {}", ia, v, g)),
            Out::Lib(e) => violation(CONV, &format!("{:?} contains_val({}) panicked: {}", ia, v, e)),
            _ => {}
        }
    }
}
/// merges b into a in one of the forms; Err: refused
fn merged<T: N>(a: Interval<T>, ca: Cells, b: Interval<T>, cb: Cells, form: u32) -> Result<Interval<T>, (Interval<T>, Interval<T>)> {
    let want = ca == 0 || cb == 0 || hull(ca | cb) == ca | cb;
    let r = plain(|| match form % 3 {
        0 => a.into_merged(b),
        1 => b.into_merged(a).map_err(|(x, y)| (y, x)),
        _ => {
            let mut a = a;
            match a.merge(b) {
                Ok(()) => Ok(a),
                Err(b) => Err((a, b)),
            }
        }
    });
    match r {
        Out::Ok(r) => {
            if r.is_ok() != want {
                violation(CONV, &format!("merging {:?} and {:?}: success {}, expected {}", iv_of(ca), iv_of(cb), r.is_ok(), want));
            }
            match &r {
                Ok(x) => state(x, ca | cb, "merge result"),
                Err((x, y)) => {
                    hit(probe::REFUSEDMERGE);
                    state(x, ca, "left operand of a refused merge");
                    state(y, cb, "right operand of a refused merge");
                }
            }
            r
        }
        Out::Lib(e) => {
            violation(CONV, &format!("merging {:?} and {:?} panicked: {}", iv_of(ca), iv_of(cb), e));
            Ok(Interval::empty())
        }
        Out::Fault(_) => Ok(Interval::empty()),
    }
}
fn coalesce<T: N>(rx: &mut Rx<T>, mut x: Interval<T>, form: u32) {
    let mut cx = cells(&read(&x, CONV, "delivered interval"));
    rx.union |= cx;
    let mut i = 0;
    let mut f = form;
    while i < rx.pieces.len() && !aborted() {
        let p = rx.pieces.swap_remove(i);
        let cp = cells(&read(&p, CONV, "piece"));
        let order = f / 3 % 2 == 0;
        f = f.rotate_right(3) ^ form;
        let r = if order { merged(p, cp, x, cx, f) } else { merged(x, cx, p, cp, f).map_err(|(a, b)| (b, a)) };
        match r {
            Ok(y) => {
                x = y;
                cx |= cp;
                // may now touch pieces it did not touch before
                i = 0;
            }
            Err((p, y)) => {
                x = y;
                rx.pieces.push(p);
                let last = rx.pieces.len() - 1;
                rx.pieces.swap(i, last);
                i += 1;
            }
        }
    }
    if !x.is_empty() {
        rx.pieces.push(x);
    }
}
fn pieces_ok<T: N>(rx: &Rx<T>) {
    if aborted() {
        return;
    }
    let mut got: Vec<Cells> = rx.pieces.iter().map(|p| cells(&read(p, CONV, "piece"))).collect();
    got.sort();
    let mut want = runs(rx.union);
    want.sort();
    if got != want {
        violation(
            CONV,
            &format!(
                "coalesced pieces {:?}, expected {:?}",
                got.iter().map(|c| iv_of(*c)).collect::<Vec<_>>(),
                want.iter().map(|c| iv_of(*c)).collect::<Vec<_>>()
            ),
        );
    }
    for c in got {
        trace(mix(c as u64 ^ (c >> 64) as u64));
    }
}
fn receive<T: N>(rx: &mut Rx<T>, kind: u8, x: Interval<T>, form: u32) {
    if aborted() {
        return;
    }
    let cx = cells(&read(&x, CONV, "delivered interval"));
    match kind {
        D_COAL => {
            coalesce(rx, x, form);
            pieces_ok(rx);
        }
        D_NARROW => {
            let old = std::mem::replace(&mut rx.narrow, Interval::empty());
            let r = plain(|| match form % 3 {
                0 => old.into_intersection(x),
                1 => x.into_intersection(old),
                _ => {
                    let mut a = old;
                    a.intersection(x);
                    a
                }
            });
            match r {
                Out::Ok(i) => rx.narrow = i,
                Out::Lib(e) => violation(CONV, &format!("narrowing {:?} by {:?} panicked: {}", iv_of(rx.common), iv_of(cx), e)),
                _ => {}
            }
            rx.common &= cx;
            state(&rx.narrow, rx.common, "narrowed interval");
        }
        _ => {
            let old = std::mem::replace(&mut rx.span, Interval::empty());
            let r = plain(|| match form % 3 {
                0 => old.into_span(x),
                1 => x.into_span(old),
                _ => {
                    let mut a = old;
                    a.span(x);
                    a
                }
            });
            match r {
                Out::Ok(i) => rx.span = i,
                Out::Lib(e) => violation(CONV, &format!("spanning {:?} and {:?} panicked: {}", iv_of(rx.reach), iv_of(cx), e)),
                _ => {}
            }
            rx.reach = hull(rx.reach | cx);
            state(&rx.span, rx.reach, "spanned interval");
        }
    }
    trace(mix(cx as u64 ^ kind as u64));
}
fn new_rx<T: N>(range: i64) -> Rx<T> {
    let all = Some((-range, true, range, true));
    Rx {
        pieces: Vec::new(),
        union: 0,
        narrow: make(&all),
        common: cells(&all),
        span: Interval::empty(),
        reach: 0,
        log: Vec::new(),
    }
}
fn lossy<T: N>(w: &Net<T>, op: &Op) {
    let want: &[(usize, bool)] = match op.code {
        SEND | LOSE | DUP => &[(0, true)],
        QUERY => &[(1, false)],
        PAIR => &[],
        _ => &[(0, true), (1, true)],
    };
    let _h = sched::acquire(want);
    if aborted() {
        return;
    }
    let net = unsafe { &mut *w.net.get() };
    let rx = unsafe { &mut *w.rx.get() };
    match op.code {
        SEND => {
            if net.len() < 64 {
                net.push(make(&short(w.range, op.a, op.b)));
            }
        }
        D_COAL | D_NARROW | D_SPAN => {
            if net.is_empty() {
                return;
            }
            let i = sched::pick(net.len());
            // sometimes the network keeps a duplicate
            if op.a % 5 == 0 {
                hit(probe::NETDUP);
            }
            let x = if op.a % 5 == 0 { net[i].clone() } else { net.swap_remove(i) };
            let Some(rx) = rx.as_mut() else { return };
            rx.log.push((op.code, read(&x, CONV, "delivered interval")));
            receive(rx, op.code, x, op.b);
        }
        LOSE => {
            if !net.is_empty() {
                let i = sched::pick(net.len());
                hit(probe::NETLOSS);
                net.swap_remove(i);
            }
        }
        DUP => {
            if !net.is_empty() && net.len() < 64 {
                let x = net[sched::pick(net.len())].clone();
                hit(probe::NETDUP);
                net.push(x);
            }
        }
        QUERY => {
            let Some(rx) = rx.as_ref() else { return };
            let m = short(w.range, op.a, op.b);
            let x: Interval<T> = make(&m);
            for p in &rx.pieces {
                let c = cells(&read(p, CONV, "piece"));
                agree(p, c, &x, cells(&m), w.range, op.b);
                sched::preempt_point();
            }
            agree(&rx.narrow, rx.common, &x, cells(&m), w.range, op.a);
            agree(&rx.span, rx.reach, &x, cells(&m), w.range, op.a);
            agree(&x, cells(&m), &rx.narrow, rx.common, w.range, op.a);
            let e: Interval<T> = Interval::empty();
            agree(&e, 0, &x, cells(&m), w.range, op.a);
            agree(&x, cells(&m), &e, 0, w.range, op.a);
        }
        GOSSIP => {
            let Some(rx) = rx.as_ref() else { return };
            if net.len() < 48 {
                let cp: Vec<Interval<T>> = rx.pieces.iter().take(8).cloned().collect();
                net.extend(cp);
            }
        }
        RESTART => {
            // the receiver crashed: everything delivered so far arrives again in another order
            let Some(old) = rx.take() else { return };
            let mut log = old.log;
            hit(probe::RESTARTED);
            let mut g = Rng::new(op.b as u64);
            for i in (1..log.len()).rev() {
                log.swap(i, g.below(i as u64 + 1) as usize);
            }
            let mut n = new_rx(w.range);
            for (k, i) in &log {
                receive(&mut n, *k, make(i), g.u64() as u32);
            }
            if !aborted() && (n.union, n.common, n.reach) != (old.union, old.common, old.reach) {
                violation(ANY, "model error: order dependence");
            }
            n.log = log;
            *rx = Some(n);
        }
        _ => {
            let (ma, mb) = (short(w.range, op.a, op.b), short(w.range, op.b, op.a));
            let (ca, cb) = (cells(&ma), cells(&mb));
            let (a, b): (Interval<T>, Interval<T>) = (make(&ma), make(&mb));
            agree(&a, ca, &b, cb, w.range, op.a);
            agree(&b, cb, &a, ca, w.range, op.b);
            let (mut x, y) = (a.clone(), b.clone());
            if let Out::Lib(e) = plain(|| x.intersection(y)) {
                violation(CONV, &format!("intersection of {:?} and {:?} panicked: {}", ma, mb, e));
            }
            state(&x, ca & cb, "intersection");
            let (x, y) = (a.clone(), b.clone());
            match plain(|| x.into_intersection(y)) {
                Out::Ok(x) => state(&x, ca & cb, "intersection"),
                Out::Lib(e) => violation(CONV, &format!("intersection of {:?} and {:?} panicked: {}", ma, mb, e)),
                _ => {}
            }
            let (mut x, y) = (a.clone(), b.clone());
            if let Out::Lib(e) = plain(|| x.span(y)) {
                violation(CONV, &format!("span of {:?} and {:?} panicked: {}", ma, mb, e));
            }
            state(&x, hull(ca | cb), "span");
            let (x, y) = (a.clone(), b.clone());
            match plain(|| x.into_span(y)) {
                Out::Ok(x) => state(&x, hull(ca | cb), "span"),
                Out::Lib(e) => violation(CONV, &format!("span of {:?} and {:?} panicked: {}", ma, mb, e)),
                _ => {}
            }
            let _ = merged(a, ca, b, cb, op.a);
        }
    }
}

// ---------------------------------------------------------------------------------------
// C16

pub const FAIL_NAMES: [&str; 12] = [
    "merge", "span", "intersection", "into_merged", "into_span", "into_intersection", "query", "compare", "construct", "clone", "arithmetic",
    "take_apart",
];
const F_MERGE: u8 = 0;
const F_SPAN: u8 = 1;
const F_INTER: u8 = 2;
const F_IMERGE: u8 = 3;
const F_ISPAN: u8 = 4;
const F_IINTER: u8 = 5;
const F_QUERY: u8 = 6;
const F_CMP: u8 = 7;
const F_NEW: u8 = 8;
const F_CLONE: u8 = 9;
const F_MATH: u8 = 10;
const F_APART: u8 = 11;

fn ids<T: N>(i: &Interval<T>) -> Option<(u32, u32)> {
    i.bounds().map(|(l, u)| (l.val().ident(), u.val().ident()))
}
fn failing<T: N>(w: &World<T>, op: &Op) {
    let n = w.objs.len();
    let (oi, oj) = (op.o as usize % n, op.o2 as usize % n);
    let wr = !matches!(op.code, F_QUERY | F_CMP | F_CLONE);
    let _held = sched::acquire(&[(oi, wr), (oj, false)]);
    if aborted() {
        return;
    }
    let name = FAIL_NAMES[op.code as usize % FAIL_NAMES.len()];
    let o = unsafe { &mut *w.objs[oi].get() };
    let bits = PARTIAL | FORM;
    // the operand: a new interval, or a copy of another object
    let m2 = match unsafe { &*w.objs[oj].get() } {
        p if op.a % 3 == 0 && oi != oj => p.model,
        _ => short(w.range, op.a / 3, op.b),
    };
    let Some(x) = observe(bits, "constructing an operand", || make::<T>(&m2)) else { return };
    if o.i.is_none() {
        return;
    }
    let old = o.model;
    let (c1, c2) = (cells(&old), cells(&m2));
    let mergeable = c1 == 0 || c2 == 0 || hull(c1 | c2) == c1 | c2;
    // the completed result
    let done = match op.code {
        F_MERGE | F_IMERGE if mergeable => hull(c1 | c2),
        F_MERGE | F_IMERGE => c1,
        F_SPAN | F_ISPAN => hull(c1 | c2),
        F_INTER | F_IINTER => c1 & c2,
        _ => c1,
    };
    match op.code {
        F_MERGE | F_SPAN | F_INTER => {
            let i = o.i.as_mut().unwrap();
            let r = sut(op, || match op.code {
                F_MERGE => i.merge(x).err(),
                F_SPAN => {
                    i.span(x);
                    None
                }
                _ => {
                    i.intersection(x);
                    None
                }
            });
            match r {
                Out::Ok(back) => {
                    o.model = iv_of(done);
                    look(o, CONV, name);
                    if let Some(b) = back {
                        let t = Obj { i: Some(b), model: m2, bits: 0 };
                        look(&t, bits, "interval returned by a refused merge");
                    }
                }
                Out::Fault(_) => {
                    hit(probe::MERGEINT);
                    o.bits |= PARTIAL;
                    let i = o.i.as_ref().unwrap();
                    let Some(g) = observe(bits, name, || read(i, bits, name)) else { return };
                    if aborted() {
                        return;
                    }
                    let cg = cells(&g);
                    let fine = if op.code == F_INTER { cg & !c1 == 0 && done & !cg == 0 } else { c1 & !cg == 0 && cg & !done == 0 };
                    if !fine {
                        violation(bits, &format!("interrupted {} of {:?} and {:?} left {:?}", name, old, m2, g));
                    }
                    o.model = g;
                    look(o, bits, name);
                }
                Out::Lib(e) => violation(bits | CONV, &format!("{} of {:?} and {:?} panicked: {}", name, old, m2, e)),
            }
        }
        F_IMERGE | F_ISPAN | F_IINTER => {
            let i = o.i.take().unwrap();
            let r = sut(op, || match op.code {
                F_IMERGE => i.into_merged(x).map_err(|(a, b)| (a, Some(b))),
                F_ISPAN => Ok(i.into_span(x)),
                _ => Ok(i.into_intersection(x)),
            });
            match r {
                Out::Ok(Ok(y)) => {
                    o.i = Some(y);
                    o.model = iv_of(done);
                    look(o, CONV, name);
                }
                Out::Ok(Err((a, b))) => {
                    o.i = Some(a);
                    look(o, bits, "left operand of a refused merge");
                    let t = Obj { i: b, model: m2, bits: 0 };
                    look(&t, bits, "right operand of a refused merge");
                }
                Out::Fault(_) => {
                    // both were consumed; start again
                    o.i = Some(make(&old));
                    o.bits = 0;
                }
                Out::Lib(e) => violation(bits | CONV, &format!("{} of {:?} and {:?} panicked: {}", name, old, m2, e)),
            }
        }
        F_QUERY | F_CMP => {
            let i = o.i.as_ref().unwrap();
            let (ia, ib) = (ids(i), ids(&x));
            let v = T::of(number(w.range, op.b));
            let r = sut(op, || {
                if op.code == F_QUERY {
                    (i.contains_val(&v), i.contains_interval(&x), i.intersects(&x), i.can_be_merged(&x), i.is_single())
                } else {
                    (*i < x, *i >= x, *i == x, i.partial_cmp(&x).is_some(), i.partial_cmp(&v).is_some() || *i == v || *i <= v)
                }
            });
            if let Out::Lib(e) = r {
                violation(bits | CONV, &format!("{} of {:?} and {:?} panicked: {}", name, old, m2, e));
            }
            look(o, bits, "left operand of a query");
            let same = ids(o.i.as_ref().unwrap()) == ia && ids(&x) == ib;
            let t = Obj { i: Some(x), model: m2, bits: 0 };
            look(&t, bits, "right operand of a query");
            if !same {
                violation(bits, "a query replaced the bounds of its operand");
            }
        }
        F_NEW => {
            let (l, u) = (number(w.range, op.a), number(w.range, op.b));
            let form = op.a / 8 % 7;
            let (lc, uc) = (op.b & 16 > 0, op.b & 32 > 0);
            let (m, r) = match form {
                0 => (Some((l, lc, u, uc)), sut(op, || Interval::new(as_harness(|| T::of(l)), lc, as_harness(|| T::of(u)), uc))),
                1 => (Some((l, true, l, true)), sut(op, || Interval::single(as_harness(|| T::of(l))))),
                2 => (Some((l, false, u, false)), sut(op, || Interval::open(as_harness(|| T::of(l)), as_harness(|| T::of(u))))),
                3 => (Some((l, true, u, true)), sut(op, || Interval::closed(as_harness(|| T::of(l)), as_harness(|| T::of(u))))),
                4 => (Some((l, true, u, false)), sut(op, || Interval::lower_closed(as_harness(|| T::of(l)), as_harness(|| T::of(u))))),
                5 => (Some((l, false, u, true)), sut(op, || Interval::upper_closed(as_harness(|| T::of(l)), as_harness(|| T::of(u))))),
                _ => (
                    Some((l, lc, u, uc)),
                    sut(op, || Interval::from_bounds(LowerBound::new(as_harness(|| T::of(l)), lc), UpperBound::new(as_harness(|| T::of(u)), uc))),
                ),
            };
            match r {
                Out::Ok(i) => {
                    if !well_formed(&m) {
                        violation(FORM, &format!("{:?} was constructed", m));
                    }
                    o.i = Some(i);
                    o.model = m;
                    look(o, FORM, name);
                }
                Out::Lib(e) => {
                    if well_formed(&m) {
                        violation(FORM, &format!("constructing {:?} panicked: {}", m, e));
                    }
                }
                Out::Fault(_) => {}
            }
        }
        F_CLONE => {
            let i = o.i.as_ref().unwrap();
            match sut(op, || i.clone()) {
                Out::Ok(c) => {
                    let t = Obj { i: Some(c), model: old, bits: 0 };
                    look(&t, bits, "clone");
                }
                Out::Fault(_) => {}
                Out::Lib(e) => violation(bits, &format!("clone panicked: {}", e)),
            }
            look(o, bits, "cloned interval");
        }
        F_MATH => {
            let k = (op.b / 8 % 5) as u8;
            let v = number(w.range, op.a);
            let x = T::of(v);
            if op.a / 8 % 2 == 0 && k < 4 {
                let i = o.i.as_mut().unwrap();
                let r = sut(op, || in_place(i, k, x));
                if let Out::Lib(e) = &r {
                    violation(bits, &format!("arithmetic on {:?} panicked: {}", old, e));
                }
            } else {
                let i = o.i.take().unwrap();
                match sut(op, || returning(i, k, x)) {
                    Out::Ok(i) => o.i = Some(i),
                    Out::Fault(_) => o.i = Some(make(&old)),
                    Out::Lib(e) => violation(bits, &format!("arithmetic on {:?} panicked: {}", old, e)),
                }
            }
            if let Some(i) = o.i.as_ref() {
                if let Some(g) = observe(bits, name, || read(i, bits, name)) {
                    o.model = g;
                }
            }
        }
        _ => {
            // taking it apart and putting it together again
            let i = o.i.take().unwrap();
            let r = if op.b % 2 == 0 {
                sut(op, || i.into_tuple().map(|(l, lc, u, uc)| Interval::new(l, lc, u, uc)).unwrap_or_else(Interval::empty))
            } else {
                sut(op, || i.into_bounds().map(|(l, u)| Interval::from_bounds(l, u)).unwrap_or_else(Interval::empty))
            };
            match r {
                Out::Ok(i) => {
                    o.i = Some(i);
                    look(o, CONV | FORM, name)
                }
                Out::Fault(_) => {
                    o.i = Some(make(&old));
                    o.bits = 0;
                }
                Out::Lib(e) => violation(bits, &format!("{} of {:?} panicked: {}", name, old, e)),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------

fn run_shared<T: N>(plan: &Plan, names: &[&str], f: fn(&World<T>, &Op)) {
    let n = (plan.get("objs").max(1) as usize).min(4);
    let range = plan.get("range").max(1).min(T::LIMIT);
    let w: World<T> = World { objs: (0..n).map(|_| UnsafeCell::new(Obj { i: None, model: None, bits: 0 })).collect(), range };
    let body = |me: usize| {
        if me == 0 {
            for i in 0..n {
                let _h = sched::acquire(&[(i, true)]);
                let o = unsafe { &mut *w.objs[i].get() };
                let a = plan.get(["i0", "i1", "i2", "i3"][i]) as u32;
                o.model = some_interval(range, a, a / 7);
                o.i = observe(FORM | ARITH | PARTIAL, "constructing", || make(&o.model));
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, names[op.code as usize % names.len()]);
            f(&w, op);
            heap_check();
        }
    };
    sched::clients(plan, plan.clients(), n, 256 << 10, &body);
    if aborted() {
        std::mem::forget(w);
    } else {
        drop(w);
        end_checks(true);
    }
}
fn run_lossy<T: N>(plan: &Plan) {
    let range = plan.get("range").max(1).min(BASE - 2);
    let w: Net<T> = Net { net: UnsafeCell::new(Vec::new()), rx: UnsafeCell::new(None), range };
    let body = |me: usize| {
        {
            let _h = sched::acquire(&[(1, true)]);
            let rx = unsafe { &mut *w.rx.get() };
            if rx.is_none() {
                *rx = Some(new_rx(range));
            }
        }
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, SET_NAMES[op.code as usize % SET_NAMES.len()]);
            lossy(&w, op);
            heap_check();
        }
    };
    sched::clients(plan, plan.clients(), 2, 256 << 10, &body);
    if !aborted() {
        // the network becomes reliable: what is left arrives at the coalescing receiver
        let mut tail = Plan::default();
        let mut g = Rng::new(plan.seed ^ 0x1F);
        tail.pick = (0..64).map(|_| g.below(250) as u8).collect();
        let salt = g.u64() as u32;
        let last = |_| {
            sched::note_op("final drain of the network".into());
            let net = unsafe { &mut *w.net.get() };
            while !net.is_empty() && !aborted() {
                let x = net.swap_remove(sched::pick(net.len()));
                if let Some(rx) = unsafe { (*w.rx.get()).as_mut() } {
                    receive(rx, D_COAL, x, salt ^ net.len() as u32);
                }
            }
        };
        sched::clients(&tail, 1, 2, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    } else {
        drop(w);
        end_checks(true);
    }
}
pub fn names(prop: &str) -> &'static [&'static str] {
    match prop {
        "C14" => &MATH_NAMES,
        "C15" => &SET_NAMES,
        _ => &FAIL_NAMES,
    }
}
pub fn execute(plan: &Plan) {
    match plan.prop.as_str() {
        "C14" => {
            begin(plan, ARITH | FORM | LIFE);
            match plan.get("kind") {
                0 => run_shared::<Num>(plan, &MATH_NAMES, math),
                1 => run_shared::<i8>(plan, &MATH_NAMES, math),
                _ => run_shared::<i32>(plan, &MATH_NAMES, math),
            }
        }
        "C15" => {
            begin(plan, CONV | FORM | LIFE);
            match plan.get("kind") {
                0 => run_lossy::<Num>(plan),
                1 => run_lossy::<i8>(plan),
                _ => run_lossy::<i32>(plan),
            }
        }
        _ => {
            begin(plan, PARTIAL | FORM | LIFE | LEAK);
            run_shared::<Num>(plan, &FAIL_NAMES, failing)
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0x1A7E);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("fill", g.below(4) as i64);
    p.set("clients", g.pick(&[1, 2, 2, 3, 4]));
    p.set("objs", g.pick(&[1i64, 2, 3]));
    for i in 0..4 {
        p.set(["i0", "i1", "i2", "i3"][i], g.below(1 << 16) as i64);
    }
    let (kind, range) = match prop {
        "C14" => match g.below(6) {
            0..=3 => (0, g.pick(&[3i64, 9, 20, 100, 1000])),
            4 => (1, 127),
            _ => (2, i32::MAX as i64),
        },
        "C15" => (g.pick(&[0i64, 1, 2]), g.pick(&[2i64, 4, 8, 15, 28])),
        _ => (0, g.pick(&[2i64, 4, 8, 20])),
    };
    p.set("kind", kind);
    p.set("range", range);
    p.set("wrap", if prop == "C14" { g.pick(&[0, 0, 0, 1, 2]) } else if prop == "C16" { g.pick(&[0, 1, 2]) } else { 0 });
    let ws: &[(u8, u64)] = match prop {
        "C14" => &[
            (0, 4), (1, 4), (2, 4), (3, 4), (4, 2), (5, 2), (6, 2), (7, 2), (NEG, 2), (SET, 5), (READ, 1), (BOTH, 4), (SEQ, 2), (COPY, 1),
        ],
        "C15" => &[
            (SEND, 14), (D_COAL, 8), (D_NARROW, 4), (D_SPAN, 4), (LOSE, 1), (QUERY, 5), (GOSSIP, 1), (RESTART, 1), (PAIR, 6), (DUP, 2),
        ],
        _ => &[
            (F_MERGE, 9), (F_SPAN, 7), (F_INTER, 7), (F_IMERGE, 2), (F_ISPAN, 2), (F_IINTER, 2), (F_QUERY, 3), (F_CMP, 2), (F_NEW, 5),
            (F_CLONE, 1), (F_MATH, 2), (F_APART, 1),
        ],
    };
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let frate = match prop {
        "C14" => {
            if kind == 0 {
                g.pick(&[0u64, 2, 5])
            } else {
                0
            }
        }
        "C15" => 0,
        _ => g.pick(&[1u64, 4, 7]),
    };
    for _ in 0..crate::ring::long_history(seed).unwrap_or(g.pick(&[6u64, 14, 30, 45])) {
        let mut t = g.below(total);
        let code = ws.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(4) as u8;
        o.o2 = g.below(4) as u8;
        o.a = g.below(1 << 14) as u32;
        o.b = g.below(1 << 14) as u32;
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match (prop, code) {
                ("C14", 0..=7 | SEQ) => &[Fk::Arith, Fk::Arith, Fk::Clone, Fk::Cmp, Fk::Eq],
                ("C14", NEG) => &[Fk::Arith, Fk::Cmp],
                ("C14", COPY) => &[Fk::Clone],
                ("C16", F_MERGE | F_SPAN | F_INTER) => &[Fk::Cmp, Fk::Cmp, Fk::Cmp, Fk::Eq, Fk::Clone, Fk::Drop],
                // no drop fault: the language leaks the return value of a function whose parameter panics on drop
                ("C16", F_MATH) => &[Fk::Arith, Fk::Clone, Fk::Cmp],
                ("C16", _) => &[Fk::Cmp, Fk::Cmp, Fk::Eq, Fk::Clone],
                _ => &[],
            };
            if !kinds.is_empty() {
                let (k, mut n) = shuffle_fault(g, kinds);
                if k == Fk::Cmp && g.chance(1, 3) {
                    n = g.below(12) as u32;
                }
                o.fk = k;
                o.fnth = n;
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
