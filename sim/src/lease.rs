//! Nodes that exchange bounds and intervals over a lossy network: C20 (ordered indexes of
//! bounds), C21 (precedence and conflicts of leases), C22 (invalid and corrupted requests),
//! C23 (textual journals on a failing disk).

use crate::core::*;
use crate::elem::{Elem, Num};
use crate::iv::{number, Iv};
use crate::plan::*;
use crate::ring::{begin_op, gen_schedule, shuffle_fault};
use crate::rng::{mix, Rng};
use crate::sched;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cell::{Cell, UnsafeCell};
use std::cmp::Ordering::{self, *};
use std::collections::{BTreeSet, HashSet};
use std::fmt::{self, Debug, Display, Write};
use std::hash::{BuildHasher, BuildHasherDefault, Hash};

pub trait V: Ord + Clone + Hash + Display + Debug + 'static {
    fn of(v: i64) -> Self;
    fn num(&self) -> i64;
    /// position in the order of the type
    fn key(v: i64) -> i64 {
        v
    }
    fn text(v: i64) -> String {
        v.to_string()
    }
    fn parse(s: &str) -> Option<i64> {
        s.parse().ok()
    }
    fn sound(&self, _: &str) {}
}
impl V for i32 {
    fn of(v: i64) -> i32 {
        v as i32
    }
    fn num(&self) -> i64 {
        *self as i64
    }
}
impl V for Num {
    fn of(v: i64) -> Num {
        Num::of(v)
    }
    fn num(&self) -> i64 {
        self.get()
    }
    fn sound(&self, what: &str) {
        self.check(what);
    }
}
thread_local! {
    /// the value displayed in so many turns reports an error
    static SULK: Cell<u32> = const { Cell::new(0) };
}
impl Display for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.check("displaying a value");
        seam(Fk::Body, 1);
        let n = as_harness(|| self.get().to_string());
        let sulk = SULK.with(|s| {
            let k = s.get();
            s.set(k.saturating_sub(1));
            k == 1
        });
        let r = if sulk {
            let _ = f.write_str(&n[..n.len() / 2]);
            Err(fmt::Error)
        } else {
            f.write_str(&n)
        };
        as_harness(|| drop(n));
        seam(Fk::Body, 2);
        r
    }
}
impl V for String {
    fn of(v: i64) -> String {
        String::text(v)
    }
    fn num(&self) -> i64 {
        <String as V>::parse(self).unwrap_or(i64::MIN)
    }
    fn text(v: i64) -> String {
        format!("n{:012}", v + (1 << 33))
    }
    fn parse(s: &str) -> Option<i64> {
        s.strip_prefix('n')?.parse::<i64>().ok().map(|x| x - (1 << 33))
    }
}
/// ordered the other way round
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Back(i32);
impl PartialOrd for Back {
    fn partial_cmp(&self, o: &Back) -> Option<Ordering> {
        Some(o.0.cmp(&self.0))
    }
}
impl Ord for Back {
    fn cmp(&self, o: &Back) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Display for Back {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "back {}", self.0)
    }
}
impl V for Back {
    fn of(v: i64) -> Back {
        Back(v as i32)
    }
    fn num(&self) -> i64 {
        self.0 as i64
    }
    fn key(v: i64) -> i64 {
        -v
    }
    fn text(v: i64) -> String {
        format!("back {}", v)
    }
    fn parse(s: &str) -> Option<i64> {
        s.strip_prefix("back ")?.parse().ok()
    }
}

// ---- reference ----
fn lo_key<T: V>(v: i64, closed: bool) -> i64 {
    4 * T::key(v) + !closed as i64
}
fn up_key<T: V>(v: i64, closed: bool) -> i64 {
    4 * T::key(v) - !closed as i64
}
fn valid<T: V>(i: &Iv) -> bool {
    match *i {
        None => true,
        Some((l, lc, u, uc)) => T::key(l) < T::key(u) || l == u && lc && uc,
    }
}
fn text<T: V>(i: &Iv) -> String {
    match *i {
        None => "Ø".into(),
        Some((l, lc, u, uc)) => format!("{}{},{}{}", if lc { '[' } else { '(' }, T::text(l), T::text(u), if uc { ']' } else { ')' }),
    }
}
fn parse<T: V>(s: &str) -> Option<Iv> {
    if s == "Ø" {
        return Some(None);
    }
    let (lc, rest) = if let Some(r) = s.strip_prefix('[') { (true, r) } else { (false, s.strip_prefix('(')?) };
    let (uc, rest) = if let Some(r) = rest.strip_suffix(']') { (true, r) } else { (false, rest.strip_suffix(')')?) };
    let (l, u) = rest.split_once(',')?;
    Some(Some((T::parse(l)?, lc, T::parse(u)?, uc)))
}

/// a lower or an upper bound
trait B: Ord + Clone + Hash + Debug {
    const NAME: &'static str;
    fn mk(v: i64, c: bool) -> Self;
    fn raw(&self) -> (i64, bool);
    fn pos(v: i64, c: bool) -> i64;
    fn with_value(&self, v: i64) -> [bool; 6];
    fn part(&self, v: i64) -> Option<Ordering>;
}
macro_rules! bound {
    ($b:ident, $key:ident) => {
        impl<T: V> B for $b<T> {
            const NAME: &'static str = stringify!($b);
            fn mk(v: i64, c: bool) -> Self {
                $b::new(T::of(v), c)
            }
            fn raw(&self) -> (i64, bool) {
                self.val().sound("bound of an index");
                (self.val().num(), self.is_closed())
            }
            fn pos(v: i64, c: bool) -> i64 {
                $key::<T>(v, c)
            }
            fn with_value(&self, v: i64) -> [bool; 6] {
                let v = T::of(v);
                [*self < v, *self <= v, *self > v, *self >= v, *self == v, *self != v]
            }
            fn part(&self, v: i64) -> Option<Ordering> {
                self.partial_cmp(&T::of(v))
            }
        }
    };
}
bound!(LowerBound, lo_key);
bound!(UpperBound, up_key);

fn relations(a: i64, b: i64) -> [bool; 6] {
    [a < b, a <= b, a > b, a >= b, a == b, a != b]
}
const REL: [&str; 6] = ["<", "<=", ">", ">=", "==", "!="];
fn differ(got: &[bool; 6], want: &[bool; 6]) -> Option<String> {
    (0..6).find(|i| got[*i] != want[*i]).map(|i| format!("{} gives {}", REL[i], got[i]))
}

type FixedHash = BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

/// Sorted insertion, done in one of several ways; duplicates are dropped.
fn insert<X: B>(v: &mut Vec<X>, b: X, how: u32) {
    match how % 8 {
        0 => {
            if let Err(i) = v.binary_search(&b) {
                v.insert(i, b)
            }
        }
        1 => {
            let i = v.partition_point(|x| *x < b);
            if v.get(i) != Some(&b) {
                v.insert(i, b)
            }
        }
        2 => match v.iter().position(|x| x.partial_cmp(&b) != Some(Less)) {
            None => v.push(b),
            Some(i) => {
                if v[i].partial_cmp(&b) == Some(Greater) {
                    v.insert(i, b)
                }
            }
        },
        3 => {
            v.push(b);
            v.sort();
            v.dedup();
        }
        4 => {
            v.push(b);
            v.sort_by(|x, y| if x < y { Less } else if x > y { Greater } else { Equal });
            v.dedup_by(|x, y| !(*x < *y) && !(*x > *y));
        }
        5 => {
            let mut s: BTreeSet<X> = v.drain(..).collect();
            s.insert(b);
            v.extend(s);
        }
        6 => {
            let mut s: HashSet<X, FixedHash> = v.drain(..).collect();
            s.insert(b);
            v.extend(s);
            v.sort_unstable_by(|x, y| if x <= y && x >= y { Equal } else if x <= y { Less } else { Greater });
        }
        _ => {
            let i = v.partition_point(|x| !(*x >= b));
            if i == v.len() || v[i] > b {
                v.insert(i, b)
            }
        }
    }
}
fn check_index<X: B>(v: &[X], m: &BTreeSet<(i64, i64, bool)>, what: &str) {
    let Some(g) = observe(ORDER, what, || v.iter().map(|b| b.raw()).collect::<Vec<_>>()) else { return };
    let e: Vec<(i64, bool)> = m.iter().map(|x| (x.1, x.2)).collect();
    if g != e {
        violation(ORDER, &format!("{}: index of {}s (value, closed) is {:?}, expected {:?}", what, X::NAME, g, e));
    }
}
/// every way to compare two bounds of the same kind
fn pair<X: B>(op: &Op, a: &X, b: &X) {
    let ((va, ca), (vb, cb)) = (a.raw(), b.raw());
    let want = relations(X::pos(va, ca), X::pos(vb, cb));
    let ord = X::pos(va, ca).cmp(&X::pos(vb, cb));
    let r = sut(op, || {
        let g = [a < b, a <= b, a > b, a >= b, a == b, a != b];
        let c = (a.cmp(b), a.partial_cmp(b));
        let top = a.clone().max(b.clone()).raw();
        let low = a.clone().min(b.clone()).raw();
        // within a range of one or two bounds
        let held = if ord == Greater { (a.clone().clamp(b.clone(), b.clone()).raw(), b.clone().clamp(b.clone(), a.clone()).raw()) } else { (a.clone().clamp(b.clone(), b.clone()).raw(), b.clone().clamp(a.clone(), b.clone()).raw()) };
        (g, c, top, low, held)
    });
    let what = format!("{} ({}, closed {}) and ({}, closed {})", X::NAME, va, ca, vb, cb);
    match r {
        Out::Ok((g, c, top, low, held)) => {
            if held != ((vb, cb), (vb, cb)) {
                violation(ORDER, &format!("{}: clamp gives {:?}", what, held));
            }
            if let Some(d) = differ(&g, &want) {
                violation(ORDER, &format!("{}: {}", what, d));
            }
            if c != (ord, Some(ord)) {
                violation(ORDER, &format!("{}: cmp/partial_cmp give {:?}, expected {:?}", what, c, ord));
            }
            let (e_top, e_low) = if ord == Greater { ((va, ca), (vb, cb)) } else { ((vb, cb), (va, ca)) };
            if top != e_top || low != e_low {
                violation(ORDER, &format!("{}: max gives {:?}, min {:?}", what, top, low));
            }
            if ord == Equal {
                let h = FixedHash::default();
                if observe(ORDER, "hash", || h.hash_one(a) != h.hash_one(b)) == Some(true) {
                    violation(ORDER, &format!("{}: equal, but their hashes differ", what));
                }
            }
        }
        Out::Fault(_) => {}
        Out::Lib(e) => violation(ORDER, &format!("{}: comparing panicked: {}", what, e)),
    }
}
fn value<X: B, T: V>(op: &Op, a: &X, v: i64) {
    let (va, ca) = a.raw();
    let (k, p) = (X::pos(va, ca), 4 * T::key(v));
    match sut(op, || (a.with_value(v), a.part(v))) {
        Out::Ok((g, c)) => {
            if let Some(d) = differ(&g, &relations(k, p)) {
                violation(ORDER, &format!("{} ({}, closed {}) and value {}: {}", X::NAME, va, ca, v, d));
            }
            if c != Some(k.cmp(&p)) {
                violation(ORDER, &format!("{} ({}, closed {}) and value {}: partial_cmp gives {:?}", X::NAME, va, ca, v, c));
            }
        }
        Out::Fault(_) => {}
        Out::Lib(e) => violation(ORDER, &format!("comparing a bound with a value panicked: {}", e)),
    }
}
/// an upper bound that ends before a lower one starts, and whether they leave a gap
fn mixed<T: V>(op: &Op, l: &LowerBound<T>, u: &UpperBound<T>) {
    let ((lv, lc), (uv, uc)) = (l.raw(), u.raw());
    let (a, b) = (lo_key::<T>(lv, lc), up_key::<T>(uv, uc));
    let (kl, ku) = (T::key(lv), T::key(uv));
    let gap = kl > ku || kl == ku && !lc && !uc;
    let r = sut(op, || {
        let g = (u < l, u <= l, l > u, l >= u, l.is_separated_from(u), u.is_separated_from(l));
        (g, (l < u, l <= u, u > l, u >= l), l.partial_cmp(u), u.partial_cmp(l), (l == u, u == l, l != u, u != l))
    });
    match r {
        Out::Ok((g, less, pl, pu, same)) => {
            if same != (false, false, true, true) {
                violation(ORDER, &format!("upper bound ({}, closed {}) and lower bound ({}, closed {}): (l==u, u==l, l!=u, u!=l) is {:?}", uv, uc, lv, lc, same));
            }
            // whether one is strictly before the other at the same value is a matter of the question
            if kl == ku && !(less.1 && less.3) {
                violation(ORDER, &format!("lower bound ({}, closed {}) and upper bound ({}, closed {}): (l<=u, u>=l) is {:?}", lv, lc, uv, uc, (less.1, less.3)));
            }
            if kl != ku {
                let (b, o) = (kl < ku, kl.cmp(&ku));
                if less != (b, b, b, b) || pl != Some(o) || pu != Some(o.reverse()) {
                    violation(
                        ORDER,
                        &format!("upper bound ({}, closed {}) and lower bound ({}, closed {}): (l<u, l<=u, u>l, u>=l) is {:?}, partial_cmp {:?} and {:?}", uv, uc, lv, lc, less, pl, pu),
                    );
                }
            }
            let e = (b < a, b <= a, a > b, a >= b, gap, gap);
            if g != e {
                violation(
                    ORDER,
                    &format!("upper bound ({}, closed {}) and lower bound ({}, closed {}): (u<l, u<=l, l>u, l>=u, separated, separated) is {:?}, expected {:?}", uv, uc, lv, lc, g, e),
                );
            }
        }
        Out::Fault(_) => {}
        Out::Lib(e) => violation(ORDER, &format!("comparing bounds panicked: {}", e)),
    }
}

// ---- intervals ----
fn iv_of<T: V>(i: &Iv) -> Interval<T> {
    match *i {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(T::of(l), lc, T::of(u), uc),
    }
}
fn before<T: V>(a: &Iv, b: &Iv) -> bool {
    matches!((a, b), (Some((_, _, u, uc)), Some((l, lc, _, _))) if up_key::<T>(*u, *uc) < lo_key::<T>(*l, *lc))
}
fn before_eq<T: V>(a: &Iv, b: &Iv) -> bool {
    matches!((a, b), (Some((_, _, u, _)), Some((l, _, _, _))) if T::key(*u) <= T::key(*l))
}
fn iv_relations<T: V>(a: &Iv, b: &Iv) -> [bool; 6] {
    [before::<T>(a, b), before_eq::<T>(a, b), before::<T>(b, a), before_eq::<T>(b, a), a == b, a != b]
}
fn val_relations<T: V>(a: &Iv, v: i64) -> [bool; 6] {
    let Some((l, lc, u, uc)) = *a else { return [false, false, false, false, false, true] };
    let p = 4 * T::key(v);
    let (lo, up) = (lo_key::<T>(l, lc), up_key::<T>(u, uc));
    let one = l == v && u == v;
    [up < p, up <= p, lo > p, lo >= p, one, !one]
}
fn part_of(r: &[bool; 6]) -> Option<Ordering> {
    if r[0] {
        Some(Less)
    } else if r[2] {
        Some(Greater)
    } else if r[4] {
        Some(Equal)
    } else {
        None
    }
}
fn compare<T: V>(a: &Interval<T>, b: &Interval<T>) -> ([bool; 6], Option<Ordering>) {
    ([a < b, a <= b, a > b, a >= b, a == b, a != b], a.partial_cmp(b))
}
fn against<T: V>(a: &Interval<T>, v: i64) -> ([bool; 6], Option<Ordering>, bool) {
    let v = T::of(v);
    ([*a < v, *a <= v, *a > v, *a >= v, *a == v, *a != v], a.partial_cmp(&v), a.contains_val(&v))
}
/// reads an interval through all accessors
fn read<T: V>(x: &Interval<T>, what: &str) -> Iv {
    let r = x.bounds().map(|(l, u)| {
        l.val().sound(what);
        u.val().sound(what);
        (l.val().num(), l.is_closed(), u.val().num(), u.is_closed())
    });
    let ok = match &r {
        None => x.is_empty() && !x.is_single() && x.lower().is_none() && x.upper().is_none() && x.is_lower_closed().is_none() && x.is_upper_closed().is_none(),
        Some((l, lc, u, uc)) => {
            !x.is_empty()
                && x.is_single() == (l == u)
                && x.lower().map(|b| (b.val().num(), b.is_closed())) == Some((*l, *lc))
                && x.upper().map(|b| (b.val().num(), b.is_closed())) == Some((*u, *uc))
                && x.is_lower_closed() == Some(*lc)
                && x.is_upper_closed() == Some(*uc)
        }
    };
    if !ok {
        violation(FORM, &format!("{}: the accessors of {:?} disagree", what, r));
    }
    if !valid::<T>(&r) {
        violation(FORM, &format!("{}: ill-formed interval {:?}", what, r));
    }
    r
}

// ---- the system ----
enum Wire<T: V> {
    Raw,
    Tuple((T, bool, T, bool)),
    Bounds(LowerBound<T>, UpperBound<T>),
    Whole(Interval<T>),
}
struct Msg<T: V> {
    id: u32,
    to: usize,
    /// what the message says (one of the two bounds for C20)
    m: Iv,
    lower: bool,
    form: u32,
    hops: u32,
    wire: Wire<T>,
}
struct Node<T: V> {
    /// durable
    log: Vec<(u32, Iv, bool)>,
    seen: BTreeSet<u32>,
    los: Vec<LowerBound<T>>,
    ups: Vec<UpperBound<T>>,
    mlos: BTreeSet<(i64, i64, bool)>,
    mups: BTreeSet<(i64, i64, bool)>,
    held: Vec<(Interval<T>, Iv)>,
    granted: Vec<(Interval<T>, Iv)>,
    disk: String,
    synced: usize,
    journal: Vec<(Iv, usize)>,
}
impl<T: V> Node<T> {
    fn new() -> Self {
        Node {
            log: vec![],
            seen: BTreeSet::new(),
            los: vec![],
            ups: vec![],
            mlos: BTreeSet::new(),
            mups: BTreeSet::new(),
            held: vec![],
            granted: vec![],
            disk: String::new(),
            synced: 0,
            journal: vec![],
        }
    }
}
struct World<T: V> {
    prop: u8,
    range: i64,
    nodes: Vec<UnsafeCell<Node<T>>>,
    net: UnsafeCell<Vec<Msg<T>>>,
    lost: UnsafeCell<Vec<Msg<T>>>,
    ids: UnsafeCell<u32>,
}
pub const NAMES: [&str; 9] = ["send", "deliver", "lose", "duplicate", "corrupt", "crash", "query", "sync", "set_order"];
const SEND: u8 = 0;
const DELIVER: u8 = 1;
const LOSE: u8 = 2;
const DUP: u8 = 3;
const CORRUPT: u8 = 4;
const CRASH: u8 = 5;
const QUERY: u8 = 6;
const SYNC: u8 = 7;

fn some_iv<T: V>(w: &World<T>, a: u32, b: u32) -> Iv {
    let form = a % 16;
    if form == 0 {
        return None;
    }
    let (x, y) = (number(w.range, a / 16 + 4096), number(w.range, b));
    if x == y || form == 1 {
        return Some((x, true, x, true));
    }
    let (l, u) = if T::key(x) < T::key(y) { (x, y) } else { (y, x) };
    Some((l, form & 2 > 0, u, form & 4 > 0))
}
fn resend<T: V>(m: &Msg<T>) -> Msg<T> {
    Msg { id: m.id, to: m.to, m: m.m, lower: m.lower, form: m.form, hops: m.hops, wire: Wire::Raw }
}

/// a node learns a bound (C20)
fn learn<T: V>(n: &mut Node<T>, op: &Op, m: &(u32, Iv, bool), how: u32) -> bool {
    let Some((l, lc, u, uc)) = m.1 else { return true };
    let r = if m.2 {
        n.mlos.insert((lo_key::<T>(l, lc), l, lc));
        let b = LowerBound::mk(l, lc);
        let v = &mut n.los;
        sut(op, || insert(v, b, how))
    } else {
        n.mups.insert((up_key::<T>(u, uc), u, uc));
        let b = UpperBound::mk(u, uc);
        let v = &mut n.ups;
        sut(op, || insert(v, b, how))
    };
    match r {
        Out::Ok(()) => {
            check_index(&n.los, &n.mlos, "after an insertion");
            check_index(&n.ups, &n.mups, "after an insertion");
            true
        }
        Out::Fault(_) => false,
        Out::Lib(e) => {
            violation(ORDER, &format!("sorting bounds panicked: {}", e));
            false
        }
    }
}
/// a node learns a lease and decides whether to grant it (C21)
fn admit<T: V>(n: &mut Node<T>, op: &Op, m: &Iv, how: u32) -> bool {
    let x: Interval<T> = match plain(|| iv_of(m)) {
        Out::Ok(x) => x,
        _ => {
            violation(ORDER, &format!("constructing {:?} panicked", m));
            return false;
        }
    };
    // relations to what the node knows
    let from = n.held.len().saturating_sub(12);
    let held = &n.held[from..];
    let r = sut(op, || held.iter().map(|(h, _)| (compare(h, &x), compare(&x, h))).collect::<Vec<_>>());
    let r = match r {
        Out::Ok(r) => r,
        Out::Fault(_) => return false,
        Out::Lib(e) => {
            violation(ORDER, &format!("comparing intervals panicked: {}", e));
            return false;
        }
    };
    for ((g, h), (a, b)) in held.iter().zip(&r) {
        if h == m {
            let f = FixedHash::default();
            if observe(ORDER, "hash", || f.hash_one(g) != f.hash_one(&x)) == Some(true) {
                violation(ORDER, &format!("interval {} twice: equal, but the hashes differ", text::<T>(h)));
            }
        }
        for (p, q, got) in [(h, m, a), (m, h, b)] {
            let want = iv_relations::<T>(p, q);
            if let Some(d) = differ(&got.0, &want) {
                violation(ORDER, &format!("intervals {} and {}: {}", text::<T>(p), text::<T>(q), d));
            }
            if (p.is_some() || q.is_some()) && got.1 != part_of(&want) {
                violation(ORDER, &format!("intervals {} and {}: partial_cmp gives {:?}", text::<T>(p), text::<T>(q), got.1));
            }
        }
    }
    // the schedule holds leases that strictly follow each other
    let g = &n.granted;
    let r = sut(op, || {
        let (i, free) = match how % 4 {
            0 => {
                let i = g.iter().position(|(h, _)| !(*h < x)).unwrap_or(g.len());
                (i, g.get(i).map_or(true, |(h, _)| *h > x))
            }
            1 => {
                let i = g.partition_point(|(h, _)| *h < x);
                (i, g.get(i).map_or(true, |(h, _)| x < *h))
            }
            2 => {
                let free = g.iter().all(|(h, _)| *h < x || *h > x);
                (g.iter().filter(|(h, _)| *h < x).count(), free)
            }
            _ => match g.binary_search_by(|(h, _)| h.partial_cmp(&x).unwrap_or(Equal)) {
                Ok(i) => (i, false),
                Err(i) => (i, true),
            },
        };
        (i, free && !x.is_empty())
    });
    match r {
        Out::Ok((i, ok)) => {
            let free = m.is_some() && g.iter().all(|(_, h)| before::<T>(h, m) || before::<T>(m, h));
            let at = g.iter().filter(|(_, h)| before::<T>(h, m)).count();
            if ok != free || ok && i != at {
                violation(ORDER, &format!("lease {}: granted {} at position {}, expected {} at {}", text::<T>(m), ok, i, free, at));
                return true;
            }
            if ok {
                n.granted.insert(i, (x.clone(), *m));
            }
            n.held.push((x, *m));
            true
        }
        Out::Fault(_) => false,
        Out::Lib(e) => {
            violation(ORDER, &format!("comparing intervals panicked: {}", e));
            false
        }
    }
}
/// volatile state is lost; the node starts again from its log
fn restart<T: V>(w: &World<T>, n: &mut Node<T>, salt: u32) {
    hit(probe::RESTARTED);
    n.los.clear();
    n.ups.clear();
    n.mlos.clear();
    n.mups.clear();
    n.held.clear();
    n.granted.clear();
    match w.prop {
        20 | 21 => {
            let log = n.log.clone();
            for (i, m) in log.iter().enumerate() {
                if aborted() {
                    return;
                }
                if w.prop == 20 {
                    learn(n, &Op::new(0), m, mix(salt as u64 + i as u64) as u32);
                } else {
                    admit(n, &Op::new(0), &m.1, mix(salt as u64 + i as u64) as u32);
                }
            }
        }
        23 => {
            // some of what was not synced survives, up to any byte
            let mut keep = n.synced + mix(salt as u64) as usize % (n.disk.len() - n.synced + 1);
            while !n.disk.is_char_boundary(keep) {
                keep -= 1;
            }
            n.disk.truncate(keep);
            recover(n, "journal after a crash");
            let end = n.journal.last().map_or(0, |j| j.1);
            n.disk.truncate(end);
            n.synced = end;
        }
        _ => {}
    }
}
fn recover<T: V>(n: &mut Node<T>, what: &str) {
    let mut got: Vec<(Iv, usize)> = vec![];
    let mut at = 0;
    while let Some(e) = n.disk[at..].find('\n') {
        let line = &n.disk[at..at + e];
        let Some(i) = parse::<T>(line) else {
            violation(TEXT, &format!("{}: {:?} does not denote an interval", what, line));
            return;
        };
        if !valid::<T>(&i) {
            violation(TEXT, &format!("{}: {:?} is not a valid interval", what, line));
            return;
        }
        at += e + 1;
        got.push((i, at));
    }
    n.journal.retain(|j| j.1 <= n.disk.len());
    if got != n.journal {
        let k = (0..).find(|i| got.get(*i) != n.journal.get(*i)).unwrap_or(0);
        violation(TEXT, &format!("{}: record {} is {:?}, expected {:?}", what, k, got.get(k), n.journal.get(k)));
    }
}

/// a disk that fills up
struct Disk<'a> {
    out: &'a mut String,
    room: usize,
}
impl Write for Disk<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        as_harness(|| {
            let mut n = s.len().min(self.room);
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.out.push_str(&s[..n]);
            self.room -= n;
            if n < s.len() {
                Err(fmt::Error)
            } else {
                Ok(())
            }
        })
    }
}
fn append<T: V>(n: &mut Node<T>, op: &Op, m: &Iv) {
    let x: Interval<T> = match plain(|| iv_of(m)) {
        Out::Ok(x) => x,
        _ => {
            violation(TEXT, &format!("constructing {:?} panicked", m));
            return;
        }
    };
    let want = text::<T>(m);
    let start = n.disk.len();
    let how = op.b % 5;
    let room = if how < 2 { mix(op.b as u64 ^ 0xD15C) as usize % (want.len() + 4) } else { usize::MAX };
    let sulk = if how == 2 && std::any::TypeId::of::<T>() == std::any::TypeId::of::<Num>() && m.is_some() { op.a % 4 } else { 0 };
    let sulk = if sulk > 2 { 0 } else { sulk };
    SULK.with(|s| s.set(sulk));
    let d = &mut n.disk;
    let r = sut(op, || match how {
        0..=2 => write!(Disk { out: d, room }, "{}", x),
        3 => {
            let t = x.to_string();
            as_harness(|| d.push_str(&t));
            Ok(())
        }
        _ => {
            let t = format!("{}", &x);
            as_harness(|| d.push_str(&t));
            Ok(())
        }
    });
    let got = n.disk[start..].to_string();
    SULK.with(|s| s.set(0));
    match r {
        Out::Ok(Ok(())) => {
            if got != want {
                violation(TEXT, &format!("{:?} is displayed as {:?}, expected {:?}", m, got, want));
            }
            if room < want.len() {
                violation(TEXT, &format!("displaying {:?} to a full device reported success", m));
            }
            if sulk > 0 {
                violation(TEXT, &format!("displaying {:?} reported success although a value could not be displayed", m));
            }
            n.disk.push('\n');
            n.journal.push((*m, n.disk.len()));
            return;
        }
        Out::Ok(Err(_)) => {
            hit(probe::REFUSED);
            if room >= want.len() && sulk == 0 {
                violation(TEXT, &format!("displaying {:?} failed although the device did not", m));
            }
        }
        Out::Fault(_) => {}
        Out::Lib(e) => violation(TEXT, &format!("displaying {:?} panicked: {}", m, e)),
    }
    if !want.starts_with(&got) {
        violation(TEXT, &format!("interrupted while displaying {:?}: {:?} is not the start of {:?}", m, got, want));
    }
    // the torn record is taken back
    n.disk.truncate(start);
}
/// a request arrives (C22)
fn request<T: V>(w: &World<T>, op: &Op, mut msg: Msg<T>) -> Option<Msg<T>> {
    let form = msg.form;
    let mut want = msg.m;
    let wire = std::mem::replace(&mut msg.wire, Wire::Raw);
    let m = msg.m;
    let moved = !matches!(wire, Wire::Raw);
    // values are created by the receiver
    let raw = match (&wire, m) {
        (Wire::Raw, Some((l, lc, u, uc))) => Some((T::of(l), lc, T::of(u), uc)),
        _ => None,
    };
    if !moved {
        // forms that fix the closedness
        if let Some((l, lc, u, uc)) = m {
            want = Some(match form % 7 {
                0 | 1 => (l, lc, u, uc),
                2 => (l, true, l, true),
                3 => (l, false, u, false),
                4 => (l, true, u, true),
                5 => (l, true, u, false),
                _ => (l, false, u, true),
            });
        }
    }
    let r = sut(op, move || match wire {
        Wire::Tuple((l, lc, u, uc)) => Interval::new(l, lc, u, uc),
        Wire::Bounds(l, u) => Interval::from_bounds(l, u),
        Wire::Whole(i) => {
            if form % 2 == 0 {
                i.clone()
            } else {
                i
            }
        }
        Wire::Raw => match raw {
            None => Interval::empty(),
            Some((l, lc, u, uc)) => match form % 7 {
                0 => Interval::new(l, lc, u, uc),
                1 => Interval::from_bounds(LowerBound::new(l, lc), UpperBound::new(u, uc)),
                2 => Interval::single(l),
                3 => Interval::open(l, u),
                4 => Interval::closed(l, u),
                5 => Interval::lower_closed(l, u),
                _ => Interval::upper_closed(l, u),
            },
        },
    });
    let ok = valid::<T>(&want);
    let what = format!("request {:?} (form {}{})", m, form % 7, if moved { ", forwarded" } else { "" });
    match r {
        Out::Ok(i) => {
            let g = observe(FORM, &what, || read(&i, &what))?;
            if !ok {
                violation(FORM, &format!("{}: invalid, but accepted as {:?}", what, g));
                return None;
            }
            if g != want {
                violation(FORM, &format!("{}: became {:?}, expected {:?}", what, g, want));
                return None;
            }
            if msg.hops == 0 {
                return None;
            }
            // forwarded to another node
            msg.hops -= 1;
            msg.m = want;
            msg.to = (msg.to + 1 + op.a as usize) % w.nodes.len();
            let r = sut(op, || match op.b % 3 {
                0 => i.into_tuple().map(Wire::Tuple),
                1 => i.into_bounds().map(|(l, u)| Wire::Bounds(l, u)),
                _ => Some(Wire::Whole(i)),
            });
            match r {
                Out::Ok(Some(x)) => {
                    if want.is_none() && !matches!(x, Wire::Whole(_)) {
                        violation(FORM, "an empty interval was taken apart into bounds");
                    }
                    msg.wire = x
                }
                Out::Ok(None) => {
                    if want.is_some() {
                        violation(FORM, &format!("{}: taken apart into nothing", what));
                    }
                    msg.wire = Wire::Whole(Interval::empty())
                }
                Out::Fault(_) => return None,
                Out::Lib(e) => violation(FORM, &format!("{}: taking it apart panicked: {}", what, e)),
            }
            let inside = match &msg.wire {
                Wire::Tuple((l, lc, u, uc)) => Some((l.num(), *lc, u.num(), *uc)),
                Wire::Bounds(l, u) => Some((l.raw().0, l.raw().1, u.raw().0, u.raw().1)),
                Wire::Whole(i) => read(i, &what),
                Wire::Raw => want,
            };
            if inside != want {
                violation(FORM, &format!("{}: taken apart into {:?}", what, inside));
            }
            Some(msg)
        }
        Out::Fault(_) => None,
        Out::Lib(e) => {
            hit(probe::REFUSEDMERGE);
            if ok {
                violation(FORM, &format!("{}: valid, but refused: {}", what, e));
            }
            None
        }
    }
}

fn handle<T: V>(w: &World<T>, op: &Op, msg: Msg<T>) {
    let to = msg.to;
    let fwd = {
        let _held = sched::acquire(&[(to, true)]);
        if aborted() {
            return;
        }
        let n = unsafe { &mut *w.nodes[to].get() };
        match w.prop {
            20 => {
                let rec = (msg.id, msg.m, msg.lower);
                if !n.log.contains(&rec) || op.b % 4 == 0 {
                    n.log.push(rec);
                }
                if !learn(n, op, &rec, op.a) && !aborted() {
                    hit(probe::CRASHED);
                    restart(w, n, op.b);
                }
                None
            }
            21 => {
                if n.seen.insert(msg.id) {
                    n.log.push((msg.id, msg.m, false));
                    if !admit(n, op, &msg.m, op.a) && !aborted() {
                        hit(probe::CRASHED);
                        restart(w, n, op.b);
                    }
                }
                None
            }
            22 => request(w, op, msg),
            _ => {
                append(n, op, &msg.m);
                None
            }
        }
    };
    if let Some(m) = fwd {
        let _held = sched::acquire(&[(w.nodes.len(), true)]);
        unsafe { (*w.net.get()).push(m) };
    }
    heap_check();
}
fn query<T: V>(w: &World<T>, op: &Op, n: &mut Node<T>) {
    let v = number(w.range, op.a);
    match w.prop {
        20 => {
            let some = |k: u32, len: usize| mix(op.b as u64 ^ (k as u64) << 20) as usize % len.max(1);
            for k in 0..3u32 {
                if aborted() {
                    return;
                }
                if !n.los.is_empty() {
                    let (i, j) = (some(k, n.los.len()), some(k + 7, n.los.len()));
                    pair(op, &n.los[i], &n.los[j]);
                    value::<_, T>(op, &n.los[i], v);
                    // a bound just like it
                    let (x, c) = n.los[i].raw();
                    pair(op, &n.los[i], &LowerBound::mk(x, (k % 2 == 0) == c));
                    value::<_, T>(op, &n.los[i], x);
                    mixed(op, &n.los[i], &UpperBound::mk(x, k % 2 == 0));
                }
                if !n.ups.is_empty() {
                    let (i, j) = (some(k + 3, n.ups.len()), some(k + 9, n.ups.len()));
                    pair(op, &n.ups[i], &n.ups[j]);
                    value::<_, T>(op, &n.ups[i], v);
                    let (x, c) = n.ups[i].raw();
                    pair(op, &n.ups[i], &UpperBound::mk(x, (k % 2 == 0) == c));
                    value::<_, T>(op, &n.ups[i], x);
                    if !n.los.is_empty() {
                        mixed(op, &n.los[some(k, n.los.len())], &n.ups[i]);
                    }
                }
            }
            check_index(&n.los, &n.mlos, "after comparisons");
            check_index(&n.ups, &n.mups, "after comparisons");
        }
        21 => {
            // who holds the value?
            for k in 0..3u32 {
                let v = match (k, n.granted.last(), n.granted.first()) {
                    (1, Some((_, Some((_, _, u, _)))), _) => *u,
                    (2, _, Some((_, Some((l, _, _, _))))) => *l,
                    _ => v,
                };
                let g = &n.granted;
                let r = sut(op, || {
                    let x = T::of(v);
                    let i = if op.b % 2 == 0 { g.partition_point(|(h, _)| *h < x) } else { g.iter().take_while(|(h, _)| *h < x).count() };
                    let owner = g.get(i).map_or(false, |(h, _)| h.contains_val(&x));
                    (i, owner, g.iter().map(|(h, _)| against(h, v)).collect::<Vec<_>>())
                });
                match r {
                    Out::Ok((i, owner, all)) => {
                        for ((_, h), got) in g.iter().zip(&all) {
                            let want = val_relations::<T>(h, v);
                            if let Some(d) = differ(&got.0, &want) {
                                violation(ORDER, &format!("interval {} and value {}: {}", text::<T>(h), T::text(v), d));
                            }
                            if got.1 != part_of(&want) {
                                violation(ORDER, &format!("interval {} and value {}: partial_cmp gives {:?}", text::<T>(h), T::text(v), got.1));
                            }
                            if got.2 != (!want[0] && !want[2]) {
                                violation(ORDER, &format!("interval {} contains value {}: {}", text::<T>(h), T::text(v), got.2));
                            }
                        }
                        let at = g.iter().filter(|(_, h)| val_relations::<T>(h, v)[0]).count();
                        let own = g.get(at).map_or(false, |(_, h)| !val_relations::<T>(h, v)[2]);
                        if (i, owner) != (at, own) {
                            violation(ORDER, &format!("holder of value {}: position {} {}, expected {} {}", T::text(v), i, owner, at, own));
                        }
                    }
                    Out::Fault(_) => {}
                    Out::Lib(e) => violation(ORDER, &format!("comparing an interval with a value panicked: {}", e)),
                }
                // also leases that were refused, and empty ones
                if let Some((x, m)) = n.held.get(mix(op.b as u64 + k as u64) as usize % n.held.len().max(1)) {
                    if let Out::Ok(got) = sut(op, || against(x, v)) {
                        let want = val_relations::<T>(m, v);
                        if let Some(d) = differ(&got.0, &want) {
                            violation(ORDER, &format!("interval {} and value {}: {}", text::<T>(m), T::text(v), d));
                        }
                        if got.1 != part_of(&want) || got.2 != (m.is_some() && !want[0] && !want[2]) {
                            violation(ORDER, &format!("interval {} and value {}: partial_cmp {:?}, contains {}", text::<T>(m), T::text(v), got.1, got.2));
                        }
                    }
                }
            }
            for (i, w2) in n.granted.windows(2).enumerate() {
                if let Out::Ok(false) = sut(op, || w2[0].0 < w2[1].0 && w2[1].0 > w2[0].0) {
                    violation(ORDER, &format!("granted leases {} and {} are out of order", i, i + 1));
                }
            }
        }
        23 => recover(n, "journal"),
        _ => {}
    }
}
fn exec<T: V>(w: &World<T>, op: &Op) {
    let r = w.nodes.len();
    match op.code {
        SEND => {
            let _held = sched::acquire(&[(r, true)]);
            let net = unsafe { &mut *w.net.get() };
            let id = unsafe { &mut *w.ids.get() };
            *id += 1;
            let mut m = some_iv(w, op.a, op.b);
            if w.prop == 22 && op.o2 % 2 == 1 {
                // a client that does not care
                m = Some((number(w.range, op.a / 16), op.a % 2 == 0, number(w.range, op.b), op.a % 4 < 2));
            }
            if w.prop == 20 && m.is_none() {
                m = Some((number(w.range, op.b), op.a / 16 % 2 == 0, number(w.range, op.b), op.a / 16 % 2 == 1));
            }
            if trace_of(&m) {
                hit(probe::REVERSED);
            }
            for to in 0..r {
                if w.prop >= 22 && to != op.o as usize % r {
                    continue;
                }
                net.push(Msg { id: *id, to, m, lower: op.o2 % 2 == 0, form: op.a / 7 + op.b, hops: op.b % 4, wire: Wire::Raw });
            }
        }
        DELIVER => {
            let msg = {
                let _held = sched::acquire(&[(r, true)]);
                let net = unsafe { &mut *w.net.get() };
                if net.is_empty() || aborted() {
                    return;
                }
                let i = sched::pick(net.len());
                let i = (i + if op.o % 2 == 0 { 0 } else { op.a as usize }) % net.len();
                net.remove(i)
            };
            handle(w, op, msg)
        }
        LOSE | DUP | CORRUPT => {
            let _held = sched::acquire(&[(r, true)]);
            let net = unsafe { &mut *w.net.get() };
            if net.is_empty() {
                return;
            }
            let i = op.a as usize % net.len();
            match op.code {
                LOSE => {
                    hit(probe::NETLOSS);
                    let m = net.remove(i);
                    unsafe { (*w.lost.get()).push(m) }
                }
                DUP => {
                    hit(probe::NETDUP);
                    let m = resend(&net[i]);
                    net.push(m)
                }
                _ => {
                    let x = &mut net[i];
                    x.wire = Wire::Raw;
                    if let Some((l, lc, u, uc)) = &mut x.m {
                        match op.b % 7 {
                            0 => std::mem::swap(l, u),
                            1 => *l = number(w.range, op.b),
                            2 => *u = number(w.range, op.b),
                            3 => *lc = !*lc,
                            4 => *uc = !*uc,
                            5 => *u = *l,
                            _ => x.form = op.b,
                        }
                    }
                }
            }
        }
        CRASH | QUERY | SYNC => {
            let i = op.o as usize % r;
            let _held = sched::acquire(&[(i, true)]);
            if aborted() {
                return;
            }
            let n = unsafe { &mut *w.nodes[i].get() };
            match op.code {
                CRASH => restart(w, n, op.b),
                QUERY => query(w, op, n),
                _ => n.synced = n.disk.len(),
            }
        }
        _ => {}
    }
}
fn trace_of(m: &Iv) -> bool {
    match m {
        None => {
            trace(7);
            false
        }
        Some((l, lc, u, uc)) => {
            trace(mix((*l as u64) << 20 ^ *u as u64 ^ (*lc as u64) << 60 ^ (*uc as u64) << 61));
            l > u
        }
    }
}
fn run_t<T: V>(plan: &Plan) {
    let n = plan.clients();
    let r = plan.get("nodes").clamp(1, 5) as usize;
    let w: World<T> = World {
        prop: plan.prop[1..].parse().unwrap_or(20),
        range: plan.get("span").max(1),
        nodes: (0..r).map(|_| UnsafeCell::new(Node::new())).collect(),
        net: UnsafeCell::new(vec![]),
        lost: UnsafeCell::new(vec![]),
        ids: UnsafeCell::new(0),
    };
    let body = |me: usize| {
        for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.client as usize == me) {
            sched::op_point();
            if aborted() {
                break;
            }
            begin_op(i, op, NAMES[op.code as usize % NAMES.len()]);
            exec(&w, op);
        }
    };
    sched::clients(plan, n, r + 1, 256 << 10, &body);
    if !aborted() {
        // faults have stopped: what was lost is sent again, everything arrives in some order
        let mut tail = Plan::default();
        let mut g = Rng::new(plan.seed ^ 0x1EA5E);
        tail.pick = (0..64).map(|_| g.below(250) as u8).collect();
        let salt = g.u64() as u32;
        let last = |_| {
            sched::note_op("final deliveries".into());
            let net = unsafe { &mut *w.net.get() };
            net.append(unsafe { &mut *w.lost.get() });
            let mut k = 0;
            while !net.is_empty() && !aborted() && k < 20_000 {
                let mut op = Op::new(DELIVER);
                op.a = mix((salt + k) as u64) as u32 % 4096;
                op.b = mix((salt ^ k) as u64 ^ 99) as u32 % 4096;
                let i = sched::pick(net.len());
                let msg = net.remove(i);
                handle(&w, &op, msg);
                k += 1;
            }
            // all nodes agree
            let nodes: Vec<&mut Node<T>> = w.nodes.iter().map(|c| unsafe { &mut *c.get() }).collect();
            if w.prop == 20 {
                for x in nodes.iter().skip(1) {
                    if aborted() {
                        return;
                    }
                    if observe(ORDER, "comparing indexes", || x.los == nodes[0].los && x.ups == nodes[0].ups) == Some(false) {
                        violation(ORDER, "two nodes that received the same bounds have different indexes");
                    }
                }
            }
            for x in nodes {
                query(&w, &Op::new(QUERY), x);
            }
        };
        sched::clients(&tail, 1, r + 1, 256 << 10, &last);
    }
    if aborted() {
        std::mem::forget(w);
    } else {
        drop(w);
    }
}
pub fn execute(plan: &Plan) {
    begin(
        plan,
        match plan.prop.as_str() {
            "C22" => FORM | LIFE | LEAK,
            "C23" => TEXT | LIFE,
            _ => ORDER | LIFE,
        },
    );
    match plan.get("kind") {
        0 => run_t::<Num>(plan),
        1 => run_t::<i32>(plan),
        2 => run_t::<String>(plan),
        _ => run_t::<Back>(plan),
    }
    end_checks(false);
}
pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = Rng::new(seed ^ 0x1EA5E0);
    let g = &mut g;
    let mut p = Plan { prop: prop.into(), seed, ..Default::default() };
    p.set("fill", g.below(4) as i64);
    p.set("clients", g.pick(&[1, 2, 2, 3, 4]));
    p.set("nodes", g.pick(&[1, 2, 3, 4]));
    let kind = g.pick(&[0i64, 0, 1, 2, 3]);
    p.set("kind", kind);
    let span = g.pick(&[2i64, 4, 9, 40, 1 << 20, i32::MAX as i64]);
    p.set("span", span);
    p.set("range", i32::MAX as i64);
    let ws: &[(u8, u64)] = match prop {
        "C20" => &[(SEND, 8), (DELIVER, 14), (LOSE, 1), (DUP, 2), (CRASH, 1), (QUERY, 8)],
        "C21" => &[(SEND, 8), (DELIVER, 16), (LOSE, 1), (DUP, 1), (CRASH, 1), (QUERY, 6)],
        "C22" => &[(SEND, 10), (DELIVER, 16), (LOSE, 1), (DUP, 2), (CORRUPT, 6)],
        _ => &[(SEND, 10), (DELIVER, 12), (LOSE, 1), (DUP, 1), (CRASH, 3), (QUERY, 3), (SYNC, 3)],
    };
    let total: u64 = ws.iter().map(|x| x.1).sum();
    let frate = if kind == 0 { g.pick(&[0u64, 1, 3]) } else { 0 };
    for _ in 0..crate::ring::long_history(seed).unwrap_or(g.pick(&[8u64, 20, 40, 60])) {
        let mut t = g.below(total);
        let code = ws.iter().find(|x| if t < x.1 { true } else { t -= x.1; false }).unwrap().0;
        let mut o = Op::new(code);
        o.client = g.below(p.clients() as u64) as u8;
        o.o = g.below(8) as u8;
        o.o2 = g.below(4) as u8;
        o.a = g.below(1 << 14) as u32;
        o.b = g.below(1 << 14) as u32;
        if frate > 0 && g.chance(frate, 10) {
            let kinds: &[Fk] = match (prop, code) {
                ("C20", DELIVER) => &[Fk::Cmp, Fk::Cmp, Fk::Eq, Fk::Hash],
                ("C20", QUERY) => &[Fk::Cmp, Fk::Eq, Fk::Clone],
                ("C21", DELIVER | QUERY) => &[Fk::Cmp, Fk::Cmp, Fk::Eq, Fk::Clone],
                ("C22", DELIVER) => &[Fk::Cmp, Fk::Cmp, Fk::Eq, Fk::Clone],
                ("C23", DELIVER) => &[Fk::Body],
                _ => &[],
            };
            if !kinds.is_empty() {
                let (k, n) = shuffle_fault(g, kinds);
                o.fk = k;
                o.fnth = if k == Fk::Body { g.below(4) as u32 } else { n };
            }
        }
        p.ops.push(o);
    }
    gen_schedule(&mut p, g);
    p
}
