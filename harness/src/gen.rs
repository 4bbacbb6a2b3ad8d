//! Generators shared by the properties, and the bridge between cases, models and real values.
use crate::engine::Verdict;
use crate::model::*;
use crate::ensure_eq;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy, Union};
use serde::{Deserialize, Serialize};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Not, Sub, SubAssign};

/// Time points seen by the generic checks: dates and durations.
pub trait P: TimePoint + Hash + Display + Not<Output = TimeSet<Self>> + TimeConvex + TimeBounds<TimePoint = Self>
    + Add<TimeValue, Output = Self> + Sub<TimeValue, Output = Self> + AddAssign<TimeValue> + SubAssign<TimeValue> + TimePointFormat
    + PartialOrd + Default + Serialize + serde::de::DeserializeOwned + Send + Sync + 'static
{
    fn mk(t: i64) -> Self;
    fn ticks(self) -> i64;
    fn por<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeSet<Self>;
    fn pand<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeInterval<Self>;
}
impl P for TimeValue {
    fn mk(t: i64) -> Self { TimeValue::from_ticks(t) }
    fn ticks(self) -> i64 { self.as_ticks() }
    fn por<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeSet<Self> { self | w }
    fn pand<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeInterval<Self> { self & w }
}
impl P for Timestamp {
    fn mk(t: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t)) }
    fn ticks(self) -> i64 { self.since_origin().as_ticks() }
    fn por<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeSet<Self> { self | w }
    fn pand<W: TimeConvex<TimePoint = Self>>(self, w: W) -> TimeInterval<Self> { self & w }
}

pub fn tv(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
pub fn ts(t: i64) -> Timestamp { Timestamp::mk(t) }

/// An interval of the real type from model bounds (empty when inverted)
pub fn iv<T: P>(l: i64, u: i64) -> TimeInterval<T> {
    if l == -INF && u == INF { TimeInterval::all() }
    else if l == -INF { TimeInterval::before(T::mk(u)) }
    else if u == INF { TimeInterval::after(T::mk(l)) }
    else { TimeInterval::new(T::mk(l), T::mk(u)) }
}
/// A set of the real type from sorted disjoint parts
pub fn set<T: P>(m: &MSet) -> TimeSet<T> { m.0.iter().map(|&(l, u)| iv::<T>(l, u)).collect() }

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn iv_parts<T: P>(i: TimeInterval<T>) -> (i64, i64) { (i.lower_bound().ticks(), i.upper_bound().ticks()) }
pub fn parts<T: P, W: TimeWindow<TimePoint = T>>(w: &W) -> Vec<(i64, i64)> {
    w.iter().take(100_000).map(iv_parts).collect()
}

pub fn expect_win<T: P, W: TimeWindow<TimePoint = T>>(w: &W, m: &MSet, what: &str) -> Verdict {
    ensure_eq!(parts(w), m.0, "{what}: parts");
    ensure_eq!(w.is_empty(), m.is_empty(), "{what}: is_empty");
    ensure_eq!(w.convex_count(), m.0.len(), "{what}: convex_count");
    Ok(())
}
/// The stored intervals of a set (not filtered), through the by-value iterator
pub fn expect_set<T: P>(s: &TimeSet<T>, m: &MSet, what: &str) -> Verdict {
    expect_win(s, m, what)?;
    let raw: Vec<_> = s.into_iter().map(iv_parts).collect();
    ensure_eq!(raw, m.0, "{what}: stored intervals");
    Ok(())
}
pub fn expect_iv<T: P>(i: &TimeInterval<T>, m: &MSet, what: &str) -> Verdict {
    expect_win(i, m, what)?;
    if m.is_empty() {
        ensure_eq!(*i == TimeInterval::empty(), true, "{what}: equals the empty interval");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------
// scenes: a strictly increasing map from small coordinates to ticks

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scene { pub base: i64, pub unit: i64 }

pub const CMAX: i16 = 60;
/// the coordinates of the two infinities (of range ends only)
pub const PINF: i16 = 10_000;
pub const MINF: i16 = -10_000;
impl Scene {
    pub const UNIT: Scene = Scene { base: 0, unit: 3 };
    /// coordinates 3k-1, 3k, 3k+1 are adjacent ticks around base + k*unit
    pub fn at(&self, c: i16) -> i64 {
        if c >= PINF { return INF }
        if c <= MINF { return -INF }
        let c = c as i64;
        // clamped to the finite ticks but the outermost one on either side: a window cannot tell
        // "up to the last finite tick" from "without upper bound"
        let t = self.base as i128 + c.div_euclid(3) as i128 * self.unit as i128 + (c.rem_euclid(3) - 1) as i128;
        t.clamp(2 - i64::MAX as i128, i64::MAX as i128 - 2) as i64
    }
}

pub fn scene() -> BoxedStrategy<Scene> {
    prop_oneof![
        4 => Just(Scene { base: 0, unit: 3 }),
        1 => Just(Scene { base: -30, unit: 3 }),
        1 => Just(Scene { base: -300, unit: 30 }),
        1 => (-3i64..3, prop_oneof![Just(3i64), Just(1 << 30), Just(60 << 30), Just(1_073)]).prop_map(|(k, unit)| Scene { base: k * 10 * unit, unit }),
        1 => (-40i64..40, 3i64..100_000).prop_map(|(k, unit)| Scene { base: k << 40, unit }),
        1 => (-(1i64 << 61)..(1 << 61), 3i64..(1 << 40)).prop_map(|(base, unit)| Scene { base, unit }),
        1 => Just(Scene { base: i64::MAX - 2000, unit: 3 }),
        1 => Just(Scene { base: -(i64::MAX - 2000), unit: 3 }),
        1 => (0i64..30).prop_map(|k| Scene { base: i64::MAX - k, unit: 3 }),
        1 => (0i64..6).prop_map(|k| Scene { base: -i64::MAX + k, unit: 3 }),
    ].boxed()
}
/// scenes whose ticks stay far from the ends of the range: sums cannot overflow
pub fn small_scene() -> BoxedStrategy<Scene> {
    prop_oneof![
        4 => Just(Scene { base: 0, unit: 3 }),
        2 => Just(Scene { base: -30, unit: 3 }),
        1 => Just(Scene { base: -300, unit: 30 }),
        1 => (-3i64..3, prop_oneof![Just(1i64 << 30), Just(60 << 30), Just(1_073)]).prop_map(|(k, unit)| Scene { base: k * 10 * unit, unit }),
        1 => (-40i64..40, 3i64..100_000).prop_map(|(k, unit)| Scene { base: k << 40, unit }),
        1 => (-(1i64 << 58)..(1 << 58), 3i64..(1 << 40)).prop_map(|(base, unit)| Scene { base, unit }),
    ].boxed()
}

pub fn coord() -> BoxedStrategy<i16> { prop_oneof![3 => 0i16..16, 1 => 0i16..CMAX].boxed() }

/// A set as a walk: start, (gap, length) steps, tails
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SetC { pub start: i16, pub steps: Vec<(u8, u8)>, pub lo: bool, pub hi: bool }

impl SetC {
    pub fn model(&self, s: Scene) -> MSet {
        let mut c = self.start;
        let mut v = vec![];
        for &(gap, len) in &self.steps {
            c += gap.max(2) as i16;
            v.push((s.at(c), s.at(c + len as i16)));
            c += len as i16;
        }
        if self.lo { match v.first_mut() { Some(p) => p.0 = -INF, None => if self.hi { v.push((-INF, INF)) } } }
        if self.hi { if let Some(p) = v.last_mut() { p.1 = INF } }
        MSet::norm(v)
    }
}
pub fn setc(max: usize) -> BoxedStrategy<SetC> {
    // now and then a set of many parts, lying around the coordinates of the other operands
    prop_oneof![
        320 => walk(0..8, 0, max),
        8 => walk(-120..8, max + 1, 40),
        1 => walk(-900..8, 41, 300),
    ].boxed()
}
pub fn walk(start: std::ops::Range<i16>, min: usize, max: usize) -> BoxedStrategy<SetC> {
    (start, prop::collection::vec((prop_oneof![3 => Just(2u8), 2 => 2u8..5, 1 => 2u8..12], prop_oneof![2 => Just(0u8), 2 => 1u8..4, 1 => 0u8..10]), min..=max.max(min)),
     prop::bool::weighted(0.25), prop::bool::weighted(0.25))
        .prop_map(|(start, steps, lo, hi)| SetC { start, steps, lo, hi }).boxed()
}

/// Any window operand
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Win {
    Pt(i16), Iv(i16, i16), Empty, All, After(i16), Before(i16),
    R(i16, i16), RF(i16), RI(i16, i16), RT(i16), RTI(i16), Set(SetC),
}
impl Win {
    pub fn model(&self, s: Scene) -> MSet {
        match self {
            Win::Pt(c) => MSet::pt(s.at(*c)),
            Win::Iv(a, b) | Win::RI(a, b) => MSet::iv(s.at(*a), s.at(*b)),
            Win::Empty => MSet::empty(),
            Win::All => MSet::all(),
            Win::After(c) | Win::RF(c) => MSet::iv(s.at(*c), INF),
            Win::Before(c) | Win::RTI(c) => MSet::iv(-INF, s.at(*c)),
            Win::R(a, b) => MSet::iv(s.at(*a), before(s.at(*b))),
            Win::RT(c) => MSet::iv(-INF, before(s.at(*c))),
            Win::Set(x) => x.model(s),
        }
    }
    pub fn is_set(&self) -> bool { matches!(self, Win::Set(_)) }
}
fn before(t: i64) -> i64 { if t.abs() == INF { t } else { t - 1 } }
fn pair() -> BoxedStrategy<(i16, i16)> {
    prop_oneof![6 => (coord(), 0i16..8).prop_map(|(a, l)| (a, a + l)), 1 => (coord(), coord())].boxed()
}
pub fn ivwin() -> BoxedStrategy<Win> {
    prop_oneof![
        8 => pair().prop_map(|(a, b)| Win::Iv(a, b)), 1 => Just(Win::Empty), 1 => Just(Win::All),
        2 => coord().prop_map(Win::After), 2 => coord().prop_map(Win::Before),
    ].boxed()
}
/// range ends, sometimes infinite
fn rcoord() -> BoxedStrategy<i16> { prop_oneof![14 => coord(), 1 => Just(PINF), 1 => Just(MINF)].boxed() }
fn rpair() -> BoxedStrategy<(i16, i16)> {
    prop_oneof![16 => pair(), 1 => coord().prop_map(|c| (MINF, c)), 1 => coord().prop_map(|c| (c, PINF)), 1 => prop::sample::select(vec![(MINF, PINF), (PINF, MINF), (PINF, PINF), (MINF, MINF)])].boxed()
}
pub fn convexwin() -> BoxedStrategy<Win> {
    Union::new_weighted(vec![
        (4, ivwin()), (2, coord().prop_map(Win::Pt).boxed()),
        (1, rpair().prop_map(|(a, b)| Win::R(a, b)).boxed()), (1, rcoord().prop_map(Win::RF).boxed()),
        (1, rpair().prop_map(|(a, b)| Win::RI(a, b)).boxed()), (1, rcoord().prop_map(Win::RT).boxed()),
        (1, rcoord().prop_map(Win::RTI).boxed()),
    ]).boxed()
}
pub fn win() -> BoxedStrategy<Win> {
    prop_oneof![5 => convexwin(), 4 => setc(5).prop_map(Win::Set)].boxed()
}

/// A set and a window built from its bounds, so that they touch, cross or miss by a tick anywhere
/// along the set, or differ by a single part
pub fn near(parts: BoxedStrategy<SetC>) -> BoxedStrategy<(Win, Win)> {
    (parts, 0u8..12, any::<u16>(), any::<u16>(), -2i16..3, -2i16..3, any::<bool>()).prop_map(|(a, kind, i, j, d, e, swap)| {
        let mut c = a.start;
        let bounds: Vec<i16> = a.steps.iter().flat_map(|&(gap, len)| { let l = c + gap.max(2) as i16; c = l + len as i16; [l, c] }).collect();
        let at = |i: u16| if bounds.is_empty() { a.start } else { bounds[i as usize % bounds.len()] };
        let (p, q) = (at(i) + d, at(j) + e);
        let step = i as usize % a.steps.len().max(1);
        let mut b = a.clone();
        let b = match kind {
            0..=2 => Win::Iv(p.min(q), p.max(q)),
            3 => Win::Pt(p),
            4 => if swap { Win::RF(p) } else { Win::After(p) },
            5 => if swap { Win::RTI(p) } else { Win::Before(p) },
            6 => if swap { Win::R(p.min(q), p.max(q)) } else { Win::RT(p) },
            7 => Win::RI(p.min(q), p.max(q)),
            8 => { if let Some(x) = b.steps.get_mut(step) { if swap { x.0 = x.0.saturating_add(d.unsigned_abs() as u8) } else { x.1 = x.1.saturating_add_signed(d as i8) } } Win::Set(b) }
            9 => { if !b.steps.is_empty() { if swap { b.steps.remove(step); } else { b.steps.truncate(step) } } Win::Set(b) }
            10 => { b.start += d; b.lo ^= swap; Win::Set(b) }
            // in the holes
            _ => {
                b.start = a.start + a.steps.first().map_or(0, |x| x.0.max(2) as i16 + x.1 as i16) - 1;
                b.steps = a.steps.windows(2).map(|w| (if b.start == i16::MIN { 0 } else { w[0].1.saturating_add(2) }, w[1].0.max(2) - 2)).collect();
                if let Some(x) = b.steps.first_mut() { x.0 = 2 }
                Win::Set(b)
            }
        };
        (Win::Set(a), b)
    }).boxed()
}

/// Calls `$f` with the real value of a convex operand, whatever its Rust type
#[macro_export]
macro_rules! on_convex {
    ($w:expr, $s:expr, $T:ty, |$x:ident| $body:expr, $other:expr) => {{
        let s = $s;
        let at = |c: i16| <$T as $crate::gen::P>::mk(s.at(c));
        match $w {
            $crate::gen::Win::Pt(c) => { let $x = at(*c); $body }
            $crate::gen::Win::Iv(a, b) => { let $x = chronologic::TimeInterval::<$T>::new(at(*a), at(*b)); $body }
            $crate::gen::Win::Empty => { let $x = chronologic::TimeInterval::<$T>::empty(); $body }
            $crate::gen::Win::All => { let $x = chronologic::TimeInterval::<$T>::all(); $body }
            $crate::gen::Win::After(c) => { let $x = chronologic::TimeInterval::<$T>::after(at(*c)); $body }
            $crate::gen::Win::Before(c) => { let $x = chronologic::TimeInterval::<$T>::before(at(*c)); $body }
            $crate::gen::Win::R(a, b) => { let $x = at(*a)..at(*b); $body }
            $crate::gen::Win::RF(c) => { let $x = at(*c)..; $body }
            $crate::gen::Win::RI(a, b) => { let $x = at(*a)..=at(*b); $body }
            $crate::gen::Win::RT(c) => { let $x = ..at(*c); $body }
            $crate::gen::Win::RTI(c) => { let $x = ..=at(*c); $body }
            $crate::gen::Win::Set(_) => $other,
        }
    }};
}
pub fn as_iv<T: P>(w: &Win, s: Scene) -> TimeInterval<T>
    where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    on_convex!(w, s, T, |x| x.into(), panic!("not convex"))
}
pub fn as_set<T: P>(w: &Win, s: Scene) -> TimeSet<T> {
    match w { Win::Set(_) => set(&w.model(s)), _ => { let m = w.model(s); set(&m) } }
}


// ---------------------------------------------------------------- iterators with any honest size hint

/// The items of a list, with a size hint that is true but more or less precise.
pub struct Hint<T> { it: std::vec::IntoIter<T>, how: u8 }
pub fn hint<T>(v: Vec<T>, how: u8) -> Hint<T> { Hint { it: v.into_iter(), how } }
impl<T> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.how % 10 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (n.min(1), None),
            4 => (0, Some(n)),
            5 => (n.min(1), Some(n + 3)),
            6 => (0, Some(n + 1)),
            7 => (n / 2, Some(usize::MAX)),
            8 => (n.min(2), Some(n.max(2))),
            _ => (n.saturating_sub(1), Some(n + 1)),
        }
    }
}
