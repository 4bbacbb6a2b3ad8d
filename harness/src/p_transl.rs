//! C10, C11: translation and scaling of durations and windows.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_time::{anytick, fintick};
use crate::{ensure, ensure_eq, Prop};
use chronologic::iter::*;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};
use std::ops::{Div, DivAssign, Mul, MulAssign};

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", legs: vec![
            boxed(Leg { name: "windows", rule: "a date/duration window and a duration window translated in every operator form; non-trivial: both have an extent or several parts", quick: 1_200_000, thorough: 8_000_000, strat: tr_strat, check: c10 }),
            boxed(Leg { name: "range-end", rule: "the same at the ends of the range, where a bound that overflows becomes infinite and a part that overflows entirely is rejected or dropped; non-trivial: a bound overflows in one direction without any part overflowing entirely", quick: 600_000, thorough: 6_000_000, strat: tre_strat, check: c10_end }),
            boxed(Leg { name: "steps", rule: "histories of up to 12 in-place translations of one window against its model; non-trivial: 4 or more steps", quick: 600_000, thorough: 4_000_000, strat: trs_strat, check: c10_steps }),
            boxed(Leg { name: "many-parts", rule: "windows as above with sets of up to 300 parts on either side; non-trivial: as above", quick: 6_000, thorough: 300_000, strat: trm_strat, check: c10 }),
        ]},
        Prop { id: "C11", legs: vec![
            boxed(Leg { name: "durations", rule: "durations of every scale (and infinite) with factors of all 14 numeric types; non-trivial: non-zero duration and a factor other than 0, 1, -1", quick: 8_000_000, thorough: 40_000_000, strat: sc_strat, check: c11_tv }),
            boxed(Leg { name: "windows", rule: "duration intervals and sets with factors of all 14 numeric types, all operator forms; non-trivial: 2 or more parts, or an interval with an extent", quick: 1_600_000, thorough: 10_000_000, strat: scw_strat, check: c11_win }),
            boxed(Leg { name: "many-parts", rule: "the same with sets of up to 300 parts; non-trivial: as above", quick: 12_000, thorough: 500_000, strat: scm_strat, check: c11_win }),
        ]},
    ]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct TrC { s: Scene, d: Scene, dates: bool, w: Win, by: Win, p: i64 }
fn offset_scene() -> BoxedStrategy<Scene> {
    prop_oneof![3 => Just(Scene { base: -30, unit: 3 }), 2 => Just(Scene::UNIT), 1 => Just(Scene { base: -200, unit: 30 }), 1 => Just(Scene { base: -10 << 30, unit: 1 << 30 }),
        1 => (-(1i64 << 56)..(1 << 56), 3i64..(1 << 30)).prop_map(|(base, unit)| Scene { base, unit })].boxed()
}
fn plain() -> BoxedStrategy<Win> { prop_oneof![2 => coord().prop_map(Win::Pt), 3 => ivwin(), 3 => setc(4).prop_map(Win::Set)].boxed() }
fn tr_strat() -> BoxedStrategy<TrC> {
    (small_scene(), offset_scene(), any::<bool>(), plain(), plain(), prop_oneof![3 => -40i64..40, 1 => -(1i64 << 50)..(1 << 50)]).prop_map(|(s, d, dates, w, by, p)| TrC { s, d, dates, w, by, p }).boxed()
}
fn tre_strat() -> BoxedStrategy<TrC> {
    let edge = || prop_oneof![3 => (0i64..30).prop_map(|k| INF - k), 3 => (0i64..30).prop_map(|k| -INF + k), 1 => (1u32..40, 0i64..60).prop_map(|(b, k)| INF - (k << b)), 1 => (1u32..40, 0i64..60).prop_map(|(b, k)| -INF + (k << b)), 1 => -(1i64 << 62)..(1 << 62)]
        .prop_flat_map(|base| prop_oneof![3 => Just(3i64), 1 => 3i64..(1 << 40)].prop_map(move |unit| Scene { base, unit }));
    (prop_oneof![4 => edge().boxed(), 1 => scene()], prop_oneof![2 => offset_scene(), 1 => edge().boxed()], any::<bool>(), plain(), plain()).prop_map(|(s, d, dates, w, by)| TrC { s, d, dates, w, by, p: 0 }).boxed()
}
fn c10_end(c: &TrC, o: &mut Obs) -> Verdict {
    let r = c10(c, o);
    let (m, k) = (c.w.model(c.s), c.by.model(c.d));
    let (sum, diff) = wants(&m, &k);
    o.nontrivial = (m.plus(&k).is_none() && !sum.full) || (m.minus(&k).is_none() && !diff.full);
    r
}
/// by-value and in-place translations of a window of either type
fn c10(c: &TrC, o: &mut Obs) -> Verdict {
    let (m, k) = (c.w.model(c.s), c.by.model(c.d));
    if c.dates { c10_t::<Timestamp>(&c.w, c.s, &m, &c.by, c.d, &k, o)? } else { c10_t::<TimeValue>(&c.w, c.s, &m, &c.by, c.d, &k, o)? }
    c10_cross(c, &m, &k, o)?;
    o.nontrivial = m.lower() < m.upper() && k.lower() < k.upper();
    o.label_if(m.0.iter().chain(&k.0).any(|p| p.0 == -INF || p.1 == INF), "unbounded");
    o.label_if(m.0.len() > 1 && k.0.len() > 1, "set by set");
    if let Some(sum) = m.plus(&k) { o.label_if(sum.0.len() < m.0.len().max(1) * k.0.len().max(1), "parts merge"); }
    Ok(())
}
/// The expected sum, and whether some pair of parts is entirely out of the range: such a translation
/// is rejected by a panic, or its parts are dropped, but nothing else
struct Want { m: MSet, full: bool }
fn wants(m: &MSet, k: &MSet) -> (Want, Want) {
    let (m1, full1) = m.plus_sat(k);
    let (m2, full2) = m.plus_sat(&k.neg());
    (Want { m: m1, full: full1 }, Want { m: m2, full: full2 })
}
macro_rules! es { ($e:expr, $w:expr, $what:expr) => {{
    let w: &Want = $w;
    if w.full { if let Ok(v) = panics(|| $e) { expect_set(&v, &w.m, $what)? } } else { expect_set(&$e, &w.m, $what)? }
}}}
macro_rules! ei { ($e:expr, $w:expr, $what:expr) => {{
    let w: &Want = $w;
    if w.full { if let Ok(v) = panics(|| $e) { expect_iv(&v, &w.m, $what)? } } else { expect_iv(&$e, &w.m, $what)? }
}}}
/// the single interval of a convex model, the empty one included
fn single<T: P>(w: &Win, m: &MSet) -> Option<TimeInterval<T>> {
    if m.0.len() == 1 { Some(iv(m.0[0].0, m.0[0].1)) } else if m.is_empty() && !w.is_set() { Some(TimeInterval::empty()) } else { None }
}
fn c10_t<T: P>(w: &Win, s: Scene, m: &MSet, by: &Win, d: Scene, k: &MSet, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>
{
    let (sum, diff) = wants(m, k);
    o.label_if(sum.full || diff.full, "a part out of range");
    o.label_if(!(sum.full && diff.full) && m.plus(k).is_none(), "a bound out of range");
    let x: TimeSet<T> = as_set(w, s);
    // by a set
    let ks: TimeSpans = set(k);
    es!(x.clone() + ks.clone(), &sum, "set + set");
    es!(x.clone() - ks.clone(), &diff, "set - set");
    es!({ let mut y = x.clone(); y += ks.clone(); y }, &sum, "set += set");
    es!({ let mut y = x.clone(); y -= ks.clone(); y }, &diff, "set -= set");
    o.steps += 4;
    if let Some(i) = single::<TimeValue>(by, k) {
        es!(x.clone() + i, &sum, "set + interval");
        es!(x.clone() - i, &diff, "set - interval");
        es!({ let mut y = x.clone(); y += i; y }, &sum, "set += interval");
        es!({ let mut y = x.clone(); y -= i; y }, &diff, "set -= interval");
        es!(x.iter().translation(&i).collect::<TimeSet<T>>(), &sum, "set iterator + interval");
        o.steps += 5;
        if let Some(v) = single::<T>(w, m) {
            ei!(v + i, &sum, "interval + interval");
            ei!(v - i, &diff, "interval - interval");
            ei!({ let mut y = v; y += i; y }, &sum, "interval += interval");
            ei!({ let mut y = v; y -= i; y }, &diff, "interval -= interval");
            o.steps += 4;
        }
    }
    if let Win::Pt(t) = by {
        let t = tv(d.at(*t));
        let rev = Want { m: diff.m.neg(), full: diff.full };
        es!(x.clone() + t, &sum, "set + duration");
        es!(x.clone() - t, &diff, "set - duration");
        es!({ let mut y = x.clone(); y += t; y }, &sum, "set += duration");
        es!({ let mut y = x.clone(); y -= t; y }, &diff, "set -= duration");
        es!(x.iter().translation(t).collect::<TimeSet<T>>(), &sum, "set iterator + duration");
        o.steps += 5;
        if let Some(v) = single::<T>(w, m) {
            ei!(v + t, &sum, "interval + duration");
            ei!(t + v, &sum, "duration + interval");
            ei!(v - t, &diff, "interval - duration");
            ei!(t - v, &rev, "duration - interval");
            ei!({ let mut y = v; y += t; y }, &sum, "interval += duration");
            ei!({ let mut y = v; y -= t; y }, &diff, "interval -= duration");
            o.steps += 6;
        }
    }
    Ok(())
}
/// forms mixing dates and durations
fn c10_cross(c: &TrC, m: &MSet, k: &MSet, o: &mut Obs) -> Verdict {
    let (sum, diff) = wants(m, k);
    let rev = Want { m: diff.m.neg(), full: diff.full }; // k - m
    let ks: TimeSpans = set(k);
    if let Win::Pt(p) = c.w {
        let p = ts(c.s.at(p));
        es!(p + ks.clone(), &sum, "date + spans");
        es!(ks.clone() + p, &sum, "spans + date");
        es!(p - ks.clone(), &diff, "date - spans");
        es!(ks.clone() - p, &rev, "spans - date");
        if let Some(i) = single::<TimeValue>(&c.by, k) {
            ei!(p + i, &sum, "date + span");
            ei!(i + p, &sum, "span + date");
            ei!(p - i, &diff, "date - span");
            ei!(i - p, &rev, "span - date");
        }
        o.steps += 8;
    }
    // date minus date
    if let (Some(a), Some(b)) = (single::<Timestamp>(&c.w, m), single::<Timestamp>(&c.by, k)) {
        ei!(a - b, &diff, "slot - slot");
        ei!(b - a, &rev, "slot - slot");
        if let Win::Pt(p) = c.by { let p = ts(c.d.at(p)); ei!(a - p, &diff, "slot - date"); ei!(p - a, &rev, "date - slot"); }
        if let Win::Pt(p) = c.w { let p = ts(c.s.at(p)); ei!(p - b, &diff, "date - slot"); ei!(b - p, &rev, "slot - date"); }
        o.steps += 3;
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct TrsC { dates: bool, w: Win, ops: Vec<(u8, i64, u8)> }
/// sets of many parts on either side
fn trm_strat() -> BoxedStrategy<TrC> {
    let many = || prop_oneof![3 => walk(-900..8, 41, 300), 1 => walk(-120..8, 12, 40)].prop_map(Win::Set);
    (prop_oneof![6 => tr_strat(), 1 => tre_strat()], prop_oneof![3 => (many(), plain()), 1 => (plain(), many()), 1 => (many(), walk(-100..8, 2, 20).prop_map(Win::Set))])
        .prop_map(|(mut c, (w, by))| { c.w = w; c.by = by; c }).boxed()
}
fn trs_strat() -> BoxedStrategy<TrsC> {
    (any::<bool>(), plain(), prop::collection::vec((0u8..6, prop_oneof![3 => -30i64..30, 1 => -(1i64 << 40)..(1 << 40)], prop_oneof![2 => Just(0u8), 1 => 0u8..6]), 1..12)).prop_map(|(dates, w, ops)| TrsC { dates, w, ops }).boxed()
}
fn c10_steps(c: &TrsC, o: &mut Obs) -> Verdict { if c.dates { c10_steps_t::<Timestamp>(c, o) } else { c10_steps_t::<TimeValue>(c, o) } }
fn c10_steps_t<T: P>(c: &TrsC, o: &mut Obs) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let mut m = c.w.model(Scene::UNIT);
    let mut x: TimeSet<T> = as_set(&c.w, Scene::UNIT);
    let mut i: Option<TimeInterval<T>> = (m.0.len() == 1).then(|| iv(m.0[0].0, m.0[0].1));
    for (n, &(op, t, d)) in c.ops.iter().enumerate() {
        let span: TimeSpan = iv(t, t + d as i64);
        let k = if op < 2 { MSet::pt(t) } else { MSet::iv(t, t + d as i64) };
        let Some(nm) = (if op % 2 == 0 { m.plus(&k) } else { m.minus(&k) }) else { break };
        match op { 0 => x += tv(t), 1 => x -= tv(t), 2 => x += span, 3 => x -= span, 4 => x += TimeSpans::from(span), _ => x -= TimeSpans::from(span) }
        if let Some(i) = &mut i { match op { 0 => *i += tv(t), 1 => *i -= tv(t), 2 | 4 => *i += span, _ => *i -= span } }
        m = nm;
        expect_set(&x, &m, &format!("step {n}"))?;
        if let Some(i) = &i { expect_iv(i, &m, &format!("interval step {n}"))? }
        o.step();
    }
    o.nontrivial = c.ops.len() >= 4 && !m.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- C11

/// a factor of one of the 14 numeric types; integers as (hi,lo), floats as bits
#[derive(Clone, Copy, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum Num { Int(u8, i64, u64), F32(u32), F64(u64) }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ScC { t: i64, n: Num }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ScwC { s: Scene, w: Win, n: Num }

fn int_factor() -> BoxedStrategy<Num> {
    (0u8..12, prop_oneof![
        5 => -12i128..13, 2 => (any::<i128>(), 0u32..127).prop_map(|(x, s)| x >> s),
        2 => prop_oneof![Just(i64::MAX as i128), Just(i64::MIN as i128), Just(i64::MAX as i128 + 1), Just(-(i64::MAX as i128)), Just(i64::MIN as i128 - 1), Just(u64::MAX as i128), Just(i128::MAX), Just(i128::MIN), Just(u64::MAX as i128 + 1)],
        1 => -300i128..300, 1 => (1u32..126).prop_map(|k| 1i128 << k), 1 => (1u32..126).prop_map(|k| -(1i128 << k)),
    ]).prop_map(|(ty, n)| Num::Int(ty, (n >> 64) as i64, n as u64)).boxed()
}
fn floats() -> BoxedStrategy<f64> {
    prop_oneof![3 => (-8i32..9, any::<bool>()).prop_map(|(k, n)| { let f = 2f64.powi(k); if n { -f } else { f } }),
        2 => -20f64..20., 1 => -2f64..2., 1 => (-40i32..41, 1f64..2., any::<bool>()).prop_map(|(k, m, n)| { let f = m * 2f64.powi(k); if n { -f } else { f } }),
        1 => Just(0f64), 1 => (-20i32..20).prop_map(|k| k as f64), 1 => (1i32..20).prop_map(|k| 1. / k as f64)].boxed()
}
fn num() -> BoxedStrategy<Num> {
    prop_oneof![4 => int_factor(), 1 => floats().prop_map(|f| Num::F64(f.to_bits())), 1 => floats().prop_map(|f| Num::F32((f as f32).to_bits()))].boxed()
}
fn sc_strat() -> BoxedStrategy<ScC> { (anytick(), num()).prop_map(|(t, n)| ScC { t, n }).boxed() }

/// exact integer factor: sign and magnitude in the type, or a float
#[derive(Clone, Copy, Debug)]
enum Fac { I { neg: bool, mag: u128 }, F { f: f64, rel: f64, exact_bits: u32 } }
impl Fac {
    fn zero(&self) -> bool { match self { Fac::I { mag, .. } => *mag == 0, Fac::F { f, .. } => *f == 0. } }
    fn neg(&self) -> bool { match self { Fac::I { neg, .. } => *neg, Fac::F { f, .. } => *f < 0. } }
    fn trivial(&self) -> bool { match self { Fac::I { mag, .. } => *mag <= 1, Fac::F { f, .. } => f.abs() == 1. || *f == 0. } }
}
/// Range of acceptable results
fn mul_model(t: i64, n: Fac) -> (i64, i64) {
    if n.zero() || t == 0 { return (0, 0) }
    let neg = (t < 0) != n.neg();
    if t.abs() == INF { let r = if neg { -INF } else { INF }; return (r, r) }
    match n {
        Fac::I { mag, .. } => {
            let v = (t.unsigned_abs() as u128).checked_mul(mag).map_or(INF, |v| v.min(INF as u128) as i64);
            let v = if neg { -v } else { v };
            (v, v)
        }
        Fac::F { f, rel, exact_bits } => {
            let p = t as f64 * f;
            // no rounding takes place when the exact product fits the mantissa
            let fits = |x: f64| if exact_bits == 23 { (x as f32) as f64 == x } else { true };
            if t.unsigned_abs() <= 1 << (exact_bits + 1) && f.mul_add(t as f64, -p) == 0. && fits(p) && p.abs() < 2f64.powi(62) && p.abs() > 2f64.powi(-60) { let e = p.trunc() as i64; return (e, e) }
            float_range(t, f, p, rel, exact_bits)
        }
    }
}
fn div_model(t: i64, n: Fac) -> (i64, i64) {
    let neg = (t < 0) != n.neg();
    if t == 0 { return (0, 0) }
    if t.abs() == INF { let r = if neg { -INF } else { INF }; return (r, r) }
    match n {
        Fac::I { mag, .. } => {
            let v = (t.unsigned_abs() as u128 / mag).min(INF as u128) as i64;
            let v = if neg { -v } else { v };
            (v, v)
        }
        Fac::F { f, rel, exact_bits } => float_range(t, f, t as f64 / f, rel * 2., exact_bits),
    }
}
fn float_range(t: i64, f: f64, v: f64, rel: f64, exact_bits: u32) -> (i64, i64) {
    // a power of two times an integer that fits the mantissa is exact
    let pow2 = f.abs().log2().fract() == 0. && f.abs().log2().abs() < 60.;
    if pow2 && t.unsigned_abs() < 1 << exact_bits && v.abs() < 2f64.powi(62) { let e = v.trunc() as i64; return (e, e) }
    // truncated towards zero, like the integer quotients
    let slack = v.abs() * rel;
    let to = |x: f64| -> i64 { if x >= 9.223372036854775e18 { INF } else if x <= -9.223372036854775e18 { -INF } else { x as i64 } };
    (to(v - slack), to(v + slack))
}
fn within(got: TimeValue, want: (i64, i64), what: &str) -> Verdict {
    let g = got.as_ticks();
    ensure!(want.0 <= g && g <= want.1, "{what}: got {g}, expected {}", if want.0 == want.1 { format!("{}", want.0) } else { format!("{}..{}", want.0, want.1) });
    Ok(())
}

macro_rules! with_num {
    ($n:expr, |$x:ident, $f:ident| $body:expr) => {{
        macro_rules! int { ($ty:ty, $n128:expr) => {{
            let $x = $n128 as $ty;
            #[allow(unused_comparisons)]
            let neg = $x < 0;
            let $f = Fac::I { neg, mag: if neg { ($x as i128).unsigned_abs() } else { $x as u128 } };
            $body
        }}}
        match $n {
            Num::Int(ty, hi, lo) => {
                let n = ((hi as i128) << 64) | lo as i128;
                match ty {
                    0 => int!(i8, n), 1 => int!(u8, n), 2 => int!(i16, n), 3 => int!(u16, n), 4 => int!(i32, n), 5 => int!(u32, n),
                    6 => int!(i64, n), 7 => int!(u64, n), 8 => int!(i128, n), 9 => int!(u128, n), 10 => int!(isize, n), _ => int!(usize, n),
                }
            }
            Num::F32(b) => { let $x = f32::from_bits(b); let $f = Fac::F { f: $x as f64, rel: 2f64.powi(-22), exact_bits: 23 }; $body }
            Num::F64(b) => { let $x = f64::from_bits(b); let $f = Fac::F { f: $x, rel: 2f64.powi(-50), exact_bits: 52 }; $body }
        }
    }};
}

trait Scale: Copy + Mul<TimeValue, Output = TimeValue> + Mul<TimeSpan, Output = TimeSpan> + Mul<TimeSpans, Output = TimeSpans> {}
impl<S: Copy + Mul<TimeValue, Output = TimeValue> + Mul<TimeSpan, Output = TimeSpan> + Mul<TimeSpans, Output = TimeSpans>> Scale for S {}

fn tv_forms<S: Scale>(t: i64, n: S, f: Fac, o: &mut Obs) -> Verdict
    where TimeValue: Mul<S, Output = TimeValue> + Div<S, Output = TimeValue> + MulAssign<S> + DivAssign<S>
{
    let x = tv(t);
    // the product of an infinite duration by zero is left open
    if !(f.zero() && t.abs() == INF) {
        let want = mul_model(t, f);
        within(x * n, want, "duration * factor")?;
        within(n * x, want, "factor * duration")?;
        ensure_eq!(n * x, x * n, "factor on the left");
        let mut y = x; y *= n;
        ensure_eq!(y, x * n, "duration *= factor");
        o.steps += 3;
        o.label_if(want.0.abs() == INF && t.abs() != INF, "saturated product");
    }
    if !f.zero() {
        let want = div_model(t, f);
        within(x / n, want, "duration / factor")?;
        let mut y = x; y /= n;
        ensure_eq!(y, x / n, "duration /= factor");
        o.steps += 2;
    }
    Ok(())
}
fn c11_tv(c: &ScC, o: &mut Obs) -> Verdict {
    with_num!(c.n, |n, f| {
        if let Fac::F { f, .. } = f { if !f.is_finite() { return Ok(()) } }
        o.nontrivial = c.t != 0 && !f.trivial();
        o.label_if(c.t.abs() == INF, "infinite duration");
        o.label_if(f.neg(), "negative factor");
        o.label_if(matches!(f, Fac::F { .. }), "float");
        o.label_if(matches!(f, Fac::I { mag, .. } if mag > INF as u128), "factor beyond i64");
        tv_forms(c.t, n, f, o)
    })
}
fn scw_strat() -> BoxedStrategy<ScwC> {
    let sc = prop_oneof![3 => Just(Scene { base: -30, unit: 3 }), 2 => Just(Scene::UNIT), 1 => Just(Scene { base: -300, unit: 30 }), 1 => Just(Scene { base: -6 << 30, unit: 1 << 30 }), 1 => Just(Scene { base: -100, unit: 11 }),
        1 => (-(1i64 << 40)..(1 << 40), 3i64..(1 << 30)).prop_map(|(base, unit)| Scene { base, unit }), 1 => scene()];
    (sc, prop_oneof![1 => coord().prop_map(Win::Pt), 2 => ivwin(), 4 => setc(6).prop_map(Win::Set)], prop_oneof![2 => num(), 1 => (0u8..12, -12i128..13).prop_map(|(ty, n)| Num::Int(ty, (n >> 64) as i64, n as u64)), 1 => floats().prop_map(|f| Num::F64(f.to_bits())), 1 => floats().prop_map(|f| Num::F32((f as f32).to_bits()))])
        .prop_map(|(s, w, n)| ScwC { s, w, n }).boxed()
}
/// sets of many parts
fn scm_strat() -> BoxedStrategy<ScwC> {
    (scw_strat(), prop_oneof![3 => walk(-900..8, 41, 300), 1 => walk(-120..8, 12, 40)]).prop_map(|(mut c, w)| { c.w = Win::Set(w); c }).boxed()
}
fn win_forms<S: Scale>(m: &MSet, n: S, f: Fac, o: &mut Obs) -> Verdict
    where TimeValue: Mul<S, Output = TimeValue> + Div<S, Output = TimeValue>,
          TimeSpan: Mul<S, Output = TimeSpan> + Div<S, Output = TimeSpan> + MulAssign<S> + DivAssign<S>,
          TimeSpans: Mul<S, Output = TimeSpans> + Div<S, Output = TimeSpans> + MulAssign<S> + DivAssign<S>
{
    let x: TimeSpans = set(m);
    for div in [false, true] {
        if div && f.zero() { continue }
        // bounds follow the duration operator, which has its own oracle (mul_model / div_model)
        let mut bad = None;
        let mut over = false;
        let one = |t: i64| -> i64 {
            if f.zero() { return 0 }
            let want = if div { div_model(t, f) } else { mul_model(t, f) };
            if want.0 == want.1 { want.0 } else { (if div { tv(t) / n } else { tv(t) * n }).as_ticks() }
        };
        for p in &m.0 { for t in [p.0, p.1] {
            let r = one(t);
            over |= t.abs() != INF && r.abs() == INF;
            let want = if f.zero() { (0, 0) } else if div { div_model(t, f) } else { mul_model(t, f) };
            if r < want.0 || r > want.1 { bad = Some((t, r, want)) }
        }}
        if let Some((t, r, w)) = bad { return Err(format!("bound {t} scales to {r}, expected {w:?}")) }
        // a bound that overflows becomes infinite; a part that overflows entirely is rejected
        let full = m.0.iter().any(|p| { let (l, u) = if f.neg() { (one(p.1), one(p.0)) } else { (one(p.0), one(p.1)) }; l == INF || u == -INF });
        let want = Want { m: m.map(f.neg(), one), full };
        o.label_if(full, "a part out of range");
        o.label_if(over && !full, "a bound out of range");
        let (name, inplace) = if div { ("set / factor", "set /= factor") } else { ("set * factor", "set *= factor") };
        es!(if div { x.clone() / n } else { x.clone() * n }, &want, name);
        es!({ let mut y = x.clone(); if div { y /= n } else { y *= n } y }, &want, inplace);
        if !div { es!(n * x.clone(), &want, "factor * set"); }
        o.steps += 3;
        if m.0.len() <= 1 {
            let i: TimeSpan = m.0.first().map_or(TimeSpan::empty(), |p| iv(p.0, p.1));
            ei!(if div { i / n } else { i * n }, &want, if div { "interval / factor" } else { "interval * factor" });
            ei!({ let mut y = i; if div { y /= n } else { y *= n } y }, &want, if div { "interval /= factor" } else { "interval *= factor" });
            if !div { ei!(n * i, &want, "factor * interval"); }
            o.steps += 3;
        }
        let want = want.m;
        o.label_if(want.0.len() < m.0.len(), "parts merge");
    }
    Ok(())
}
fn c11_win(c: &ScwC, o: &mut Obs) -> Verdict {
    let m = c.w.model(c.s);
    with_num!(c.n, |n, f| {
        if let Fac::F { f, .. } = f { if !f.is_finite() || (f != 0. && !(1. / f).is_finite()) { return Ok(()) } }
        o.nontrivial = m.0.len() >= 2 || m.lower() < m.upper();
        o.label_if(f.neg(), "negative factor");
        o.label_if(matches!(f, Fac::F { .. }), "float");
        o.label_if(m.0.iter().any(|p| p.0 == -INF || p.1 == INF), "unbounded");
        win_forms(&m, n, f, o)
    })
}
#[allow(dead_code)]
fn unused() { let _ = fintick(); }
