//! C09, C12, C13, C14: time point arithmetic, rounding, units, conversions.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq, Prop};
use chrono::{DateTime, FixedOffset, NaiveDateTime, TimeZone, Utc};
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }
fn exbox<C: CaseT>(l: ExLeg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", legs: vec![
            boxed(Leg { name: "pairs", rule: "pairs of ticks over the whole range, dense at zero, at the ends and at the infinities; non-trivial: both finite and non-zero, or saturation, or an infinite operand", quick: 6_000_000, thorough: 60_000_000, strat: || (anytick(), anytick()).prop_map(|(a, b)| PairT { a, b }).boxed(), check: c09_pair }),
            boxed(Leg { name: "sums", rule: "sequences of up to 12 durations summed, and running sums of a date; non-trivial: 3 or more terms of both signs", quick: 600_000, thorough: 8_000_000, strat: || prop::collection::vec(anytick(), 0..12).prop_map(|v| SumC { v }).boxed(), check: c09_sum }),
            exbox(ExLeg { name: "corners", rule: "all pairs of the corner values; non-trivial: every pair", cases: corner_pairs, check: c09_pair }),
        ]},
        Prop { id: "C12", legs: vec![
            exbox(ExLeg { name: "small-scope", rule: "every value in [-n,n] with every period in [1,n]; non-trivial: the value is not a multiple, or is negative", cases: round_small, check: c12_round }),
            boxed(Leg { name: "round", rule: "values and periods at every scale, biased to multiples and their neighbours; non-trivial: value not a multiple of the period", quick: 4_000_000, thorough: 40_000_000, strat: round_strat, check: c12_round }),
            boxed(Leg { name: "coarsen", rule: "durations of every scale and sign, biased to multiples of each unit and their neighbours; non-trivial: non-zero", quick: 2_000_000, thorough: 20_000_000, strat: coarse_strat, check: c12_coarsen }),
        ]},
        Prop { id: "C13", legs: vec![
            boxed(Leg { name: "units", rule: "counts of every integer type and unit, biased to the saturation limits; non-trivial: non-zero count", quick: 4_000_000, thorough: 40_000_000, strat: unit_strat, check: c13_units }),
            boxed(Leg { name: "subsec", rule: "finite ticks of every scale; non-trivial: a fractional part", quick: 4_000_000, thorough: 40_000_000, strat: || prop_oneof![1 => fintick(), 2 => (-(INF >> 31)..INF >> 31, 0u32..33, prop_oneof![1 => 0i64..SEC, 2 => (0i64..1_000_000_000, -1i64..2).prop_map(|(ns, d)| (ns * SEC / 1_000_000_000 + d).clamp(0, SEC - 1)), 1 => (0i64..1_000, -1i64..2).prop_map(|(ms, d)| (ms * SEC / 1_000 + d).clamp(0, SEC - 1))]).prop_map(|(s, k, f)| (s >> k) * SEC + f)].prop_map(|a| PairT { a, b: 0 }).boxed(), check: c13_subsec }),
        ]},
        Prop { id: "C14", legs: vec![
            boxed(Leg { name: "to-others", rule: "pairs of finite ticks converted to chrono and std and back; non-trivial: a fractional part", quick: 2_000_000, thorough: 20_000_000, strat: || near_pair(), check: c14_to }),
            boxed(Leg { name: "from-others", rule: "pairs of chrono/std durations and date-times of any zone, inside and (durations) outside the range; non-trivial: a sub-second part", quick: 2_000_000, thorough: 20_000_000, strat: other_strat, check: c14_from }),
        ]},
    ]
}

// ---------------------------------------------------------------- ticks

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PairT { pub a: i64, pub b: i64 }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct SumC { v: Vec<i64> }

const SEC: i64 = 1 << 30;

/// finite ticks of every magnitude
pub fn fintick() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => -20i64..21,
        2 => -5000i64..5000,
        3 => (0u32..63, any::<i64>()).prop_map(|(sh, x)| (x >> sh).clamp(-INF + 1, INF - 1)),
        2 => (-200i64..200, -3i64..4).prop_map(|(s, d)| s * SEC + d),
        1 => (0i64..40).prop_map(|k| INF - 1 - k),
        1 => (0i64..40).prop_map(|k| -INF + 1 + k),
        1 => (any::<bool>(), 0u32..62, -2i64..3).prop_map(|(n, k, d)| { let x = (1i64 << k) + d; if n { -x } else { x } }),
    ].boxed()
}
pub fn anytick() -> BoxedStrategy<i64> {
    prop_oneof![10 => fintick(), 1 => Just(INF), 1 => Just(-INF)].boxed()
}

fn corner_pairs(_: bool, shard: usize, n: usize, sink: &mut dyn FnMut(PairT) -> bool) {
    let mut v = vec![0, 1, -1, 2, -2, INF, -INF, INF - 1, -INF + 1, INF - 2, -INF + 2, INF / 2, -INF / 2, INF / 2 + 1, -INF / 2 - 1, SEC, -SEC, SEC - 1, SEC + 1];
    for k in 0..63 { v.push(1 << k); v.push(-(1 << k)); }
    for (i, &a) in v.iter().enumerate() { if i % n == shard { for &b in &v { if !sink(PairT { a, b }) { return } } } }
}

/// None: adding opposite infinities
fn madd(a: i64, b: i64) -> Option<i64> {
    match (a.abs() == INF, b.abs() == INF) {
        (true, true) if a != b => None,
        (true, _) => Some(a),
        (_, true) => Some(b),
        _ => Some(sat(a as i128 + b as i128)),
    }
}
fn same(got: Result<i64, String>, want: Option<i64>, what: &str) -> Verdict {
    match (got, want) {
        (Ok(g), Some(w)) => { ensure_eq!(g, w, "{what}"); }
        (Ok(g), None) => return Err(format!("{what}: gives {g} instead of panicking")),
        (Err(e), Some(w)) => return Err(format!("{what}: {e}, expected {w}")),
        (Err(_), None) => (),
    }
    Ok(())
}
fn c09_pair(c: &PairT, o: &mut Obs) -> Verdict {
    let (a, b) = (c.a, c.b);
    let (x, y) = (tv(a), tv(b));
    let (p, q) = (ts(a), ts(b));
    ensure_eq!(x.as_ticks(), a, "from_ticks/as_ticks");
    // SAFETY: the ticks are in the range
    ensure_eq!(unsafe { TimeValue::from_ticks_unchecked(a) }, x, "from_ticks_unchecked");
    ensure_eq!(p.since_origin().as_ticks(), a, "from_origin/since_origin");
    let sum = madd(a, b);
    let diff = madd(a, -b);
    same(panics(|| (x + y).as_ticks()), sum, "duration + duration")?;
    same(panics(|| { let mut z = x; z += y; z.as_ticks() }), sum, "duration += duration")?;
    same(panics(|| (x - y).as_ticks()), diff, "duration - duration")?;
    same(panics(|| { let mut z = x; z -= y; z.as_ticks() }), diff, "duration -= duration")?;
    same(panics(|| (p + y).ticks()), sum, "date + duration")?;
    same(panics(|| { let mut z = p; z += y; z.ticks() }), sum, "date += duration")?;
    same(panics(|| (p - y).ticks()), diff, "date - duration")?;
    same(panics(|| { let mut z = p; z -= y; z.ticks() }), diff, "date -= duration")?;
    same(panics(|| (p - q).as_ticks()), diff, "date - date")?;
    same(panics(|| (x + q).ticks()), sum, "duration + date")?;
    same(panics(|| (x - q).ticks()), diff, "duration - date")?;
    o.steps += 11;
    // ordering follows ticks
    ensure_eq!(x.cmp(&y), a.cmp(&b), "duration order");
    ensure_eq!(p.cmp(&q), a.cmp(&b), "date order");
    order_laws(x, y, a, b)?;
    order_laws(p, q, a, b)?;
    ensure_eq!(x == y, a == b, "duration equality");
    ensure_eq!(p == q, a == b, "date equality");
    if a == b { ensure_eq!(hash_of(&x), hash_of(&y), "hash"); ensure_eq!(hash_of(&p), hash_of(&q), "hash"); }
    for (k, t) in [(a, x), (b, y)] {
        point_laws(k, t)?;
        point_laws(k, Timestamp::from_origin(t))?;
        ensure_eq!(t.is_zero(), k == 0, "is_zero");
        ensure_eq!(t.is_strictly_positive(), k > 0, "is_strictly_positive");
        ensure_eq!(t.is_strictly_negative(), k < 0, "is_strictly_negative");
        ensure_eq!(t.is_positive(), k >= 0, "is_positive");
        ensure_eq!(t.is_negative(), k <= 0, "is_negative");
    }
    o.nontrivial = (a != 0 && b != 0) || a.abs() == INF || b.abs() == INF;
    o.label_if(sum.is_none() || diff.is_none(), "opposite infinities");
    o.label_if(a.abs() != INF && b.abs() != INF && sum.map_or(false, |s| s.abs() == INF), "saturation");
    o.label_if((a.abs() == INF) != (b.abs() == INF), "one infinite operand");
    Ok(())
}
#[allow(clippy::neg_cmp_op_on_partial_ord)]
fn order_laws<T: P>(x: T, y: T, a: i64, b: i64) -> Verdict {
    ensure_eq!((x < y, x <= y, x > y, x >= y, x != y), (a < b, a <= b, a > b, a >= b, a != b), "comparisons of {a} and {b}");
    ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "partial_cmp");
    ensure_eq!((x.max(y).ticks(), x.min(y).ticks()), (a.max(b), a.min(b)), "max and min");
    let c = (a ^ b).max(-INF);
    let z = T::mk(c);
    ensure_eq!(z.clamp(x.min(y), x.max(y)).ticks(), c.clamp(a.min(b), a.max(b)), "clamp");
    Ok(())
}
fn point_laws<T: P>(k: i64, t: T) -> Verdict {
    ensure_eq!((-t).ticks(), -k, "negation of {k}");
    ensure_eq!(t.is_finite(), k.abs() != INF, "is_finite {k}");
    ensure_eq!(t.is_future_infinite(), k == INF, "is_future_infinite {k}");
    ensure_eq!(t.is_past_infinite(), k == -INF, "is_past_infinite {k}");
    ensure_eq!(t.just_after().ticks(), if k.abs() == INF { k } else { k + 1 }, "just_after {k}");
    ensure_eq!(t.just_before().ticks(), if k.abs() == INF { k } else { k - 1 }, "just_before {k}");
    ensure_eq!(T::INFINITE.ticks(), INF, "INFINITE");
    Ok(())
}
fn c09_sum(c: &SumC, o: &mut Obs) -> Verdict {
    let want = c.v.iter().try_fold(0i64, |s, &x| madd(s, x));
    same(panics(|| c.v.iter().map(|&x| tv(x)).sum::<TimeValue>().as_ticks()), want, "sum")?;
    same(panics(|| { let mut d = Timestamp::default(); for &x in &c.v { d += tv(x) } d.ticks() }), want, "running date")?;
    // exact and order independent whenever no partial sum can leave the range
    let tot: i128 = c.v.iter().map(|&x| (x as i128).abs()).sum();
    if tot < INF as i128 {
        let e: i128 = c.v.iter().map(|&x| x as i128).sum();
        let r: TimeValue = c.v.iter().rev().map(|&x| tv(x)).sum();
        ensure_eq!(r.as_ticks() as i128, e, "sum in reverse order");
    }
    o.nontrivial = c.v.len() >= 3 && c.v.iter().any(|&x| x > 0) && c.v.iter().any(|&x| x < 0);
    o.label_if(want.is_none(), "opposite infinities");
    Ok(())
}

// ---------------------------------------------------------------- C12

fn round_small(thorough: bool, shard: usize, n: usize, sink: &mut dyn FnMut(PairT) -> bool) {
    let m = if thorough { 400 } else { 120 };
    for p in 1..=m { if p as usize % n == shard { for t in -m * 2..=m * 2 { if !sink(PairT { a: t, b: p }) { return } } } }
}
fn round_strat() -> BoxedStrategy<PairT> {
    let period = || prop_oneof![3 => 1i64..100, 2 => (1i64..4000).prop_map(|k| k * SEC), 2 => (0u32..62, any::<i64>()).prop_map(|(s, x)| ((x >> s).saturating_abs()).clamp(1, INF - 1)), 1 => Just(INF - 1)];
    prop_oneof![
        2 => (anytick(), period()).prop_map(|(a, b)| PairT { a, b }),
        3 => (period(), -50i64..50, -2i64..3).prop_map(|(b, k, d)| PairT { a: (b as i128 * k as i128 + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64, b }),
    ].boxed()
}
fn c12_round(c: &PairT, o: &mut Obs) -> Verdict {
    let (t, p) = (c.a, c.b);
    let floor = t as i128 - (t as i128).rem_euclid(p as i128);
    let ceil = if floor == t as i128 { floor } else { floor + p as i128 };
    // infinities are their own rounding, and a multiple beyond the range is the infinity of its side
    let (floor, ceil) = if t.abs() == INF { (t, t) } else { (sat(floor), sat(ceil)) };
    ensure_eq!(tv(t).floor(tv(p)).as_ticks(), floor, "floor({t},{p})");
    ensure_eq!(ts(t).floor(tv(p)).ticks(), floor, "date floor({t},{p})");
    ensure_eq!(tv(t).ceil(tv(p)).as_ticks(), ceil, "ceil({t},{p})");
    ensure_eq!(ts(t).ceil(tv(p)).ticks(), ceil, "date ceil({t},{p})");
    o.label_if(floor == -INF || ceil == INF, "infinite");
    o.nontrivial = floor != t || t < 0;
    o.label_if(t < 0, "negative");
    o.label_if(floor == t, "exact multiple");
    Ok(())
}
const UNIT_SECS: [i64; 7] = [31_556_952, 2_629_746, 604_800, 86_400, 3_600, 60, 1];
fn unit_ticks() -> [i64; 10] {
    let mut u = [0; 10];
    for (k, s) in UNIT_SECS.iter().enumerate() { u[k] = s * SEC }
    u[7] = SEC / 1000; u[8] = SEC / 1_000_000; u[9] = SEC / 1_000_000_000;
    u
}
fn coarse_strat() -> BoxedStrategy<PairT> {
    prop_oneof![
        1 => anytick().prop_map(|a| PairT { a, b: 0 }),
        // a few of each unit, next to a multiple of any of them
        2 => (prop::collection::vec((0usize..10, -60i64..61), 1..5), -2i64..3).prop_map(|(v, d)| PairT { a: (v.iter().map(|&(u, k)| unit_ticks()[u] as i128 * k as i128).sum::<i128>() + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64, b: 0 }),
        2 => (0usize..10, prop_oneof![1 => -400i64..400, 2 => (any::<i64>(), 0u32..63).prop_map(|(x, s)| x >> s)], -2i64..3).prop_map(|(u, k, d)| PairT { a: (unit_ticks()[u] as i128 * k as i128 + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64, b: 0 }),
    ].boxed()
}
fn c12_coarsen(c: &PairT, o: &mut Obs) -> Verdict {
    let t = tv(c.a);
    let got = [t.years(), t.months(), t.weeks(), t.days(), t.hours(), t.mins(), t.secs(), t.millis(), t.micros(), t.nanos()];
    for (k, (g, u)) in got.iter().zip(unit_ticks()).enumerate() {
        let names = ["years", "months", "weeks", "days", "hours", "mins", "secs", "millis", "micros", "nanos"];
        ensure_eq!(g.as_ticks(), if c.a.abs() == INF { c.a } else { c.a / u * u }, "{} ticks coarsened to {}", c.a, names[k]);
        o.step();
    }
    ensure_eq!(IntoTimeValue::ticks(t).as_ticks(), c.a, "ticks");
    o.nontrivial = c.a != 0;
    o.label_if(c.a < 0, "negative");
    Ok(())
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct UnitC { ty: u8, unit: u8, hi: i64, lo: u64 }
const NTY: u8 = 12;
fn unit_strat() -> BoxedStrategy<UnitC> {
    let limit = |unit: u8| -> i128 {
        match unit { 0..=6 => (INF as i128) / (SEC as i128 * UNIT_SECS[unit as usize] as i128), 7 => 8_589_934_592_000, 8 => 8_589_934_592_000_000, 9 => 8_589_934_592_000_000_000, _ => INF as i128 }
    };
    (0u8..NTY, 0u8..11).prop_flat_map(move |(ty, unit)| {
        let l = limit(unit);
        prop_oneof![
            3 => -300i128..300,
            // of every magnitude within the range of the unit
            3 => (any::<i64>(), 0u32..40).prop_map(move |(x, s)| (x as i128 * l >> 63) >> s),
            2 => (any::<bool>(), -3i128..4).prop_map(move |(n, d)| if n { -l + d } else { l + d }),
            2 => (any::<i128>(), 0u32..127).prop_map(|(x, s)| x >> s),
            1 => prop_oneof![Just(i64::MAX as i128), Just(i64::MIN as i128), Just(i64::MAX as i128 + 1), Just(i64::MIN as i128 - 1), Just(u64::MAX as i128), Just(i128::MAX), Just(i128::MIN), Just(i32::MIN as i128), Just(u32::MAX as i128), Just(i32::MAX as i128 + 1)],
            1 => (i64::MAX - 5..=i64::MAX).prop_map(|x| x as i128), 1 => (i64::MIN..i64::MIN + 5).prop_map(|x| x as i128),
        ].prop_map(move |n| UnitC { ty, unit, hi: (n >> 64) as i64, lo: n as u64 })
    }).boxed()
}
fn conv<N: IntoTimeValue>(n: N, unit: u8) -> TimeValue {
    match unit { 0 => n.years(), 1 => n.months(), 2 => n.weeks(), 3 => n.days(), 4 => n.hours(), 5 => n.mins(), 6 => n.secs(), 7 => n.millis(), 8 => n.micros(), 9 => n.nanos(), _ => n.ticks() }
}
fn direct(n: i64, unit: u8) -> TimeValue {
    match unit { 0 => TimeValue::from_years(n), 1 => TimeValue::from_months(n), 2 => TimeValue::from_weeks(n), 3 => TimeValue::from_days(n), 4 => TimeValue::from_hours(n), 5 => TimeValue::from_mins(n),
        6 => TimeValue::from_secs(n), 7 => TimeValue::from_millis(n), 8 => TimeValue::from_micros(n), 9 => TimeValue::from_nanos(n), _ => TimeValue::from_ticks(n) }
}
/// ticks of n units: exact, truncated toward zero, saturated; (neg, magnitude)
fn unit_model(neg: bool, mag: u128, unit: u8) -> i64 {
    let v = match unit {
        0..=6 => mag.checked_mul(UNIT_SECS[unit as usize] as u128 * SEC as u128),
        7 => mag.checked_mul(SEC as u128).map(|x| x / 1_000),
        8 => mag.checked_mul(SEC as u128).map(|x| x / 1_000_000),
        9 => mag.checked_mul(SEC as u128).map(|x| x / 1_000_000_000),
        _ => Some(mag),
    };
    let v = v.map_or(INF, |v| v.min(INF as u128) as i64);
    if neg { -v } else { v }
}
fn c13_units(c: &UnitC, o: &mut Obs) -> Verdict {
    let n = ((c.hi as i128) << 64) | c.lo as i128;
    // the count in the type: truncated to it
    let (neg, mag, got) = match c.ty {
        0 => { let x = n as i8; (x < 0, (x as i128).unsigned_abs(), conv(x, c.unit)) }
        1 => { let x = n as u8; (false, x as u128, conv(x, c.unit)) }
        2 => { let x = n as i16; (x < 0, (x as i128).unsigned_abs(), conv(x, c.unit)) }
        3 => { let x = n as u16; (false, x as u128, conv(x, c.unit)) }
        4 => { let x = n as i32; (x < 0, (x as i128).unsigned_abs(), conv(x, c.unit)) }
        5 => { let x = n as u32; (false, x as u128, conv(x, c.unit)) }
        6 => { let x = n.clamp(i64::MIN as i128, i64::MAX as i128) as i64; ensure_eq!(conv(x, c.unit), direct(x, c.unit), "trait and direct constructors"); (x < 0, (x as i128).unsigned_abs(), conv(x, c.unit)) }
        7 => { let x = n as u64; (false, x as u128, conv(x, c.unit)) }
        8 => (n < 0, n.unsigned_abs(), conv(n, c.unit)),
        9 => { let x = n as u128; (false, x, conv(x, c.unit)) }
        10 => { let x = n.clamp(isize::MIN as i128, isize::MAX as i128) as isize; (x < 0, (x as i128).unsigned_abs(), conv(x, c.unit)) }
        _ => { let x = n as usize; (false, x as u128, conv(x, c.unit)) }
    };
    let want = unit_model(neg, mag, c.unit);
    ensure_eq!(got.as_ticks(), want, "type {} unit {} count {}{}", c.ty, c.unit, if neg { "-" } else { "" }, mag);
    o.nontrivial = mag != 0;
    o.label_if(want.abs() == INF, "saturated");
    o.label_if(neg, "negative");
    Ok(())
}
fn c13_subsec(c: &PairT, o: &mut Obs) -> Verdict {
    let t = tv(c.a);
    let s = t.as_secs();
    ensure_eq!(s, c.a.div_euclid(SEC), "as_secs of {}", c.a);
    let ns = t.subsec_nanos();
    ensure!((0..1_000_000_000).contains(&ns), "subsec_nanos of {} is {ns}", c.a);
    // |ns - frac*1e9/2^30| <= 1
    let frac = c.a.rem_euclid(SEC) as i128;
    near(ns as i128, frac as i64, "subsec_nanos")?;
    let ms = t.subsec_millis();
    ensure!((0..1000).contains(&ms), "subsec_millis of {} is {ms}", c.a);
    ensure_eq!(ms, ns / 1_000_000, "subsec_millis of {}", c.a);
    let us = t.subsec_micros();
    ensure!((0..1_000_000).contains(&us), "subsec_micros of {} is {us}", c.a);
    ensure_eq!(us, ns / 1000, "subsec_micros of {}", c.a);
    // rebuilding from the parts
    if s.abs() < (INF >> 30) {
        let back = TimeValue::from_secs(s) + TimeValue::from_nanos(ns as i64);
        ensure!((back.as_ticks() - c.a).abs() <= 3, "{} reads {s}s {ns}ns which is {} ticks", c.a, back.as_ticks());
    }
    o.nontrivial = frac != 0;
    o.label_if(c.a < 0, "negative");
    Ok(())
}

// ---------------------------------------------------------------- C14

fn near_pair() -> BoxedStrategy<PairT> {
    prop_oneof![1 => (fintick(), fintick()).prop_map(|(a, b)| PairT { a, b }),
        // a whole number of nanoseconds (and of ticks)
        1 => (0u32..42, any::<i64>(), -1i64..2).prop_map(|(s, x, d)| { let a = ((x >> 21) >> s) << 21; PairT { a: a.clamp(-INF + 1, INF - 1), b: (a + d).clamp(-INF + 1, INF - 1) } }),
        2 => (fintick(), -4i64..5).prop_map(|(a, d)| PairT { a, b: (a as i128 + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64 })].boxed()
}
fn ns_of(t: i64) -> i128 { (t as i128 * 1_000_000_000).div_euclid(SEC as i128) }
fn cns(d: chrono::Duration) -> i128 { d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128 }
fn close(got: i128, want: i128, what: &str) -> Verdict { ensure!((got - want).abs() <= 2, "{what}: {got}ns for {want}ns"); Ok(()) }
/// Nanoseconds read from ticks: less than one nanosecond apart, and exact where the ticks are a whole number of nanoseconds
fn near(ns: i128, ticks: i64, what: &str) -> Verdict {
    let gap = (ns * SEC as i128 - ticks as i128 * 1_000_000_000).abs();
    ensure!(gap < SEC as i128, "{what}: {ticks} ticks for {ns}ns");
    // 5^9 ns are 2^21 ticks
    if ticks % (1 << 21) == 0 { ensure!(gap == 0, "{what}: {ticks} ticks for {ns}ns, which should be exact"); }
    Ok(())
}
fn near_from(ns: i128, ticks: i64, what: &str) -> Verdict {
    let gap = (ns * SEC as i128 - ticks as i128 * 1_000_000_000).abs();
    // less than a tick
    ensure!(gap < 1_000_000_000, "{what}: {ticks} ticks for {ns}ns");
    if ns % 1_953_125 == 0 { ensure!(gap == 0, "{what}: {ticks} ticks for {ns}ns, which should be exact"); }
    Ok(())
}
fn dns<Tz: TimeZone>(d: &DateTime<Tz>) -> i128 { d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128 }
fn c14_to(c: &PairT, o: &mut Obs) -> Verdict {
    let (a, b) = (tv(c.a), tv(c.b));
    let (ca, cb): (chrono::Duration, chrono::Duration) = (a.into(), b.to_duration());
    near(cns(ca), c.a, "to chrono duration")?;
    ensure!(c.a > c.b || ca <= cb, "order lost: {ca:?} {cb:?}");
    close(ns_of(TimeValue::from(ca).as_ticks()), ns_of(c.a), "chrono round trip")?;
    if c.a >= 0 {
        let sa: std::time::Duration = a.into();
        near(sa.as_nanos() as i128, c.a, "to std duration")?;
        close(ns_of(TimeValue::from(sa).as_ticks()), ns_of(c.a), "std round trip")?;
        if c.b >= c.a { ensure!(sa <= std::time::Duration::from(b), "order lost"); }
    } else {
        ensure!(panics(|| std::time::Duration::from(a)).is_err(), "negative std duration");
    }
    let (ta, tb) = (ts(c.a), ts(c.b));
    let (da, db) = (ta.to_datetime(), tb.to_datetime());
    near(dns(&da), c.a, "to DateTime<Utc>")?;
    ensure!(c.a > c.b || da <= db, "order of dates lost");
    let na: NaiveDateTime = ta.into();
    near(dns(&na.and_utc()), c.a, "to NaiveDateTime")?;
    close(ns_of(Timestamp::from(da).ticks()), ns_of(c.a), "DateTime round trip")?;
    close(ns_of(Timestamp::from(na).ticks()), ns_of(c.a), "NaiveDateTime round trip")?;
    o.steps += 8;
    o.nontrivial = c.a & (SEC - 1) != 0;
    o.label_if(c.a < 0, "before the epoch");
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct OtherC { secs: i64, ns: u32, dsecs: i64, dns: u32, zone: i32 }
const MAXS: i64 = INF >> 30; // 8_589_934_591
fn other_strat() -> BoxedStrategy<OtherC> {
    let secs = prop_oneof![
        3 => -100i64..100, 3 => -MAXS..MAXS, 1 => (-4i64..5).prop_map(|d| MAXS + d), 1 => (-4i64..5).prop_map(|d| -MAXS + d),
        1 => (-4i64..5).prop_map(|d| i32::MAX as i64 + d), 1 => (-4i64..5).prop_map(|d| i32::MIN as i64 + d),
        1 => (-4i64..5).prop_map(|d| u32::MAX as i64 + d),
        1 => (-4i64..5).prop_map(|d| 9_223_372_036 + d), 1 => (-4i64..5).prop_map(|d| -9_223_372_036 + d),
        1 => -(i64::MAX / 1000)..(i64::MAX / 1000), 1 => any::<i64>()];
    (secs, prop_oneof![2 => 0u32..1_000_000_000, 1 => Just(0), 1 => Just(999_999_999), 1 => 0u32..5, 1 => (0u32..512).prop_map(|k| k * 1_953_125), 1 => (0u32..1000).prop_map(|k| k * 1_000_000)],
     prop_oneof![2 => Just(0i64), 1 => -2i64..3, 1 => -100_000i64..100_000], 0u32..1_000_000_000, -86_000i32..86_000)
        .prop_map(|(secs, ns, dsecs, dns, zone)| OtherC { secs, ns, dsecs, dns, zone }).boxed()
}
// the difference of two dates, from ticks
fn b_sub(a: Timestamp, b: Timestamp) -> TimeValue {
    if !b.is_finite() { return if b.ticks() > 0 { tv(-INF) } else { tv(INF) } }
    tv((a.ticks() as i128 - b.ticks() as i128).clamp(-(INF as i128), INF as i128) as i64)
}
fn c14_from(c: &OtherC, o: &mut Obs) -> Verdict {
    let c2 = (c.secs.saturating_add(c.dsecs), c.dns);
    let mut prev: Option<(i128, TimeValue)> = None;
    for (s, n) in [(c.secs, c.ns), c2] {
        let exact = s as i128 * 1_000_000_000 + n as i128;
        let lim = MAXS as i128 * 1_000_000_000; // certainly representable below, certainly too large above the next second
        let over = exact.abs() > lim + 1_000_000_000;
        let inside = exact.abs() <= lim;
        let max_chrono = i64::MAX / 1000 - 1;
        if s.abs() < max_chrono {
            let d = chrono::Duration::seconds(s) + chrono::Duration::nanoseconds(n as i64);
            let t = TimeValue::from(d);
            if inside { ensure!(t.is_finite(), "chrono {d:?} is infinite"); near_from(exact, t.as_ticks(), "from chrono")?; close(cns(t.to_duration()), exact, "chrono there and back")?; }
            if over { ensure_eq!(t.as_ticks(), if s < 0 { -INF } else { INF }, "from chrono out of range ({s}s)"); }
            if let Some((e, p)) = prev { ensure!((e <= exact) == (p <= t) || e == exact || p == t, "order of chrono durations lost"); }
            prev = Some((exact, t));
        }
        if s >= 0 {
            let d = std::time::Duration::new(s as u64, n);
            let t = TimeValue::from(d);
            if inside { ensure!(t.is_finite(), "std {d:?} is infinite"); near_from(exact, t.as_ticks(), "from std")?; }
            if over { ensure_eq!(t.as_ticks(), INF, "from std out of range"); }
            let big = std::time::Duration::new(s as u64 + (1 << 63), n);
            ensure_eq!(TimeValue::from(big).as_ticks(), INF, "from std far out of range");
            o.label("std");
        }
        if inside {
            let u: DateTime<Utc> = Utc.timestamp_opt(s, n).single().ok_or("chrono date")?;
            let t = Timestamp::from(u);
            near_from(exact, t.ticks(), "from DateTime<Utc>")?;
            close(dns(&t.to_datetime()), exact, "DateTime<Utc> there and back")?;
            let z = FixedOffset::east_opt(c.zone).ok_or("zone")?;
            let tz = Timestamp::from(u.with_timezone(&z));
            ensure_eq!(tz, t, "the zone changes the instant");
            ensure_eq!(Timestamp::from(u.naive_utc()), t, "from NaiveDateTime");
            o.steps += 4;
        }
        o.label_if(over, "out of range");
    }
    // chrono's extreme durations
    if c.ns < 5 {
        ensure_eq!(TimeValue::from(chrono::Duration::MAX).as_ticks(), INF, "chrono maximum");
        ensure_eq!(TimeValue::from(chrono::Duration::MIN).as_ticks(), -INF, "chrono minimum");
        let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_err(|e| e.to_string())?.as_nanos() as i128;
        let now = Timestamp::now();
        let after = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_err(|e| e.to_string())?.as_nanos() as i128;
        let g = ns_of(now.ticks());
        // the clock may be stepped back under us: only judge when it was not
        if before <= after { ensure!(g >= before - 2 && g <= after + 2, "now() is {g}ns, between {before} and {after}"); }
        // the time elapsed since a date is the difference with the present one
        let since = ts(c.secs.saturating_mul(1 << 20).saturating_add(c.zone as i64).clamp(-INF, INF));
        let (a, e, b) = (Timestamp::now(), panics(|| since.elapsed())?, Timestamp::now());
        if a <= b { let (lo, hi) = (b_sub(a, since), b_sub(b, since)); ensure!(lo <= e && e <= hi, "elapsed since {}: {} is not in {} .. {}", since.ticks(), e.as_ticks(), lo.as_ticks(), hi.as_ticks()); }
    }
    o.nontrivial = c.ns != 0;
    Ok(())
}
