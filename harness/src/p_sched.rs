//! C21–C22: schedulers against arc-consistency closures of explicit date sets, and against the
//! exhaustive enumeration of the full assignments on tiny domains.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_graph::{constraint, madd, out, same_graph, Cx, KSpan, Out, K};
use crate::{ensure, ensure_eq, Prop};
use chronologic::graph::*;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }
fn exbox<C: CaseT>(l: ExLeg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", legs: vec![
            boxed(Leg { name: "histories", rule: "histories of retain, remove, deadline, startline and clone with interval and multi-interval windows of every type on random consistent graphs of up to 7 instants, every slot compared with the closure after each step; non-trivial: 2 or more accepted restrictions of which one removed dates from the bounded slots of another instant", quick: 200_000, thorough: 6_000_000, strat: || hist(7, 12, false), check: c21 }),
            boxed(Leg { name: "range-end", rule: "the same with dates next to the first or the last one of the range, where dates out of the range support nothing; non-trivial: as above", quick: 60_000, thorough: 2_000_000, strat: || hist(6, 10, true), check: c21 }),
            boxed(Leg { name: "fragmented", rule: "the same with tight equality-like constraints and windows of many short parts, where one pass of propagation is not enough; non-trivial: the closure needs a second round over the instants", quick: 120_000, thorough: 4_000_000, strat: || prop_oneof![2 => frag(6, 10, 1), 1 => knot(), 1 => cross()].boxed(), check: c21_frag }),
            boxed(Leg { name: "ladder", rule: "up to 250 dates around a ring of instants, each between its only two supports, so that removing one takes the others away one after the other; non-trivial: as for fragmented", quick: 2_500, thorough: 100_000, strat: ladder, check: c21_frag }),
            boxed(Leg { name: "large", rule: "up to 24 instants, or slots of up to 60 parts (rarely 280); non-trivial: as for histories", quick: 12_000, thorough: 400_000, strat: big, check: c21 }),
            boxed(Leg { name: "spread", rule: "the same on instants at any place among hundreds of a greater graph, the others being free; non-trivial: as for histories", quick: 1_500, thorough: 300_000, strat: spread, check: c21 }),
            boxed(Leg { name: "assignments", rule: "tiny date ranges where all full assignments are enumerated; non-trivial: 3 or more instants, some date of some slot removed by another instant's restriction", quick: 60_000, thorough: 2_000_000, strat: tiny, check: c21_tiny }),
            exbox(ExLeg { name: "small-scope", rule: "every triple of date sets (subsets of 5 dates, given by retain) on 3 instants for each graph of a fixed family; non-trivial: an accepted restriction removes dates of another instant", cases: masks, check: c21_masks }),
        ]},
        Prop { id: "C22", legs: vec![
            boxed(Leg { name: "histories", rule: "histories mixing feasible, redundant and infeasible restrictions with clones that evolve apart, result kind and all slots judged after each step; non-trivial: a refusal followed by another operation", quick: 200_000, thorough: 6_000_000, strat: || hist(6, 14, false), check: c22 }),
            boxed(Leg { name: "range-end", rule: "the same with dates next to the first or the last one of the range, where dates out of the range support nothing; non-trivial: as above", quick: 60_000, thorough: 2_000_000, strat: || hist(6, 10, true), check: c22 }),
            boxed(Leg { name: "ladder", rule: "up to 250 dates around a ring of instants, each between its only two supports, so that removing one takes the others away one after the other, up to a refusal or not; non-trivial: a restriction that overlaps the slot is refused", quick: 2_500, thorough: 100_000, strat: ladder, check: c22_frag }),
            boxed(Leg { name: "fragmented", rule: "the same with tight constraints and windows of many short parts, so that refusals come from propagation; non-trivial: a restriction that overlaps the slot is refused", quick: 250_000, thorough: 12_000_000, strat: || prop_oneof![3 => knot(), 2 => cross(), 2 => frag(8, 12, 12)].boxed(), check: c22_frag }),
            boxed(Leg { name: "large", rule: "up to 24 instants, or slots of up to 60 parts (rarely 280); non-trivial: as for histories", quick: 12_000, thorough: 400_000, strat: big, check: c22 }),
            boxed(Leg { name: "spread", rule: "the same on instants at any place among hundreds of a greater graph, the others being free; non-trivial: as for histories", quick: 1_500, thorough: 300_000, strat: spread, check: c22 }),
            boxed(Leg { name: "assignments", rule: "tiny date ranges where all full assignments are enumerated: refused exactly when none is left; non-trivial: at least one refusal", quick: 60_000, thorough: 2_000_000, strat: tiny, check: c22_tiny }),
            exbox(ExLeg { name: "small-scope", rule: "every triple of date sets (subsets of 5 dates, given by retain) on 3 instants for each graph of a fixed family; non-trivial: refused", cases: masks, check: c22_masks }),
        ]},
    ]
}

// ---------------------------------------------------------------- cases

/// A window of dates around the hidden date of the instant: coordinates and ticks next to them
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub enum W {
    Pt(i16), Iv(i16, i16), After(i16), Before(i16), Excl(i16, i16), Incl(i16, i16), From(i16), To(i16), ToExcl(i16), All, Empty, EmptySet,
    /// start, (gap, length) steps, open sides
    Set(i16, Vec<(u8, u8)>, bool, bool),
    /// infinite ends: +oo, -oo, `+oo..`, `-oo..`, `..=+oo`, `..=-oo`, `..+oo`, `..-oo`, `-oo..=+oo`
    Inf(u8),
}
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub enum SOp {
    Retain(u8, W), Remove(u8, W), Deadline(i16), Startline(i16), Fork, Switch(u8),
    /// an infinite deadline (true) or startline
    InfLine(bool, bool),
    /// an instant out of the graph (selector), to retain (true) or to remove
    Out(u8, W, bool),
}
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub struct SC { pub unit: i64, pub n: u8, pub base: i16, pub hidden: Vec<i16>, pub ks: Vec<K>, pub ops: Vec<SOp>,
    /// ticks added to all the dates (which stop short of the ends of the range)
    #[serde(default)] pub origin: i64,
    /// look at the slots only after the last step, so that looking cannot mend them
    #[serde(default)] pub blind: bool,
    /// where the instants are in a greater graph (empty: the first ones), and its number of instants
    #[serde(default)] pub places: Vec<u32>, #[serde(default)] pub size: u32 }

fn unit() -> BoxedStrategy<i64> { prop_oneof![5 => Just(1i64), 1 => Just(1 << 30), 1 => 2i64..50, 1 => Just(1i64 << 44)].boxed() }
fn walk(frag: bool) -> BoxedStrategy<Vec<(u8, u8)>> {
    if frag { prop::collection::vec((prop_oneof![3 => 1u8..3, 1 => 1u8..6], prop_oneof![3 => Just(0u8), 1 => 0u8..3]), 1..8).boxed() }
    else { prop::collection::vec((1u8..12, prop_oneof![1 => Just(0u8), 3 => 0u8..9]), 0..5).boxed() }
}
fn window(frag: bool) -> BoxedStrategy<W> {
    // most windows surround or start near the hidden date
    let lo = || prop_oneof![5 => -8i16..1, 2 => -20i16..20];
    let hi = || prop_oneof![5 => 0i16..9, 2 => -20i16..20];
    let set = (-14i16..3, walk(frag), prop::bool::weighted(0.15), prop::bool::weighted(0.15)).prop_map(|(s, v, a, b)| W::Set(s, v, a, b));
    prop_oneof![
        4 => (lo(), hi()).prop_map(|(a, b)| W::Iv(a, b)), 1 => lo().prop_map(W::After), 1 => hi().prop_map(W::Before), 1 => (-2i16..3).prop_map(W::Pt),
        1 => (lo(), hi()).prop_map(|(a, b)| W::Incl(a, b)), 1 => (lo(), hi()).prop_map(|(a, b)| W::Excl(a, b + 1)),
        1 => lo().prop_map(W::From), 1 => hi().prop_map(W::To), 1 => hi().prop_map(|b| W::ToExcl(b + 1)),
        (if frag { 14 } else { 5 }) => set,
    ].boxed()
}
fn graph_ks(n: u8, frag: bool) -> BoxedStrategy<Vec<K>> {
    let k = if frag {
        // differences almost fixed
        (0..n, 0..n, prop_oneof![3 => Just(KSpan::Pt(0)), 3 => (0i16..2, 0i16..2).prop_map(|(a, b)| KSpan::Both(-a, b)), 1 => (0i16..5, 0i16..5).prop_map(|(a, b)| KSpan::Both(-a, b))])
            .prop_map(|(i, j, w)| K { i, j, w }).boxed()
    } else { constraint(n, 0) };
    prop::collection::vec(k, 1..=(2 * n as usize)).prop_map(move |mut v| {
        if n < 2 { v.clear() }
        for k in v.iter_mut() { if k.i == k.j { k.j = (k.j + 1) % n } } v }).boxed()
}
fn rare() -> BoxedStrategy<W> { prop_oneof![2 => (0u8..9).prop_map(W::Inf), 1 => Just(W::All), 1 => Just(W::Empty), 1 => Just(W::EmptySet)].boxed() }
fn hist(n: u8, len: usize, far: bool) -> BoxedStrategy<SC> {
    let frag = false;
    (unit(), prop_oneof![1 => Just(1u8), 40 => 2..=n], -200i16..200, prop::collection::vec(-20i16..20, n as usize)).prop_flat_map(move |(unit, n, base, hidden)| {
        let w = || prop_oneof![30 => window(frag), 1 => rare()];
        // what is removed rarely holds the hidden date
        let rem = prop_oneof![5 => (1i16..15, 0i16..10).prop_map(|(a, l)| W::Iv(a, a + l)), 5 => (1i16..15, 0i16..10).prop_map(|(a, l)| W::Iv(-a - l, -a)),
            2 => (1i16..15).prop_map(W::Pt), 2 => (1i16..15).prop_map(W::After), 2 => (1i16..15).prop_map(|b| W::Before(-b)),
            3 => (1i16..10, walk(frag), prop::bool::weighted(0.2)).prop_map(|(s, v, b)| W::Set(s, v, false, b)), 1 => window(frag), 1 => rare()];
        let op = prop_oneof![
            12 => (0..n, w()).prop_map(|(i, w)| SOp::Retain(i, w)), 5 => (0..n, rem).prop_map(|(i, w)| SOp::Remove(i, w)),
            2 => prop_oneof![3 => 10i16..40, 1 => -25i16..40].prop_map(SOp::Deadline), 2 => prop_oneof![3 => -40i16..-10, 1 => -40i16..25].prop_map(SOp::Startline),
            1 => Just(SOp::Fork), 1 => (0u8..4).prop_map(SOp::Switch),
            1 => prop_oneof![4 => any::<bool>().prop_map(|b| SOp::InfLine(b, b)), 1 => any::<bool>().prop_map(|b| SOp::InfLine(b, !b)), 3 => (0u8..4, window(frag), any::<bool>()).prop_map(|(i, w, k)| SOp::Out(i, w, k))],
        ];
        let end = prop_oneof![Just(0i64), Just(1), -40i64..41];
        (Just(unit), Just(n), Just(base), Just(hidden), graph_ks(n, frag), prop::collection::vec(op, 1..=len), end, (any::<bool>(), prop::bool::weighted(0.15)))
            .prop_map(move |(unit, n, base, hidden, ks, ops, e, (up, blind))| {
                let origin = if far { let o = INF - 2 - unit.saturating_mul(e.max(0)); if up { o } else { -o } } else { 0 };
                SC { unit, n, base: if far { 0 } else { base }, hidden, ks, ops, origin, blind, places: vec![], size: 0 }
            })
    }).boxed()
}

/// The same among the many instants of a greater graph, which are not constrained
fn spread() -> BoxedStrategy<SC> {
    let idx = prop_oneof![4 => 0u32..400, 1 => prop::sample::select(vec![0u32, 1, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 700])];
    (prop_oneof![3 => hist(6, 8, false), 1 => frag(6, 6, 1), 1 => knot()], prop::collection::btree_set(idx, 7), any::<u8>(), 1u32..60).prop_map(|(mut c, p, k, more)| {
        let mut p: Vec<u32> = p.into_iter().collect();
        p.rotate_left(k as usize % 7);
        if k % 2 == 0 { p.swap(0, 3) }
        p.truncate(c.n as usize);
        // some instant is free
        c.size = p.iter().max().unwrap() + if p.len() as u32 == p.iter().max().unwrap() + 1 || k % 4 == 1 { more } else { 1 };
        c.places = p;
        c
    }).boxed()
}

/// Sparse dates and spans of about the size of the gaps: supports are lost several instants away
fn frag(n: u8, len: usize, pin: u32) -> BoxedStrategy<SC> {
    (unit(), 3..=n, -50i16..50, 1i16..4).prop_flat_map(move |(unit, n, base, w)| {
        let gap = prop::collection::vec(w..=3 * w, 4..9);
        // every instant has one date near each place, at a jitter the spans may or may not bridge
        let jit = prop::collection::vec(prop::collection::vec((-w..=w, prop_oneof![5 => Just(0i16), 1 => 0i16..2]), 9), n as usize);
        let k = (0..n, 0..n, prop_oneof![6 => Just((w, w)), 2 => (0..=w, 0..=w), 1 => (0..=2 * w, 0..=w)])
            .prop_map(move |(i, j, (a, b))| K { i, j: if i == j { (j + 1) % n } else { j }, w: KSpan::Both(-a, b) });
        let at = move || 0i16..(8 * w);
        let op = prop_oneof![
            pin => (0..n, 0i16..9).prop_map(|(i, k)| SOp::Retain(i, W::Pt(k))),
            6 => (0..n, at(), 0i16..(2 * w)).prop_map(|(i, a, l)| SOp::Retain(i, W::Iv(a, a + l))),
            1 => (0..n, at(), prop::collection::vec((1u8..6, 0u8..3), 1..6)).prop_map(|(i, a, v)| SOp::Retain(i, W::Set(a - 4, v, false, false))),
            5 => (0..n, at(), 0i16..(2 * w)).prop_map(|(i, a, l)| SOp::Remove(i, W::Iv(a, a + l))),
            2 => (0..n, at()).prop_map(|(i, a)| SOp::Remove(i, W::Pt(a))),
            3 => at().prop_map(|x| SOp::Deadline(x + 4)), 3 => at().prop_map(|x| SOp::Startline(x)), 1 => Just(SOp::Fork), 1 => (0u8..4).prop_map(SOp::Switch),
        ];
        (Just(unit), Just(n), Just(base), prop::collection::vec(k, (n as usize)..(3 * n as usize)), gap, jit, prop::collection::vec(op, 1..=len))
            .prop_map(|(unit, n, base, ks, gap, jit, ops)| {
                let mut dates: Vec<Vec<i16>> = vec![];
                let mut all: Vec<SOp> = jit.into_iter().enumerate().map(|(i, js)| {
                    dates.push(vec![]);
                    let (mut v, mut place, mut end, mut start) = (vec![], 0i16, None, 0);
                    for (g, (j, len)) in gap.iter().zip(js) {
                        place += g;
                        let a = place + j;
                        dates[i].push(a);
                        match end { None => { start = a; v.push((0u8, len as u8)) } Some(e) if a > e => v.push(((a - e) as u8, len as u8)), _ => continue }
                        end = Some(a + len);
                    }
                    SOp::Retain(i as u8, W::Set(start, v, false, false))
                }).collect();
                // a single date is one of those of the instant
                all.extend(ops.into_iter().map(|x| match x { SOp::Retain(i, W::Pt(k)) => SOp::Retain(i, W::Pt(dates[i as usize][k as usize % dates[i as usize].len()])), x => x }));
                SC { unit, n, base, hidden: vec![], ks, ops: all, origin: 0, blind: false, places: vec![], size: 0 }
            })
    }).boxed()
}

/// Few dates about a span apart on densely linked instants: each date has its supports, but the
/// supports of a chosen date may not support each other
fn cross() -> BoxedStrategy<SC> {
    (unit(), 3u8..6, -50i16..50, 2i16..8).prop_flat_map(|(unit, n, base, w)| {
        // some full assignments, and a few dates between
        let full = prop::collection::vec((w..=2 * w + 1, prop::collection::vec(0..=w, n as usize)), 2..5);
        let dates = (full, prop::collection::vec(prop::collection::btree_set(0i16..(5 * w), 0..4), n as usize)).prop_map(|(full, mut d)| {
            let mut c = 0;
            for (gap, js) in full { for (i, j) in js.into_iter().enumerate() { d[i].insert(c + j); } c += gap }
            d
        });
        let link = prop::collection::vec(prop_oneof![30 => Just((w, w)), 1 => (0..=w, 0..=w), 1 => (0..=2 * w, 0..=w)], 10);
        let drop = prop::collection::vec(prop::bool::weighted(0.15), 10);
        let op = prop_oneof![
            12 => (0..n, 0i16..9).prop_map(|(i, k)| SOp::Retain(i, W::Pt(k))), 6 => (0..n, 0i16..9).prop_map(|(i, k)| SOp::Remove(i, W::Pt(k))),
            3 => (0..n, 0i16..(5 * w), 0i16..w).prop_map(|(i, a, l)| SOp::Retain(i, W::Iv(a, a + l))), 3 => (0..n, 0i16..(5 * w), 0i16..w).prop_map(|(i, a, l)| SOp::Remove(i, W::Iv(a, a + l))),
            1 => (0i16..(5 * w)).prop_map(SOp::Deadline), 1 => (0i16..(5 * w)).prop_map(SOp::Startline), 1 => Just(SOp::Fork), 2 => (0u8..4).prop_map(SOp::Switch),
        ];
        (Just(unit), Just(n), Just(base), dates, link, drop, prop::collection::vec(op, 1..=12)).prop_map(|(unit, n, base, dates, link, drop, ops)| {
            let dates: Vec<Vec<i16>> = dates.into_iter().map(|d| d.into_iter().collect()).collect();
            let mut ks = vec![];
            for i in 0..n { for j in 0..i {
                let p = (i * (i - 1) / 2 + j) as usize;
                if !drop[p] { ks.push(K { i, j, w: KSpan::Both(-link[p].0, link[p].1) }) }
            }}
            let all = dates.iter().enumerate().map(|(i, d)| SOp::Retain(i as u8, W::Set(d[0], std::iter::once((0, 0)).chain(d.windows(2).map(|x| ((x[1] - x[0]) as u8, 0))).collect(), false, false)));
            let date = |i: u8, k: i16| { let d = &dates[i as usize]; d[k as usize % d.len()] };
            let ops = ops.into_iter().map(|x| match x { SOp::Retain(i, W::Pt(k)) => SOp::Retain(i, W::Pt(date(i, k))), SOp::Remove(i, W::Pt(k)) => SOp::Remove(i, W::Pt(date(i, k))), x => x });
            SC { unit, n, base, hidden: vec![], ks, ops: all.chain(ops).collect(), origin: 0, blind: false, places: vec![], size: 0 }
        })
    }).boxed()
}

/// Dates around a ring of instants, each of them between its only two supports: removing one of
/// them takes all the others away, one after the other, up to a plain interval
fn ladder() -> BoxedStrategy<SC> {
    (unit(), 3u8..6, -50i16..50, 1i16..5, any::<bool>()).prop_flat_map(|(unit, n, base, s, neg)| {
        let rungs = prop_oneof![3 => 6i16..60, 2 => 60i16..250];
        let op = (0u8..11, any::<u8>(), 0i16..1000, 0i16..4);
        (Just((unit, n, base, s, neg)), s..2 * s, rungs, any::<u8>(), prop_oneof![5 => Just((true, true)), 1 => any::<(bool, bool)>()], prop::collection::vec(op, 1..4)).prop_map(|((unit, n, base, s, neg), w, rungs, turn, (lo, hi), ops)| {
            // the instants around the ring
            let at = |m: i16| { let k = (m.rem_euclid(n as i16) as u8 + turn % n) % n; if neg { n - 1 - k } else { k } };
            let ks = (0..n as i16).map(|m| K { i: at(m), j: at(m + 1), w: KSpan::Both(-w, w) }).collect();
            let (block, end) = (2 * n as i16 * s, rungs * s);
            let first = (0..n).map(|i| {
                let mut parts = vec![];
                if lo { parts.push((-block, -s)) }
                parts.extend((0..rungs).filter(|&m| at(m) == i).map(|m| (m * s, m * s)));
                if hi { parts.push((end, end + block)) }
                let mut c = parts[0].0;
                let v = parts.iter().map(|p| { let gap = p.0 - c; c = p.1; (gap as u8, (p.1 - p.0) as u8) }).collect();
                SOp::Retain(i, W::Set(parts[0].0, v, false, false))
            }).collect::<Vec<_>>();
            let ops = ops.into_iter().map(|(kind, i, x, l)| {
                let (i, m) = (i % n, x % rungs);
                match kind { 0..=3 => SOp::Remove(at(m), W::Pt(m * s)), 4 => SOp::Retain(i, W::Iv(-block, m * s)), 5 => SOp::Retain(i, W::Iv(m * s, end + block)), 6 => SOp::Remove(i, W::Iv(m * s, (m + l) * s)),
                    // between both blocks nothing remains in the end
                    7 | 8 => SOp::Retain(i, W::Iv((m - l) * s / 2, end - s * l)), 9 => SOp::Retain(at(m), W::Pt(m * s)), _ => SOp::Deadline(m * s) }
            });
            SC { unit, n, base, hidden: vec![], ks, ops: first.into_iter().chain(ops).collect(), origin: 0, blind: false, places: vec![], size: 0 }
        })
    }).boxed()
}

/// Three linked instants where each date is supported, but the two supports of the middle date of
/// the first one do not support each other: choosing it is refused after some propagation
fn knot() -> BoxedStrategy<SC> {
    (unit(), 3u8..7, -50i16..50, 2i16..12, any::<bool>()).prop_flat_map(|(unit, n, base, w, neg)| {
        let three = Just((0..n).collect::<Vec<u8>>()).prop_shuffle();
        // distances of the supports, their outer supports, and where the first instant stands there
        let u = (w / 2 + 1)..=w;
        let shape = (u.clone(), u, 0i16..100, 0i16..100, 0i16..100, 0i16..100);
        let more = prop::collection::vec((0..n, -2 * w..=2 * w), 0..4);
        let links = prop::collection::vec((0..n, 0..n, 0i16..=w, 0i16..=w), 0..4);
        let choice = 0u8..6;
        let op = || prop_oneof![
            4 => (0..n, -2 * w..=2 * w).prop_map(|(i, k)| SOp::Retain(i, W::Pt(k))), 4 => (0..n, -2 * w..=2 * w).prop_map(|(i, k)| SOp::Remove(i, W::Pt(k))),
            3 => (0..n, -2 * w..=w, 0i16..w).prop_map(|(i, a, l)| SOp::Remove(i, W::Iv(a, a + l))),
            1 => (-w..=2 * w).prop_map(SOp::Deadline), 1 => (-2 * w..=w).prop_map(SOp::Startline), 1 => Just(SOp::Fork), 2 => (0u8..4).prop_map(SOp::Switch),
        ];
        (Just((unit, n, base, w, neg)), three, shape, more, links, choice, prop::collection::vec(-20i16..20, n as usize), prop::collection::vec(op(), 0..3), prop::collection::vec(op(), 0..6), prop::bool::weighted(0.3))
            .prop_map(|((unit, n, base, w, neg), t, (u, v, p, q, r, s), more, links, choice, hidden, before, after, fork)| {
                let (b1, c1) = (-u, v);
                let (c2, b2) = (-w - 1 - p % u, w + 1 + q % v);
                let a1 = c2 + r % (b1 - c2 + 1);
                let a2 = c1 + s % (b2 - c1 + 1);
                let mut d = vec![std::collections::BTreeSet::new(); n as usize];
                let sg = |x: i16| if neg { -x } else { x };
                for x in [a1, 0, a2] { d[t[0] as usize].insert(sg(x)); }
                for x in [b1, b2] { d[t[1] as usize].insert(sg(x)); }
                for x in [c1, c2] { d[t[2] as usize].insert(sg(x)); }
                for (i, x) in more { d[i as usize].insert(x); }
                let link = |i: u8, j: u8, a: i16, b: i16| K { i, j, w: KSpan::Both(-a, b) };
                let mut ks = vec![link(t[0], t[1], w, w), link(t[2], t[1], w, w), link(t[0], t[2], w, w)];
                // other instants, looser for those of the knot
                for (i, j, a, b) in links { if i != j { let k = if t[..3].contains(&i) && t[..3].contains(&j) { w } else { 0 }; ks.push(link(i, j, a.max(k), b.max(k))) } }
                let mut ops: Vec<SOp> = d.iter().enumerate().filter(|(i, d)| d.len() > 3 || t[..3].contains(&(*i as u8)) && !d.is_empty()).map(|(i, d)| {
                    let d: Vec<i16> = d.iter().copied().collect();
                    SOp::Retain(i as u8, W::Set(d[0], std::iter::once((0, 0)).chain(d.windows(2).map(|x| ((x[1] - x[0]) as u8, 0))).collect(), false, false))
                }).collect();
                if fork { ops.push(SOp::Fork) }
                ops.extend(before);
                match choice {
                    0 | 1 => ops.push(SOp::Retain(t[0], W::Pt(0))),
                    2 => ops.push(SOp::Retain(t[0], W::Iv(sg(a1).min(sg(a2)) + 1, sg(a1).max(sg(a2)) - 1))),
                    3 => { ops.push(SOp::Remove(t[0], W::Pt(sg(a1)))); ops.push(SOp::Remove(t[0], W::Pt(sg(a2)))) }
                    4 => ops.push(SOp::Remove(t[0], W::Set(sg(a1).min(sg(a2)), vec![(0, 0), ((a2 - a1) as u8, 0)], false, false))),
                    _ => { ops.push(SOp::Retain(t[0], W::After(sg(0)))); ops.push(SOp::Retain(t[0], W::Before(sg(0)))) }
                }
                ops.extend(after);
                SC { unit, n, base, hidden, ks, ops, origin: 0, blind: false, places: vec![], size: 0 }
            })
    }).boxed()
}

/// Many instants, or slots of many parts
fn big() -> BoxedStrategy<SC> {
    let parts = (3u8..6, -50i16..50, 1i16..6).prop_flat_map(|(n, base, w)| {
        let set = || (-150i16..-20, prop::collection::vec((1u8..8, 0u8..4), 10..60)).prop_map(|(s, v)| W::Set(s, v, false, false));
        let first = prop::collection::vec(prop_oneof![5 => set(), 1 => Just(W::Iv(-150, 150))], n as usize);
        let op = prop_oneof![
            4 => (0..n, set()).prop_map(|(i, w)| SOp::Remove(i, w)), 2 => (0..n, set()).prop_map(|(i, w)| SOp::Retain(i, w)), 3 => (0..n, -100i16..100, 0i16..60).prop_map(|(i, a, l)| SOp::Remove(i, W::Iv(a, a + l))),
            1 => (20i16..150).prop_map(SOp::Deadline), 1 => (-150i16..-20).prop_map(SOp::Startline), 1 => Just(SOp::Fork), 1 => (0u8..4).prop_map(SOp::Switch),
        ];
        let k = (0..n, 0..n, -w..=0, 0..=w).prop_map(move |(i, j, a, b)| K { i, j: if i == j { (j + 1) % n } else { j }, w: KSpan::Both(a, b) });
        (unit(), Just(n), Just(base), prop::collection::vec(-20i16..20, n as usize), prop::collection::vec(k, 1..(2 * n as usize)), first, prop::collection::vec(op, 1..8)).prop_map(|(unit, n, base, hidden, ks, first, ops)| {
            let all = first.into_iter().enumerate().map(|(i, w)| SOp::Retain(i as u8, w));
            SC { unit, n, base, hidden, ks, ops: all.chain(ops).collect(), origin: 0, blind: false, places: vec![], size: 0 }
        })
    });
    // far more parts, on fewer instants
    let many = (2u8..4, -50i16..50, 1i16..4).prop_flat_map(|(n, base, w)| {
        let set = |lo: usize| (-500i16..-300, prop::collection::vec((1u8..6, 0u8..4), lo..280)).prop_map(|(s, v)| W::Set(s, v, false, false));
        let first = prop::collection::vec(prop_oneof![8 => set(100), 1 => Just(W::Iv(-500, 700))], n as usize);
        let op = prop_oneof![
            4 => (0..n, set(20)).prop_map(|(i, w)| SOp::Remove(i, w)), 2 => (0..n, set(100)).prop_map(|(i, w)| SOp::Retain(i, w)), 3 => (0..n, -400i16..400, 0i16..60).prop_map(|(i, a, l)| SOp::Remove(i, W::Iv(a, a + l))),
            1 => (20i16..500).prop_map(SOp::Deadline), 1 => (-500i16..-20).prop_map(SOp::Startline), 1 => Just(SOp::Fork),
        ];
        let k = (0..n, 0..n, -w..=0, 0..=w).prop_map(move |(i, j, a, b)| K { i, j: if i == j { (j + 1) % n } else { j }, w: KSpan::Both(a, b) });
        (unit(), Just(n), Just(base), prop::collection::vec(-20i16..20, n as usize), prop::collection::vec(k, 1..(2 * n as usize)), first, prop::collection::vec(op, 1..5)).prop_map(|(unit, n, base, hidden, ks, first, ops)| {
            let all = first.into_iter().enumerate().map(|(i, w)| SOp::Retain(i as u8, w));
            SC { unit, n, base, hidden, ks, ops: all.chain(ops).collect(), origin: 0, blind: false, places: vec![], size: 0 }
        })
    });
    prop_oneof![10 => hist(24, 16, false), 10 => parts, 1 => many].boxed()
}

// ---------------------------------------------------------------- real and model windows

impl SC {
    fn place(&self, i: u8) -> u32 { self.places.get(i as usize).copied().unwrap_or(i as u32) }
    fn h(&self, i: u8) -> i64 { self.base as i64 + self.hidden.get(i as usize).copied().unwrap_or(0) as i64 }
    fn clip(&self, x: i64) -> i64 { (self.origin as i128 + x as i128 * self.unit as i128).clamp(2 - INF as i128, INF as i128 - 2) as i64 }
    fn date(&self, i: u8, c: i16) -> i64 { self.clip(self.h(i) + c as i64) }
    fn line(&self, c: i16) -> i64 { self.clip(self.base as i64 + c as i64) }
    fn model(&self, i: u8, w: &W) -> MSet {
        let at = |c: i16| self.date(i, c);
        match w {
            W::Pt(c) => MSet::pt(at(*c)),
            W::Iv(a, b) | W::Incl(a, b) => MSet::iv(at(*a), at(*b)),
            W::Excl(a, b) => MSet::iv(at(*a), at(*b) - 1),
            W::After(a) | W::From(a) => MSet::iv(at(*a), INF),
            W::Before(b) | W::To(b) => MSet::iv(-INF, at(*b)),
            W::ToExcl(b) => MSet::iv(-INF, at(*b) - 1),
            W::All | W::Inf(3 | 4 | 6 | 8..) => MSet::all(),
            W::Empty | W::Inf(_) | W::EmptySet => MSet::empty(),
            W::Set(s, v, lo, hi) => {
                let mut c = *s;
                let mut parts = vec![];
                for &(gap, len) in v {
                    c += gap as i16;
                    parts.push((at(c), at(c + len as i16)));
                    c += len as i16;
                }
                if *lo { if let Some(p) = parts.first_mut() { p.0 = -INF } }
                if *hi { if let Some(p) = parts.last_mut() { p.1 = INF } }
                MSet::norm(parts)
            }
        }
    }
    fn retain(&self, s: &mut TimeScheduler, i: u8, w: &W) -> Out {
        let at = |c: i16| ts(self.date(i, c));
        let k = self.place(i);
        out(match w {
            W::Pt(c) => s.retain(k, at(*c)),
            W::Iv(a, b) => s.retain(k, TimeSlot::new(at(*a), at(*b))),
            W::Incl(a, b) => s.retain(k, at(*a)..=at(*b)),
            W::Excl(a, b) => s.retain(k, at(*a)..at(*b)),
            W::After(a) => s.retain(k, TimeSlot::after(at(*a))),
            W::Before(b) => s.retain(k, TimeSlot::before(at(*b))),
            W::From(a) => s.retain(k, at(*a)..),
            W::To(b) => s.retain(k, ..=at(*b)),
            W::ToExcl(b) => s.retain(k, ..at(*b)),
            W::Inf(x) => return out({
                let (p, q) = (ts(INF), ts(-INF));
                match x {
                    0 => s.retain(k, p), 1 => s.retain(k, q), 2 => s.retain(k, p..), 3 => s.retain(k, q..), 4 => s.retain(k, ..=p),
                    5 => s.retain(k, ..=q), 6 => s.retain(k, ..p), 7 => s.retain(k, ..q), _ => s.retain(k, q..=p),
                }
            }),
            W::All => s.retain(k, TimeSlot::all()),
            W::Empty => s.retain(k, TimeSlot::empty()),
            W::EmptySet => s.retain(k, TimeSlots::empty()),
            W::Set(..) => s.retain(k, set::<Timestamp>(&self.model(i, w))),
        })
    }
    fn remove(&self, s: &mut TimeScheduler, i: u8, w: &W) -> Out {
        let k = self.place(i);
        let m = self.model(i, w);
        out(match w {
            W::Pt(c) => s.remove(k, ts(self.date(i, *c))),
            W::Set(..) | W::EmptySet => s.remove(k, set::<Timestamp>(&m)),
            W::Inf(0) => s.remove(k, ts(INF)),
            W::Inf(1) => s.remove(k, ts(-INF)),
            W::All => s.remove(k, TimeSlot::all()),
            _ => if m.is_empty() { s.remove(k, TimeSlot::empty()) } else { let (l, u) = m.0[0]; s.remove(k, iv::<Timestamp>(l, u)) },
        })
    }
    /// the real graph and its model; contradictory constraints are left out
    fn graph(&self) -> Result<(TimeGraph, Stn), String> {
        let cx = Cx { unit: self.unit, hidden: &self.hidden };
        if !self.places.is_empty() {
            let mut g = TimeGraph::with_size(self.size);
            // one instant more stands for all the free ones
            let mut m = Stn::new(self.n as usize + 1);
            for k in &self.ks { if let Some(r) = madd(&m, &cx, std::slice::from_ref(k)) { m = r; ensure!(out(g.propagate(((self.place(k.i), self.place(k.j)), cx.span(k)))).ok(), "a consistent constraint is refused"); } }
            return Ok((g, m))
        }
        let mut g = TimeGraph::with_size(self.n as u32);
        let mut m = Stn::new(self.n as usize);
        for k in &self.ks { if let Some(r) = madd(&m, &cx, std::slice::from_ref(k)) { m = r; ensure!(cx.propagate(&mut g, k).ok(), "a consistent constraint is refused"); } }
        same_graph(&g, &m, "graph")?;
        Ok((g, m))
    }
}

/// Largest sets included in `d` such that every date has a supporting date in every other set.
/// Returns the number of rounds over all the pairs, or None if some set is left empty.
fn closure(d: &mut [MSet], m: &Stn) -> Option<u32> {
    let mut rounds = 0;
    loop {
        let mut changed = false;
        for j in 0..m.n { for i in 0..m.n { if i != j {
            let (l, u) = m.span(i, j);
            let x = d[j].inter(&d[i].plus_sat(&MSet::iv(l, u)).0);
            if x.is_empty() { return None }
            if x != d[j] { d[j] = x; changed = true }
        }}}
        if !changed { return Some(rounds) }
        rounds += 1;
        assert!(rounds < 10_000, "the model does not converge");
    }
}
fn slots_are(c: &SC, s: &TimeScheduler, d: &[MSet], what: &str) -> Verdict {
    if !c.places.is_empty() {
        ensure_eq!(s.schedule().len(), c.size as usize, "{what}: number of slots");
        let free = set::<Timestamp>(&d[c.n as usize]);
        for (i, x) in s.schedule().iter().enumerate() {
            match c.places.iter().position(|p| *p == i as u32) {
                Some(k) => expect_set(x, &d[k], &format!("{what}: slots of instant {i}"))?,
                None => ensure!(*x == free, "{what}: slots of the free instant {i}: {x:?} instead of {free:?}"),
            }
        }
        ensure_eq!(s.latest_beginning().ticks(), d.iter().map(|x| x.upper()).min().unwrap(), "{what}: latest beginning");
        ensure_eq!(s.earliest_ending().ticks(), d.iter().map(|x| x.lower()).max().unwrap(), "{what}: earliest ending");
        return Ok(())
    }
    ensure_eq!(s.schedule().len(), d.len(), "{what}: number of slots");
    for (i, x) in d.iter().enumerate() {
        expect_set(&s.schedule()[i], x, &format!("{what}: slots of instant {i}"))?;
        ensure!(s.scheduling(i as u32) == Some(&s.schedule()[i]), "{what}: scheduling({i})");
    }
    ensure!(s.scheduling(d.len() as u32).is_none() && s.scheduling(u32::MAX).is_none(), "{what}: slots of an unknown instant");
    if !d.is_empty() {
        ensure_eq!(s.latest_beginning().ticks(), d.iter().map(|x| x.upper()).min().unwrap(), "{what}: latest beginning");
        ensure_eq!(s.earliest_ending().ticks(), d.iter().map(|x| x.lower()).max().unwrap(), "{what}: earliest ending");
    }
    Ok(())
}

#[derive(Default)]
struct Tally { accepted: u32, spread: bool, rounds: u32, refused: u32, late_refusal: bool, late_line: bool, after_refusal: bool, forks: u32 }

fn drive(c: &SC, t: &mut Tally, o: &mut Obs, step: &mut dyn FnMut(&[MSet], &Stn, &[MSet], bool) -> Verdict) -> Verdict {
    let (g, m) = c.graph()?;
    let n = m.n;
    let first = TimeScheduler::new(&g);
    if !c.blind { slots_are(c, &first, &vec![MSet::all(); n], "new scheduler")?; }
    // schedulers that evolve apart, their slots, and the raw restrictions they accepted
    let mut live = vec![(first, vec![MSet::all(); n], vec![MSet::all(); n])];
    let mut cur = 0;
    for (k, op) in c.ops.iter().enumerate() {
        o.step();
        t.after_refusal |= t.refused > 0;
        let what = &format!("step {k}");
        let mut asked: Vec<(usize, MSet)> = vec![];
        let (s, d, raw) = &mut live[cur];
        let r = match op {
            SOp::Fork => { let x = (s.clone(), d.clone(), raw.clone()); if live.len() < 4 { live.push(x); t.forks += 1 } else { let (a, b) = ((cur + 1 + k) % 4, cur); if a != b { let y = live[b].0.clone(); live[a].0.clone_from(&y); live[a].1 = x.1; live[a].2 = x.2; } } continue }
            SOp::Switch(i) => { cur = *i as usize % live.len(); continue }
            SOp::Retain(i, w) => { asked.push((*i as usize, c.model(*i, w))); c.retain(s, *i, w) }
            SOp::Remove(i, w) => { asked.push((*i as usize, c.model(*i, w).compl())); c.remove(s, *i, w) }
            SOp::Out(sel, w, keep) => {
                let n = g.size();
                let i = [n, u32::MAX, n + 1, 1 << 31][*sel as usize % 4];
                let r = panics(|| if *keep { match w { W::Set(..) => { let _ = s.retain(i, set::<Timestamp>(&c.model(0, w))); } W::Pt(x) => { let _ = s.retain(i, ts(c.date(0, *x))); } _ => { let _ = s.retain(i, TimeSlot::all()); } } }
                    else { match w { W::Set(..) => { let _ = s.remove(i, set::<Timestamp>(&c.model(0, w))); } _ => { let _ = s.remove(i, TimeSlot::empty()); } } });
                ensure!(r.is_err(), "{what}: instant {i} is accepted");
                if !c.blind { slots_are(c, s, d, what)?; }
                continue
            }
            SOp::InfLine(dead, plus) => {
                let x = if *plus { INF } else { -INF };
                let w = if dead == plus { MSet::all() } else { MSet::empty() };
                asked.extend((0..n).map(|i| (i, w.clone())));
                out(if *dead { s.set_deadline(ts(x)) } else { s.set_startline(ts(x)) })
            }
            SOp::Deadline(x) => { asked.extend((0..n).map(|i| (i, MSet::iv(-INF, c.line(*x))))); out(s.set_deadline(ts(c.line(*x)))) }
            SOp::Startline(x) => { asked.extend((0..n).map(|i| (i, MSet::iv(c.line(*x), INF)))); out(s.set_startline(ts(c.line(*x)))) }
        };
        let mut want = d.clone();
        let mut nraw = raw.clone();
        for (i, w) in &asked { want[*i] = want[*i].inter(w); nraw[*i] = nraw[*i].inter(w); }
        let overlap = want.iter().all(|x| !x.is_empty());
        let direct = want.clone();
        let rounds = if overlap { closure(&mut want, &m) } else { None };
        step(&nraw, &m, &want, rounds.is_some())?;
        match rounds {
            Some(rounds) => {
                ensure!(r.ok(), "{what}: refused ({r:?}) though every instant keeps supported dates");
                if !c.blind { slots_are(c, s, &want, what)?; }
                ensure_eq!(r, if want == *d { Out::Unchanged } else { Out::Propagated }, "{what}: result");
                t.accepted += 1;
                // some instant with bounded slots and no window of its own lost dates
                t.spread |= (0..n).any(|i| direct[i] != want[i] && direct[i] == d[i] && d[i].lower() != -INF && d[i].upper() != INF);
                t.rounds = t.rounds.max(rounds);
                *d = want;
                *raw = nraw;
            }
            None => {
                ensure!(!r.ok(), "{what}: accepted ({r:?}) though some instant has no supported date left");
                ensure_eq!(r, Out::Recovered, "{what}: a refusal is recovered");
                if !c.blind { slots_are(c, s, d, &format!("{what}: after the refusal"))?; }
                t.refused += 1;
                t.late_refusal |= overlap;
                t.late_line |= overlap && matches!(op, SOp::Deadline(_) | SOp::Startline(_));
            }
        }
    }
    for (k, (s, d, _)) in live.iter().enumerate() { slots_are(c, s, d, &format!("scheduler {k} at the end"))?; }
    ensure!(live.iter().all(|(s, ..)| std::ptr::eq(s.constraints(), &g)), "constraints of a scheduler");
    if !c.places.is_empty() { return Ok(()) }
    same_graph(&g, &m, "shared graph at the end")
}
fn labels(t: &Tally, o: &mut Obs) {
    o.label_if(t.refused > 0, "refusal");
    o.label_if(t.late_refusal, "refused by propagation");
    o.label_if(t.late_line, "deadline or startline refused by propagation");
    o.label_if(t.rounds > 1, "several rounds");
    o.label_if(t.forks > 0, "clones");
}
fn c21(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |_, _, _, _| Ok(()));
    o.nontrivial = t.accepted >= 2 && t.spread;
    labels(&t, o);
    r
}
fn c21_frag(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |_, _, _, _| Ok(()));
    o.nontrivial = t.rounds > 1;
    labels(&t, o);
    r
}
fn c22(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |_, _, _, _| Ok(()));
    o.nontrivial = t.after_refusal;
    labels(&t, o);
    r
}
fn c22_frag(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |_, _, _, _| Ok(()));
    o.nontrivial = t.late_refusal;
    labels(&t, o);
    r
}

// ---------------------------------------------------------------- all full assignments

fn tiny() -> BoxedStrategy<SC> {
    (2u8..=4, prop::collection::vec(0i16..8, 4)).prop_flat_map(|(n, hidden)| {
        let w = prop_oneof![
            3 => (-4i16..2, 0i16..5).prop_map(|(a, b)| W::Iv(a, b)), 1 => (-4i16..1).prop_map(W::After), 1 => (0i16..5).prop_map(W::Before),
            3 => (-6i16..1, prop::collection::vec((1u8..4, 0u8..3), 1..5)).prop_map(|(s, v)| W::Set(s, v, false, false)),
        ];
        let op = prop_oneof![6 => (0..n, w.clone()).prop_map(|(i, w)| SOp::Retain(i, w)), 2 => (0..n, w).prop_map(|(i, w)| SOp::Remove(i, w)),
            1 => (4i16..9).prop_map(SOp::Deadline), 1 => (0i16..4).prop_map(SOp::Startline)];
        (Just(n), Just(hidden), prop_oneof![graph_ks(n, false), graph_ks(n, true)], prop::collection::vec(op, 1..8)).prop_map(|(n, hidden, ks, mut ops)| {
            ops.insert(0, SOp::Startline(-1));
            ops.insert(1, SOp::Deadline(9));
            SC { unit: 1, n, base: 0, hidden, ks, ops, origin: 0, blind: false, places: vec![], size: 0 }
        })
    }).boxed()
}
/// dates used by some full assignment, for each instant
fn used(d: &[MSet], m: &Stn) -> Vec<std::collections::BTreeSet<i64>> {
    let mut acc = vec![std::collections::BTreeSet::new(); d.len()];
    fn go(d: &[MSet], m: &Stn, a: &mut Vec<i64>, acc: &mut [std::collections::BTreeSet<i64>]) {
        let j = a.len();
        if j == d.len() { for (i, x) in a.iter().enumerate() { acc[i].insert(*x); } return }
        for &(l, u) in &d[j].0 { for x in l..=u {
            let ok = (0..j).all(|i| { let (p, q) = m.span(i, j); let v = x - a[i]; (p == -INF || v >= p) && (q == INF || v <= q) });
            if ok { a.push(x); go(d, m, a, acc); a.pop(); }
        }}
    }
    go(d, m, &mut vec![], &mut acc);
    acc
}
/// The closure used as the oracle fails exactly when no full assignment exists; it keeps every
/// possible date, and exactly those when the restrictions are intervals
fn judge_model(raw: &[MSet], m: &Stn, want: &[MSet], ok: bool) -> Verdict {
    if raw.iter().any(|x| x.lower() == -INF || x.upper() == INF) { return Ok(()) }
    let acc = used(raw, m);
    let convex = raw.iter().all(|x| x.0.len() <= 1);
    let feasible = acc.iter().all(|x| !x.is_empty());
    // the least dates of supported slots always form a full assignment, so this is an equivalence
    ensure_eq!(ok, feasible, "acceptance against the existence of a full assignment");
    if ok { for (i, x) in acc.iter().enumerate() {
        ensure!(x.iter().all(|v| want[i].has(*v)), "a possible date of instant {i} is lost");
        if convex { ensure_eq!(want[i].0.iter().map(|p| p.1 - p.0 + 1).sum::<i64>() as usize, x.len(), "dates of instant {i}") }
    }}
    Ok(())
}
fn c21_tiny(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |raw, m, want, ok| judge_model(raw, m, want, ok));
    o.nontrivial = c.n >= 3 && t.spread;
    labels(&t, o);
    r
}
fn c22_tiny(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |raw, m, want, ok| judge_model(raw, m, want, ok));
    o.nontrivial = t.refused > 0;
    labels(&t, o);
    r
}

// ---------------------------------------------------------------- small scope

fn family() -> Vec<Vec<K>> {
    let k = |i, j, a, b| K { i, j, w: KSpan::Both(a, b) };
    vec![
        vec![k(0, 1, 0, 0), k(1, 2, 0, 0)],
        vec![k(0, 1, 1, 1), k(1, 2, -1, 0)],
        vec![k(0, 1, 0, 2), k(0, 2, 1, 3)],
        vec![k(1, 0, -1, 1), k(2, 1, -1, 1), k(0, 2, -1, 1)],
        vec![K { i: 0, j: 1, w: KSpan::Low(1) }, K { i: 1, j: 2, w: KSpan::Low(1) }],
        vec![K { i: 2, j: 0, w: KSpan::Up(0) }, k(0, 1, -2, -1)],
    ]
}
fn mask(b: u32) -> W {
    let mut v = vec![];
    let mut gap = 0u8;
    for x in 0..5 { if b >> x & 1 == 1 { v.push((gap, 0)); gap = 1 } else { gap += 1 } }
    W::Set(0, v, false, false)
}
fn masks(_: bool, shard: usize, n: usize, sink: &mut dyn FnMut(SC) -> bool) {
    for (gi, g) in family().into_iter().enumerate() { for a in 1..32u32 { if (a as usize + gi) % n == shard { for b in 1..32 { for c in 1..32 {
        let ops = [a, b, c].iter().enumerate().map(|(i, m)| SOp::Retain(i as u8, mask(*m))).collect();
        if !sink(SC { unit: 1, n: 3, base: 0, hidden: vec![], ks: g.clone(), ops, origin: 0, blind: false, places: vec![], size: 0 }) { return }
    }}}}}
}
fn c21_masks(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |raw, m, want, ok| judge_model(raw, m, want, ok));
    o.nontrivial = t.spread;
    r
}
fn c22_masks(c: &SC, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut t, o, &mut |raw, m, want, ok| judge_model(raw, m, want, ok));
    o.nontrivial = t.refused > 0;
    r
}
