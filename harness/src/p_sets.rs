//! C01-C08, C24: set algebra, canonical form, iterators, relations, truncation, constructors, serde.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq, on_convex, Prop};
use chronologic::iter::*;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use crate::bin;
use std::fmt::Display;

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }
fn exbox<C: CaseT>(l: ExLeg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", legs: vec![
            exbox(ExLeg { name: "small-scope", rule: "every pair of subsets of a bounded universe plus two infinite tails; non-trivial: both operands non-empty and not everything", cases: masks_pairs, check: c01_masks }),
            boxed(Leg { name: "operands", rule: "pairs of windows of every Rust kind at every scale; non-trivial: both operands non-empty and one is neither disjoint-and-apart nor equal", quick: 1_600_000, thorough: 12_000_000, strat: pair_strat, check: c01_pair }),
            boxed(Leg { name: "infinite-points", rule: "an infinite point as one of the operands: it holds no date and behaves like the empty window; non-trivial: the other operand is not empty", quick: 100_000, thorough: 2_000_000, strat: infpt_strat, check: c01_infpt }),
            boxed(Leg { name: "many-parts", rule: "pairs of sets with up to 40 parts; non-trivial: at least 3 parts on both sides", quick: 240_000, thorough: 2_000_000, strat: big_strat, check: c01_big }),
            boxed(Leg { name: "chains", rule: "folds of 3 to 12 windows with |, &, - in by-value and in-place form; non-trivial: a change of operator and a non-empty result", quick: 400_000, thorough: 3_000_000, strat: chain_strat, check: c01_chain }),
        ]},
        Prop { id: "C02", legs: vec![
            boxed(Leg { name: "histories", rule: "histories of up to 24 operations over 4 registers of sets; non-trivial: at least 4 effective operations and a register with 2 or more parts", quick: 640_000, thorough: 5_000_000, strat: hist_strat, check: c02_hist }),
        ]},
        Prop { id: "C03", legs: vec![
            boxed(Leg { name: "trees", rule: "expression trees of iterator combinators (depth up to 4) with size hints checked at every step; non-trivial: at least 2 combinators and a non-empty result", quick: 640_000, thorough: 5_000_000, strat: ex_strat, check: c03_tree }),
            exbox(ExLeg { name: "small-scope", rule: "every pair of subsets of a bounded universe plus tails through the raw combinators, with size hints; non-trivial: both operands non-empty", cases: masks_pairs_small, check: c03_masks }),
            boxed(Leg { name: "scaling", rule: "scaling and translation iterators over duration sets, integer and float factors; non-trivial: 2 or more parts", quick: 320_000, thorough: 2_000_000, strat: scal_strat, check: c03_scal }),
        ]},
        Prop { id: "C25", legs: vec![
            boxed(Leg { name: "endless", rule: "trees of union, intersection, exclusion, complementary and translation over endless and finite inputs, counting what is read; non-trivial: 2 or more windows out of 2 or more inputs", quick: 480_000, thorough: 4_000_000, strat: lz_strat, check: c25 }),
        ]},
        Prop { id: "C04", legs: vec![
            boxed(Leg { name: "collect", rule: "sequences of up to 16 intervals or sets in arbitrary order, re-collected in other orders; non-trivial: 3 or more items with at least one pair that meets", quick: 800_000, thorough: 6_000_000, strat: coll_strat, check: c04_collect }),
        ]},
        Prop { id: "C05", legs: vec![
            exbox(ExLeg { name: "small-scope", rule: "every pair of subsets of a bounded universe plus tails; non-trivial: both non-empty", cases: masks_pairs, check: c05_masks }),
            boxed(Leg { name: "operands", rule: "pairs of windows of every Rust kind; non-trivial: both non-empty and overlapping hulls", quick: 1_600_000, thorough: 12_000_000, strat: pair_strat, check: c05_pair }),
        ]},
        Prop { id: "C06", legs: vec![
            boxed(Leg { name: "operands", rule: "pairs of windows of every Rust kind, biased to equal and touching ones; non-trivial: equal, ordered or touching, both non-empty", quick: 1_600_000, thorough: 12_000_000, strat: cmp_strat, check: c06_pair }),
            exbox(ExLeg { name: "small-scope", rule: "every pair of subsets of a small universe plus tails; non-trivial: both non-empty", cases: masks_pairs_small, check: c06_masks }),
        ]},
        Prop { id: "C07", legs: vec![
            boxed(Leg { name: "cuts", rule: "windows and cut points (around every bound, between parts, infinite); non-trivial: the cut removes some but not all points", quick: 1_200_000, thorough: 9_000_000, strat: cut_strat, check: c07_cut }),
        ]},
        Prop { id: "C08", legs: vec![
            boxed(Leg { name: "constructors", rule: "every constructor on finite, infinite, equal, inverted bounds; non-trivial: non-empty result", quick: 800_000, thorough: 6_000_000, strat: cons_strat, check: c08_cons }),
            boxed(Leg { name: "queries", rule: "every query on windows of every kind; non-trivial: non-empty", quick: 800_000, thorough: 6_000_000, strat: query_strat, check: c08_query }),
        ]},
        Prop { id: "C24", legs: vec![
            boxed(Leg { name: "json", rule: "time values, timestamps, intervals and sets written to JSON (text, tree, indented, reader, in containers) and to a binary format, and read back; non-trivial: a set with 2 or more parts or an infinite bound", quick: 480_000, thorough: 3_000_000, strat: query_strat, check: c24_json }),
        ]},
    ]
}

// ---------------------------------------------------------------- small scope

const BASE: i64 = 100;
/// bit 0: everything below BASE; bits 1..=n: ticks BASE..BASE+n-1; bit n+1: everything above
fn mask_model(m: u32, n: u32) -> MSet {
    let mut v = vec![];
    if m & 1 != 0 { v.push((-INF, BASE - 1)) }
    for k in 0..n { if m >> (k + 1) & 1 != 0 { v.push((BASE + k as i64, BASE + k as i64)) } }
    if m >> (n + 1) & 1 != 0 { v.push((BASE + n as i64, INF)) }
    MSet::norm(v)
}
fn parts_mask<W: TimeWindow<TimePoint = TimeValue>>(w: &W, n: u32) -> Result<u32, String> {
    // canonical parts of a window whose bounds lie in the universe, as a mask
    let mut m = 0u32;
    let mut prev: Option<i64> = None;
    let mut count = 0usize;
    for i in w.iter().take(64) {
        count += 1;
        let (l, u) = iv_parts(i);
        ensure!(l <= u && l != INF && u != -INF, "inverted or empty part {:?}", (l, u));
        if let Some(p) = prev { ensure!(p != INF && p + 1 < l, "parts not separated: {p} then {l}") }
        prev = Some(u);
        let lo = if l == -INF { 0 } else { ensure!(l >= BASE && l <= BASE + n as i64, "foreign bound {l}"); (l - BASE + 1) as u32 };
        let hi = if u == INF { n + 1 } else { ensure!(u >= BASE - 1 && u < BASE + n as i64, "foreign bound {u}"); (u - BASE + 1) as u32 };
        for b in lo..=hi { m |= 1 << b }
    }
    ensure_eq!(w.convex_count(), count, "convex_count");
    ensure_eq!(w.is_empty(), m == 0, "is_empty");
    Ok(m)
}
fn all_pairs(bits: u32, shard: usize, n: usize, sink: &mut dyn FnMut((u16, u16, u8)) -> bool) {
    let tot = 1u32 << bits;
    let mut a = shard as u32;
    while a < tot {
        for b in 0..tot { if !sink((a as u16, b as u16, (bits - 2) as u8)) { return } }
        a += n as u32;
    }
}
fn masks_pairs(thorough: bool, shard: usize, n: usize, sink: &mut dyn FnMut((u16, u16, u8)) -> bool) {
    all_pairs(if thorough { 11 } else { 9 }, shard, n, sink)
}
fn masks_pairs_small(thorough: bool, shard: usize, n: usize, sink: &mut dyn FnMut((u16, u16, u8)) -> bool) {
    all_pairs(if thorough { 11 } else { 9 }, shard, n, sink)
}
fn nontrivial_mask(a: u32, n: u32) -> bool { a != 0 && a != (1 << (n + 2)) - 1 }

fn c01_masks(c: &(u16, u16, u8), o: &mut Obs) -> Verdict {
    let (ma, mb, n) = (c.0 as u32, c.1 as u32, c.2 as u32);
    let full = (1u32 << (n + 2)) - 1;
    let a: TimeSpans = set(&mask_model(ma, n));
    let b: TimeSpans = set(&mask_model(mb, n));
    ensure_eq!(parts_mask(&a, n)?, ma, "building {ma:b}");
    ensure_eq!(parts_mask(&(&a | &b), n).map_err(|e| format!("union: {e}"))?, ma | mb, "union");
    ensure_eq!(parts_mask(&(&a & &b), n).map_err(|e| format!("intersection: {e}"))?, ma & mb, "intersection");
    if mb == 0 { ensure_eq!(parts_mask(&!a.clone(), n).map_err(|e| format!("complement: {e}"))?, full & !ma, "complement"); }
    ensure_eq!(parts_mask(&(&a & !b.clone()), n).map_err(|e| format!("difference: {e}"))?, ma & !mb & full, "difference");
    // interval forms when an operand is convex
    if b.convex_count() <= 1 {
        let i = b.iter().next().unwrap_or(TimeSpan::empty());
        ensure_eq!(parts_mask(&(&a | i), n).map_err(|e| format!("set | interval: {e}"))?, ma | mb, "set | interval");
        ensure_eq!(parts_mask(&(&a & i), n).map_err(|e| format!("set & interval: {e}"))?, ma & mb, "set & interval");
        let mut x = a.clone(); x &= i;
        ensure_eq!(parts_mask(&x, n).map_err(|e| format!("set &= interval: {e}"))?, ma & mb, "set &= interval");
        let mut x = a.clone(); x |= i;
        ensure_eq!(parts_mask(&x, n).map_err(|e| format!("set |= interval: {e}"))?, ma | mb, "set |= interval");
        if a.convex_count() <= 1 {
            let h = a.iter().next().unwrap_or(TimeSpan::empty());
            ensure_eq!(parts_mask(&(h | i), n).map_err(|e| format!("interval | interval: {e}"))?, ma | mb, "interval | interval");
            ensure_eq!(parts_mask(&(h & i), n).map_err(|e| format!("interval & interval: {e}"))?, ma & mb, "interval & interval");
            if mb == 0 { ensure_eq!(parts_mask(&!h, n).map_err(|e| format!("!interval: {e}"))?, full & !ma, "!interval"); }
        }
    }
    o.nontrivial = nontrivial_mask(ma, n) && nontrivial_mask(mb, n);
    Ok(())
}
fn c05_masks(c: &(u16, u16, u8), o: &mut Obs) -> Verdict {
    let (ma, mb, n) = (c.0 as u32, c.1 as u32, c.2 as u32);
    let a: TimeSpans = set(&mask_model(ma, n));
    let b: TimeSpans = set(&mask_model(mb, n));
    ensure_eq!(a.contains(&b), mb & !ma == 0, "set contains set");
    ensure_eq!(a.overlaps(&b), ma & mb != 0, "set overlaps set");
    if b.convex_count() <= 1 {
        let i = b.iter().next().unwrap_or(TimeSpan::empty());
        ensure_eq!(a.contains(&i), mb & !ma == 0, "set contains interval");
        ensure_eq!(a.overlaps(&i), ma & mb != 0, "set overlaps interval");
        ensure_eq!(i.overlaps(&a), ma & mb != 0, "interval overlaps set");
        ensure_eq!(i.contains(&a), ma & !mb == 0, "interval contains set");
    }
    o.nontrivial = ma != 0 && mb != 0;
    Ok(())
}
fn c06_masks(c: &(u16, u16, u8), o: &mut Obs) -> Verdict {
    let (ma, mb, n) = (c.0 as u32, c.1 as u32, c.2 as u32);
    let (xa, xb) = (mask_model(ma, n), mask_model(mb, n));
    let a: TimeSpans = set(&xa);
    let b: TimeSpans = set(&xb);
    cmp_all(&a, &b, &xa, &xb, "set, set")?;
    if a.convex_count() <= 1 { cmp_all(&a.iter().next().unwrap_or(TimeSpan::empty()), &b, &xa, &xb, "interval, set")?; }
    o.nontrivial = ma != 0 && mb != 0;
    Ok(())
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PairC { s: Scene, dates: bool, a: Win, b: Win }
fn pair_strat() -> BoxedStrategy<PairC> {
    prop_oneof![
        30 => (scene(), any::<bool>(), win(), win()).prop_map(|(s, dates, a, b)| PairC { s, dates, a, b }),
        3 => near_pair(setc(4)), 1 => near_pair(walk(-120..8, 5, 70)),
    ].boxed()
}
fn near_pair(parts: BoxedStrategy<SetC>) -> BoxedStrategy<PairC> {
    (scene(), any::<bool>(), near(parts), any::<bool>()).prop_map(|(s, dates, (a, b), swap)| if swap { PairC { s, dates, a: b, b: a } } else { PairC { s, dates, a, b } }).boxed()
}

macro_rules! by_type {
    ($dates:expr, $f:ident ( $($a:expr),* )) => { if $dates { $f::<Timestamp>($($a),*) } else { $f::<TimeValue>($($a),*) } };
}

fn c01_pair(c: &PairC, o: &mut Obs) -> Verdict { by_type!(c.dates, c01_pair_t(c, o)) }

/// left operand: point, interval or set; right operand: any convex type
fn ops_convex<T: P, W: TimeConvex<TimePoint = T> + Clone>(a: &Win, s: Scene, ma: &MSet, b: W, mb: &MSet, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>
{
    let (u, i) = (ma.union(mb), ma.inter(mb));
    match a {
        Win::Set(_) => {
            let x: TimeSet<T> = set(ma);
            expect_set(&(x.clone() | b.clone()), &u, "set | convex")?;
            expect_set(&(&x | b.clone()), &u, "&set | convex")?;
            expect_set(&(x.clone() & b.clone()), &i, "set & convex")?;
            expect_set(&(&x & b.clone()), &i, "&set & convex")?;
            let mut y = x.clone(); y |= b.clone(); expect_set(&y, &u, "set |= convex")?;
            let mut y = x; y &= b; expect_set(&y, &i, "set &= convex")?;
            o.steps += 6;
        }
        Win::Pt(c) => {
            let p = T::mk(s.at(*c));
            expect_set(&p.por(b.clone()), &u, "point | convex")?;
            expect_iv(&p.pand(b), &i, "point & convex")?;
            o.steps += 2;
        }
        _ => {
            let x: TimeInterval<T> = as_iv(a, s);
            expect_set(&(x | b.clone()), &u, "interval | convex")?;
            expect_set(&(&x | b.clone()), &u, "&interval | convex")?;
            expect_iv(&(x & b.clone()), &i, "interval & convex")?;
            expect_iv(&(&x & b.clone()), &i, "&interval & convex")?;
            let mut y = x; y &= b; expect_iv(&y, &i, "interval &= convex")?;
            o.steps += 5;
        }
    }
    Ok(())
}
fn compl_of<T: P>(a: &Win, s: Scene, ma: &MSet) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    match a {
        Win::Set(_) => expect_set(&!set::<T>(ma), &ma.compl(), "!set"),
        Win::Pt(c) => expect_set(&!T::mk(s.at(*c)), &ma.compl(), "!point"),
        _ => { let x: TimeInterval<T> = as_iv(a, s); expect_set(&!x, &ma.compl(), "!interval") }
    }
}
fn ops_sets<T: P>(x: TimeSet<T>, y: TimeSet<T>, ma: &MSet, mb: &MSet, o: &mut Obs) -> Verdict {
    let (u, i) = (ma.union(mb), ma.inter(mb));
    expect_set(&(x.clone() | y.clone()), &u, "set | set")?;
    expect_set(&(&x | &y), &u, "&set | &set")?;
    expect_set(&(&x | y.clone()), &u, "&set | set")?;
    expect_set(&(x.clone() | &y), &u, "set | &set")?;
    expect_set(&(x.clone() & y.clone()), &i, "set & set")?;
    expect_set(&(&x & &y), &i, "&set & &set")?;
    expect_set(&(&x & y.clone()), &i, "&set & set")?;
    expect_set(&(x.clone() & &y), &i, "set & &set")?;
    let mut z = x.clone(); z |= y.clone(); expect_set(&z, &u, "set |= set")?;
    let mut z = x.clone(); z |= &y; expect_set(&z, &u, "set |= &set")?;
    let mut z = x.clone(); z &= y.clone(); expect_set(&z, &i, "set &= set")?;
    let mut z = x.clone(); z &= &y; expect_set(&z, &i, "set &= &set")?;
    let d = &x & !y;
    expect_set(&d, &ma.diff(mb), "set & !set")?;
    o.steps += 13;
    Ok(())
}
fn c01_pair_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let (ma, mb) = (c.a.model(c.s), c.b.model(c.s));
    observe_pair(&ma, &mb, o);
    compl_of::<T>(&c.a, c.s, &ma)?;
    on_convex!(&c.b, c.s, T, |x| ops_convex::<T, _>(&c.a, c.s, &ma, x, &mb, o)?, {
        ops_sets::<T>(as_set(&c.a, c.s), as_set(&c.b, c.s), &ma, &mb, o)?
    });
    Ok(())
}
fn infpt_strat() -> BoxedStrategy<PairC> {
    let p = || prop::sample::select(vec![Win::Pt(PINF), Win::Pt(MINF)]);
    (scene(), any::<bool>(), win(), p(), p(), 0u8..9).prop_map(|(s, dates, w, p, q, k)| {
        let (a, b) = match k { 0..4 => (w, p), 4..8 => (p, w), _ => (p, q) };
        PairC { s, dates, a, b }
    }).boxed()
}
fn c01_infpt(c: &PairC, o: &mut Obs) -> Verdict {
    let r = c01_pair(c, o);
    o.nontrivial = !c.a.model(c.s).is_empty() || !c.b.model(c.s).is_empty();
    r
}
fn observe_pair(ma: &MSet, mb: &MSet, o: &mut Obs) {
    let both = !ma.is_empty() && !mb.is_empty();
    let touch = ma.union(mb).0.len() < ma.0.len() + mb.0.len();
    o.nontrivial_if(both && touch && ma != mb);
    o.label_if(ma.is_empty() || mb.is_empty(), "an empty operand");
    o.label_if(both && ma.inter(mb).is_empty() && touch, "adjacent, not overlapping");
    o.label_if(both && ma.inter(mb).is_empty(), "disjoint");
    o.label_if(ma.0.iter().chain(&mb.0).any(|p| p.0 == -INF || p.1 == INF), "unbounded");
    o.label_if(ma.0.len() > 1 && mb.0.len() > 1, "two multi-part sets");
    o.label_if(both && (ma.subset_of(mb) || mb.subset_of(ma)), "nested");
}

fn big_strat() -> BoxedStrategy<PairC> {
    let sets = (scene(), any::<bool>(), setc(40), setc(40)).prop_map(|(s, dates, a, b)| PairC { s, dates, a: Win::Set(a), b: Win::Set(b) });
    prop_oneof![4 => sets.boxed(), 1 => near_pair(setc(40))].prop_map(|mut c| {
        // up to 700 coordinates: keep them inside the range
        c.s.base = c.s.base.clamp(-(1 << 61), 1 << 61);
        c
    }).boxed()
}
fn c01_big(c: &PairC, o: &mut Obs) -> Verdict { by_type!(c.dates, c01_big_t(c, o)) }
fn c01_big_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict {
    let (ma, mb) = (c.a.model(c.s), c.b.model(c.s));
    let (x, y): (TimeSet<T>, TimeSet<T>) = (set(&ma), set(&mb));
    expect_set(&(&x | &y), &ma.union(&mb), "&set | &set")?;
    expect_set(&(&x & &y), &ma.inter(&mb), "&set & &set")?;
    expect_set(&!x.clone(), &ma.compl(), "!set")?;
    let mut z = x; z &= !y;
    expect_set(&z, &ma.diff(&mb), "set &= !set")?;
    o.nontrivial = ma.0.len() >= 3 && mb.0.len() >= 3;
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ChainC { s: Scene, dates: bool, first: SetC, ops: Vec<(u8, Win)> }
fn chain_strat() -> BoxedStrategy<ChainC> {
    (scene(), any::<bool>(), setc(4), prop::collection::vec((0u8..6, win()), 2..12))
        .prop_map(|(s, dates, first, ops)| ChainC { s, dates, first, ops }).boxed()
}
fn c01_chain(c: &ChainC, o: &mut Obs) -> Verdict { by_type!(c.dates, c01_chain_t(c, o)) }
fn c01_chain_t<T: P>(c: &ChainC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let mut m = c.first.model(c.s);
    let mut x: TimeSet<T> = set(&m);
    let mut kinds = 0u8;
    for (k, (op, w)) in c.ops.iter().enumerate() {
        let mw = w.model(c.s);
        kinds |= 1 << (op / 2);
        let y: TimeSet<T> = as_set(w, c.s);
        match op {
            0 => { x = on_convex!(w, c.s, T, |z| x | z, x | y); m = m.union(&mw) }
            1 => { on_convex!(w, c.s, T, |z| x |= z, x |= &y); m = m.union(&mw) }
            2 => { x = on_convex!(w, c.s, T, |z| x & z, &x & &y); m = m.inter(&mw) }
            3 => { on_convex!(w, c.s, T, |z| x &= z, x &= y); m = m.inter(&mw) }
            4 => { x = x & !y; m = m.diff(&mw) }
            _ => { x &= !y; m = m.diff(&mw) }
        }
        expect_set(&x, &m, &format!("after operation {k}"))?;
        o.step();
    }
    o.nontrivial = kinds.count_ones() > 1 && !m.is_empty();
    o.label_if(kinds.count_ones() > 2, "all three operators");
    Ok(())
}

// ---------------------------------------------------------------- C02: histories

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum HOp {
    Or(u8, u8), And(u8, u8), Not(u8), Diff(u8, u8),
    OrW(u8, Win), AndW(u8, Win), OrIv(u8, i64, i64), AndIv(u8, i64, i64),
    AddT(u8, i64), SubT(u8, i64), AddSpan(u8, i64, i64), SubSpan(u8, i64, i64), AddSet(u8, u8), SubSet(u8, u8),
    Mul(u8, i8), Div(u8, i8), MulF(u8, i8), DivF(u8, i8), Neg(u8),
    Before(u8, i64), After(u8, i64), Recollect(u8, u8), Singleton(u8, i64), Convex(u8, i64, i64),
    Const(u8, u8), Copy(u8, u8), Json(u8), Iters(u8, u8, u8), Shrink(u8),
    /// a union of two operands of any type; the complement of one; a set made of one
    OrPair(u8, Win, Win), NotW(u8, Win), FromW(u8, Win),
    /// a date minus or plus a set of durations (and the other way round); registers collected as sets
    About(u8, i64, u8, u8), Gather(u8, u8, u8),
    /// a factor on the left; the lazy translation and scaling
    LeftMul(u8, i8), LazyT(u8, i64), LazySpan(u8, i64, i64), LazyMul(u8, i8),
    /// an operand whose bounds are next to some of the register's own: union, intersection, difference, cuts
    Near(u8, (u8, i8), (u8, i8), u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HistC { dates: bool, s: Scene, init: Vec<SetC>, ops: Vec<(bool, HOp)> }

fn small() -> BoxedStrategy<i64> { prop_oneof![4 => -12i64..60, 1 => -200i64..200].boxed() }
fn cutpt() -> BoxedStrategy<i64> { prop_oneof![6 => small(), 1 => Just(INF), 1 => Just(-INF)].boxed() }
fn hop() -> BoxedStrategy<HOp> {
    let r = || 0u8..4;
    prop_oneof![
        3 => (r(), r()).prop_map(|(a, b)| HOp::Or(a, b)),
        3 => (r(), r()).prop_map(|(a, b)| HOp::And(a, b)),
        2 => r().prop_map(HOp::Not),
        4 => (r(), (any::<u8>(), -2i8..3), (any::<u8>(), -2i8..3), 0u8..7).prop_map(|(a, i, j, k)| HOp::Near(a, i, j, k)),
        2 => (r(), r()).prop_map(|(a, b)| HOp::Diff(a, b)),
        2 => (r(), win()).prop_map(|(a, w)| HOp::OrW(a, w)),
        1 => (r(), win()).prop_map(|(a, w)| HOp::AndW(a, w)),
        2 => (r(), small(), -2i64..9).prop_map(|(a, l, d)| HOp::OrIv(a, l, l + d)),
        1 => (r(), small(), -2i64..30).prop_map(|(a, l, d)| HOp::AndIv(a, l, l + d)),
        1 => (r(), small()).prop_map(|(a, t)| HOp::AddT(a, t)),
        1 => (r(), small()).prop_map(|(a, t)| HOp::SubT(a, t)),
        1 => (r(), small(), 0i64..5).prop_map(|(a, l, d)| HOp::AddSpan(a, l, l + d)),
        1 => (r(), small(), 0i64..5).prop_map(|(a, l, d)| HOp::SubSpan(a, l, l + d)),
        1 => (r(), r()).prop_map(|(a, b)| HOp::AddSet(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| HOp::SubSet(a, b)),
        1 => (r(), -3i8..4).prop_map(|(a, n)| HOp::Mul(a, n)),
        2 => (r(), prop_oneof![-5i8..0, 1i8..6]).prop_map(|(a, n)| HOp::Div(a, n)),
        1 => (r(), -3i8..4).prop_map(|(a, n)| HOp::MulF(a, n)),
        1 => (r(), -3i8..4).prop_map(|(a, n)| HOp::DivF(a, n)),
        1 => r().prop_map(HOp::Neg),
        1 => (r(), cutpt()).prop_map(|(a, t)| HOp::Before(a, t)),
        1 => (r(), cutpt()).prop_map(|(a, t)| HOp::After(a, t)),
        1 => (r(), any::<u8>()).prop_map(|(a, k)| HOp::Recollect(a, k)),
        1 => (r(), cutpt()).prop_map(|(a, t)| HOp::Singleton(a, t)),
        1 => (r(), cutpt(), cutpt()).prop_map(|(a, t, u)| HOp::Convex(a, t, u)),
        1 => (r(), 0u8..3).prop_map(|(a, k)| HOp::Const(a, k)),
        1 => (r(), r()).prop_map(|(a, b)| HOp::Copy(a, b)),
        1 => r().prop_map(HOp::Json),
        1 => (r(), r(), 0u8..4).prop_map(|(a, b, k)| HOp::Iters(a, b, k)),
        1 => r().prop_map(HOp::Shrink),
        3 => (r(), nearpair()).prop_map(|(a, (v, w))| HOp::OrPair(a, v, w)),
        1 => (r(), prop_oneof![2 => convexwin(), 1 => win()]).prop_map(|(a, w)| HOp::NotW(a, w)),
        1 => (r(), convexwin()).prop_map(|(a, w)| HOp::FromW(a, w)),
        1 => (r(), small(), r(), 0u8..4).prop_map(|(a, t, b, k)| HOp::About(a, t, b, k)),
        1 => (r(), r(), r()).prop_map(|(a, b, c)| HOp::Gather(a, b, c)),
        1 => (r(), -3i8..4).prop_map(|(a, n)| HOp::LeftMul(a, n)),
        1 => (r(), small()).prop_map(|(a, t)| HOp::LazyT(a, t)),
        1 => (r(), small(), 0i64..5).prop_map(|(a, l, d)| HOp::LazySpan(a, l, l + d)),
        1 => (r(), -3i8..4).prop_map(|(a, n)| HOp::LazyMul(a, n)),
    ].boxed()
}
/// two operands, which often touch, overlap or just miss each other
fn nearpair() -> BoxedStrategy<(Win, Win)> {
    prop_oneof![
        2 => (win(), win()),
        3 => (0i16..30, 0i16..8, -2i16..4, 0i16..8, any::<bool>(), 0u8..5).prop_map(|(a, l, gap, m, swap, k)| {
            let (x, y) = ((a, a + l), (a + l + gap, a + l + gap + m));
            let (x, y) = if swap { (y, x) } else { (x, y) };
            let v = if x.0 == x.1 && k & 1 == 1 { Win::Pt(x.0) } else { Win::Iv(x.0, x.1) };
            let w = match k { 0 => Win::R(y.0, y.1), 1 => Win::RI(y.0, y.1), 2 if y.0 == y.1 => Win::Pt(y.0), 3 => if swap { Win::RTI(y.1) } else { Win::RF(y.0) }, _ => Win::Iv(y.0, y.1) };
            (v, w)
        }),
    ].boxed()
}
fn hist_strat() -> BoxedStrategy<HistC> {
    (any::<bool>(), prop_oneof![6 => Just(Scene::UNIT), 2 => small_scene(), 1 => scene()], prop::collection::vec(setc(4), 4), prop::collection::vec((any::<bool>(), hop()), 1..24))
        .prop_map(|(dates, s, init, ops)| HistC { dates, s, init, ops }).boxed()
}

const LIM: i64 = 1 << 61;
fn c02_hist(c: &HistC, o: &mut Obs) -> Verdict { by_type!(c.dates, c02_hist_t(c, o)) }
fn c02_hist_t<T: P + Hist>(c: &HistC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let s = c.s;
    let mut m: Vec<MSet> = c.init.iter().map(|x| x.model(s)).collect();
    let mut x: Vec<TimeSet<T>> = m.iter().map(set).collect();
    let (mut eff, mut maxparts) = (0, 0);
    for (k, (inplace, op)) in c.ops.iter().enumerate() {
        let before = m.clone();
        // the new model value of a register, or None when the step is outside the domain
        let (r, nm): (usize, Option<MSet>) = match op {
            HOp::Or(a, b) => (*a as usize, Some(m[*a as usize].union(&m[*b as usize]))),
            HOp::And(a, b) => (*a as usize, Some(m[*a as usize].inter(&m[*b as usize]))),
            HOp::Not(a) => (*a as usize, Some(m[*a as usize].compl())),
            HOp::Diff(a, b) => (*a as usize, Some(m[*a as usize].diff(&m[*b as usize]))),
            HOp::OrW(a, w) => (*a as usize, Some(m[*a as usize].union(&w.model(s)))),
            HOp::AndW(a, w) => (*a as usize, Some(m[*a as usize].inter(&w.model(s)))),
            HOp::OrIv(a, l, u) => (*a as usize, Some(m[*a as usize].union(&MSet::iv(*l, *u)))),
            HOp::AndIv(a, l, u) => (*a as usize, Some(m[*a as usize].inter(&MSet::iv(*l, *u)))),
            HOp::AddT(a, t) => (*a as usize, m[*a as usize].plus(&MSet::pt(*t))),
            HOp::SubT(a, t) => (*a as usize, m[*a as usize].minus(&MSet::pt(*t))),
            HOp::AddSpan(a, l, u) => (*a as usize, m[*a as usize].plus(&MSet::iv(*l, *u))),
            HOp::SubSpan(a, l, u) => (*a as usize, m[*a as usize].minus(&MSet::iv(*l, *u))),
            HOp::AddSet(a, b) => (*a as usize, T::span_model(&m[*b as usize]).and_then(|b| m[*a as usize].plus(b))),
            HOp::SubSet(a, b) => (*a as usize, T::span_model(&m[*b as usize]).and_then(|b| m[*a as usize].minus(b))),
            HOp::Mul(a, n) => (*a as usize, T::scaled(&m[*a as usize], *n as i64, 1)),
            HOp::Div(a, n) => (*a as usize, T::scaled(&m[*a as usize], 1, *n as i64)),
            HOp::MulF(a, n) => (*a as usize, T::floated(&m[*a as usize], *n, false)),
            HOp::DivF(a, n) => (*a as usize, if *n == 0 { None } else { T::floated(&m[*a as usize], *n, true) }),
            HOp::Neg(a) => (*a as usize, Some(m[*a as usize].neg())),
            HOp::Before(a, t) => (*a as usize, Some(m[*a as usize].trunc_before(*t))),
            HOp::After(a, t) => (*a as usize, Some(m[*a as usize].trunc_after(*t))),
            HOp::Recollect(a, _) | HOp::Json(a) | HOp::Shrink(a) => (*a as usize, Some(m[*a as usize].clone())),
            HOp::Singleton(a, t) => (*a as usize, Some(MSet::pt(*t).inter(&MSet::iv(-INF + 1, INF - 1)))),
            HOp::Convex(a, l, u) => (*a as usize, Some(MSet::iv(*l, *u))),
            HOp::Const(a, k) => (*a as usize, Some(if *k == 0 { MSet::empty() } else { MSet::all() })),
            HOp::Near(a, i, j, k) => { let m = &m[*a as usize]; let (l, u) = near_iv(m, *i, *j);
                (*a as usize, Some(match k { 0 | 1 => m.union(&MSet::iv(l, u)), 2 => m.inter(&MSet::iv(l, u)), 3 | 4 => m.diff(&MSet::iv(l, u)), 5 => m.trunc_before(l), _ => m.trunc_after(l) })) }
            HOp::Copy(a, b) => (*a as usize, Some(m[*b as usize].clone())),
            HOp::OrPair(a, v, w) => (*a as usize, Some(v.model(s).union(&w.model(s)))),
            HOp::NotW(a, w) => (*a as usize, Some(w.model(s).compl())),
            HOp::FromW(a, w) => (*a as usize, Some(w.model(s))),
            HOp::About(a, t, b, k) => (*a as usize, if !T::DATES { None } else { let (p, y) = (MSet::pt(*t), &m[*b as usize]); match k { 0 => p.minus(y), 1 | 2 => p.plus(y), _ => y.minus(&p) } }),
            HOp::Gather(a, b, c) => (*a as usize, Some(m[*a as usize].union(&m[*b as usize]).union(&m[*c as usize]))),
            HOp::LeftMul(a, n) | HOp::LazyMul(a, n) => (*a as usize, T::scaled(&m[*a as usize], *n as i64, 1)),
            HOp::LazyT(a, t) => (*a as usize, m[*a as usize].plus(&MSet::pt(*t))),
            HOp::LazySpan(a, l, u) => (*a as usize, m[*a as usize].plus(&MSet::iv(*l, *u))),
            HOp::Iters(a, b, k) => { let (p, q) = (&m[*a as usize], &m[*b as usize]);
                (*a as usize, Some(match k { 0 => p.union(q), 1 => p.inter(q), 2 => p.compl(), _ => p.diff(q) })) }
        };
        let Some(nm) = nm else { continue };
        // the arithmetic at the ends of the range is for C10 and C11
        if op.arithmetic() && (!nm.in_range(LIM) || !m.iter().all(|m| m.in_range(LIM))) || nm.0.len() > 400 { continue }
        let cur = x[r].clone();
        let nx: TimeSet<T> = match op {
            HOp::Or(_, b) => { let y = &x[*b as usize]; if *inplace { let mut z = cur; z |= y; z } else { cur | y.clone() } }
            HOp::And(_, b) => { let y = &x[*b as usize]; if *inplace { let mut z = cur; z &= y; z } else { &cur & y } }
            HOp::Not(_) => !cur,
            HOp::Diff(_, b) => { let y = !x[*b as usize].clone(); if *inplace { let mut z = cur; z &= y; z } else { cur & y } }
            HOp::OrW(_, w) => { let y: TimeSet<T> = as_set(w, s); if *inplace { let mut z = cur; on_convex!(w, s, T, |v| z |= v, z |= y); z } else { on_convex!(w, s, T, |v| cur | v, cur | y) } }
            HOp::AndW(_, w) => { let y: TimeSet<T> = as_set(w, s); if *inplace { let mut z = cur; on_convex!(w, s, T, |v| z &= v, z &= y); z } else { on_convex!(w, s, T, |v| cur & v, cur & y) } }
            HOp::OrIv(_, l, u) => { let i = TimeInterval::new(T::mk(*l), T::mk(*u)); if *inplace { let mut z = cur; z |= i; z } else { cur | i } }
            HOp::AndIv(_, l, u) => { let i = TimeInterval::new(T::mk(*l), T::mk(*u)); if *inplace { let mut z = cur; z &= i; z } else { cur & i } }
            HOp::AddT(_, t) => { if *inplace { let mut z = cur; z += tv(*t); z } else { cur + tv(*t) } }
            HOp::SubT(_, t) => { if *inplace { let mut z = cur; z -= tv(*t); z } else { cur - tv(*t) } }
            HOp::AddSpan(_, l, u) => { let i = TimeInterval::new(tv(*l), tv(*u)); if *inplace { let mut z = cur; z += i; z } else { cur + i } }
            HOp::SubSpan(_, l, u) => { let i = TimeInterval::new(tv(*l), tv(*u)); if *inplace { let mut z = cur; z -= i; z } else { cur - i } }
            HOp::AddSet(_, b) => { let y = set::<TimeValue>(&m[*b as usize]); if *inplace { let mut z = cur; z += y; z } else { cur + y } }
            HOp::SubSet(_, b) => { let y = set::<TimeValue>(&m[*b as usize]); if *inplace { let mut z = cur; z -= y; z } else { cur - y } }
            HOp::Mul(_, n) => T::mul(cur, *n, *inplace),
            HOp::Div(_, n) => T::div(cur, *n, *inplace),
            HOp::MulF(_, n) => T::mulf(cur, *n, false, *inplace),
            HOp::DivF(_, n) => T::mulf(cur, *n, true, *inplace),
            HOp::Neg(_) => -cur,
            HOp::Before(_, t) => { let mut z = cur; let f = z.truncate_before(T::mk(*t)); ensure_eq!(f, nm != m[r], "step {k}: truncate_before flag"); z }
            HOp::After(_, t) => { let mut z = cur; let f = z.truncate_after(T::mk(*t)); ensure_eq!(f, nm != m[r], "step {k}: truncate_after flag"); z }
            HOp::Recollect(_, k) => { let mut v: Vec<_> = cur.iter().collect(); if !v.is_empty() { let n = *k as usize % v.len(); v.rotate_left(n) } if k & 1 == 1 { v.reverse() } v.into_iter().collect() }
            HOp::Singleton(_, t) => TimeSet::singleton(T::mk(*t)),
            HOp::Convex(_, l, u) => TimeSet::convex(T::mk(*l), T::mk(*u)),
            HOp::Const(_, k) => match k { 0 => TimeSet::empty(), 1 => TimeSet::all(), _ => TimeInterval::<T>::from(..).into() },
            HOp::Near(_, i, j, k) => {
                let (l, u) = near_iv(&m[r], *i, *j);
                let (i, mut z) = (TimeInterval::new(T::mk(l), T::mk(u)), cur);
                match k {
                    0 | 1 => if *inplace { z |= i } else { z = z | i },
                    2 => if *inplace { z &= i } else { z = z & i },
                    3 | 4 => if *inplace { z &= !i } else { z = z & !i },
                    5 => ensure_eq!(z.truncate_before(T::mk(l)), nm != m[r], "step {k}: truncate_before flag"),
                    _ => ensure_eq!(z.truncate_after(T::mk(l)), nm != m[r], "step {k}: truncate_after flag"),
                }
                z
            }
            HOp::Copy(_, b) => if *inplace { let mut z = cur; z.clone_from(&x[*b as usize]); z } else { x[*b as usize].clone() },
            HOp::Json(_) => serde_json::from_str(&serde_json::to_string(&cur).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
            HOp::Shrink(_) => { let mut z = cur; z.shrink_to_fit(); z }
            HOp::OrPair(_, v, w) => match (v, w) {
                (Win::Pt(c), w) if !w.is_set() => { let p = T::mk(s.at(*c)); on_convex!(w, s, T, |y| p.por(y), unreachable!()) }
                (v, Win::Pt(c)) => { let p = T::mk(s.at(*c)); if v.is_set() { as_set::<T>(v, s) | p } else { as_iv::<T>(v, s) | p } }
                (v, w) if !v.is_set() => { let i: TimeInterval<T> = as_iv(v, s); if *inplace { on_convex!(w, s, T, |y| &i | y, as_set::<T>(w, s) | i) } else { on_convex!(w, s, T, |y| i | y, as_set::<T>(w, s) | i) } }
                (v, w) => { let z: TimeSet<T> = as_set(v, s); on_convex!(w, s, T, |y| &z | y, &z | as_set::<T>(w, s)) }
            },
            HOp::NotW(_, w) => match w {
                Win::Set(_) => !as_set::<T>(w, s),
                Win::Pt(c) => !T::mk(s.at(*c)),
                _ => !as_iv::<T>(w, s),
            },
            HOp::FromW(_, w) => on_convex!(w, s, T, |y| TimeSet::from(y), unreachable!()),
            HOp::About(_, t, b, k) => T::about(*t, set::<TimeValue>(&m[*b as usize]), *k),
            HOp::Gather(a, b, c) => [a, b, c].map(|q| x[*q as usize].clone()).into_iter().collect(),
            HOp::LeftMul(_, n) => T::lmul(cur, *n),
            HOp::LazyT(_, t) => cur.iter().translation(tv(*t)).collect(),
            HOp::LazySpan(_, l, u) => cur.iter().translation(&TimeInterval::new(tv(*l), tv(*u))).collect(),
            HOp::LazyMul(_, n) => T::lazymul(cur, *n),
            HOp::Iters(_, b, k) => { let y = &x[*b as usize]; match k {
                0 => cur.iter().union(y.iter()).collect(), 1 => cur.iter().intersection(y.iter()).collect(),
                2 => cur.iter().complementary().collect(), _ => cur.iter().exclusion(y.iter()).collect() } }
        };
        expect_set(&nx, &nm, &format!("step {k} {op:?}"))?;
        maxparts = maxparts.max(nm.0.len());
        let fresh: TimeSet<T> = set(&nm);
        ensure!(nx == fresh && fresh == nx, "step {k} {op:?}: not equal to the same points collected afresh");
        ensure_eq!(hash_of(&nx), hash_of(&fresh), "step {k} {op:?}: hash of equal sets");
        x[r] = nx;
        m[r] = nm;
        if m != before { eff += 1 }
        o.step();
        for q in 0..4 { if q != r {
            ensure_eq!(x[r] == x[q], m[r] == m[q], "step {k}: equality of registers {r} and {q}");
        }}
    }
    o.nontrivial = eff >= 4 && maxparts >= 2;
    o.label_if(maxparts >= 6, "6 or more parts");
    Ok(())
}
/// an interval whose ends are next to some finite bounds of the set
fn near_iv(m: &MSet, i: (u8, i8), j: (u8, i8)) -> (i64, i64) {
    let v: Vec<i64> = m.0.iter().flat_map(|p| [p.0, p.1]).filter(|x| x.abs() != INF).collect();
    let at = |(k, d): (u8, i8)| (if v.is_empty() { 0 } else { v[k as usize % v.len()] } as i128 + d as i128).clamp(2 - i64::MAX as i128, i64::MAX as i128 - 2) as i64;
    (at(i).min(at(j)), at(i).max(at(j)))
}
impl HOp {
    fn arithmetic(&self) -> bool {
        matches!(self, HOp::AddT(..) | HOp::SubT(..) | HOp::AddSpan(..) | HOp::SubSpan(..) | HOp::AddSet(..) | HOp::SubSet(..) | HOp::Mul(..) | HOp::Div(..)
            | HOp::MulF(..) | HOp::DivF(..) | HOp::About(..) | HOp::LeftMul(..) | HOp::LazyT(..) | HOp::LazySpan(..) | HOp::LazyMul(..))
    }
}
/// What only duration sets (or only date sets) can do
pub trait Hist: P {
    const DATES: bool;
    fn about(_t: i64, _y: TimeSet<TimeValue>, _k: u8) -> TimeSet<Self> { unreachable!() }
    fn lmul(_x: TimeSet<Self>, _n: i8) -> TimeSet<Self> { unreachable!() }
    fn lazymul(_x: TimeSet<Self>, _n: i8) -> TimeSet<Self> { unreachable!() }
    fn span_model(m: &MSet) -> Option<&MSet>;
    fn scaled(m: &MSet, mul: i64, div: i64) -> Option<MSet>;
    fn floated(m: &MSet, k: i8, inv: bool) -> Option<MSet>;
    fn mul(x: TimeSet<Self>, n: i8, inplace: bool) -> TimeSet<Self>;
    fn div(x: TimeSet<Self>, n: i8, inplace: bool) -> TimeSet<Self>;
    fn mulf(x: TimeSet<Self>, k: i8, inv: bool, inplace: bool) -> TimeSet<Self>;
}
/// factors whose product with a small integer is exact: 2^k, sign by parity
fn pow2(k: i8) -> f64 { let f = 2f64.powi(k as i32); if k & 1 == 1 { -f } else { f } }
impl Hist for TimeValue {
    const DATES: bool = false;
    fn lmul(x: TimeSet<Self>, n: i8) -> TimeSet<Self> { n * x }
    fn lazymul(x: TimeSet<Self>, n: i8) -> TimeSet<Self> { x.iter().scaling(n as i32).collect() }
    fn span_model(m: &MSet) -> Option<&MSet> { Some(m) }
    fn scaled(m: &MSet, mul: i64, div: i64) -> Option<MSet> {
        if div == 0 || m.is_empty() { return if div == 0 { None } else { Some(MSet::empty()) } }
        if mul == 0 { return Some(MSet::pt(0)) }
        if !m.in_range(LIM) { return None }
        let n = mul.signum() * div.signum();
        Some(m.map(n < 0, |x| if x.abs() == INF { x * n } else { sat(x as i128 * mul as i128 / div as i128) }))
    }
    fn floated(m: &MSet, k: i8, inv: bool) -> Option<MSet> {
        if !m.in_range(1 << 50) { return None }
        let f = if inv { 1. / pow2(k) } else { pow2(k) };
        Some(m.map(f < 0., |x| if x.abs() == INF { if f < 0. { -x } else { x } } else { (x as f64 * f) as i64 }))
    }
    fn mul(x: TimeSet<Self>, n: i8, inplace: bool) -> TimeSet<Self> { if inplace { let mut z = x; z *= n as i64; z } else { x * n } }
    fn div(x: TimeSet<Self>, n: i8, inplace: bool) -> TimeSet<Self> { if inplace { let mut z = x; z /= n as i128; z } else { x / (n as i32) } }
    fn mulf(x: TimeSet<Self>, k: i8, inv: bool, inplace: bool) -> TimeSet<Self> {
        let f = pow2(k);
        match (inv, inplace) {
            (false, false) => x * f, (false, true) => { let mut z = x; z *= f as f32 as f64; z }
            (true, false) => x / f, (true, true) => { let mut z = x; z /= f; z }
        }
    }
}
impl Hist for Timestamp {
    const DATES: bool = true;
    fn about(t: i64, y: TimeSet<TimeValue>, k: u8) -> TimeSet<Self> {
        let d = Timestamp::mk(t);
        match k { 0 => d - y, 1 => d + y, 2 => y + d, _ => y - d }
    }
    fn span_model(m: &MSet) -> Option<&MSet> { Some(m) }
    fn scaled(_: &MSet, _: i64, _: i64) -> Option<MSet> { None }
    fn floated(_: &MSet, _: i8, _: bool) -> Option<MSet> { None }
    fn mul(x: TimeSet<Self>, _: i8, _: bool) -> TimeSet<Self> { x }
    fn div(x: TimeSet<Self>, _: i8, _: bool) -> TimeSet<Self> { x }
    fn mulf(x: TimeSet<Self>, _: i8, _: bool, _: bool) -> TimeSet<Self> { x }
}

// ---------------------------------------------------------------- C03: iterators

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Ex {
    Leaf(SetC), LeafW(Win),
    /// an iterator that starts again after its end, with a vague size hint
    Loose(SetC, u8),
    Un(Box<Ex>, Box<Ex>), In(Box<Ex>, Box<Ex>), Co(Box<Ex>), Ex(Box<Ex>, Box<Ex>),
    UnW(Box<Ex>, Win), InW(Box<Ex>, Win), ExS(Box<Ex>, SetC),
    Tr(Box<Ex>, i16), TrSpan(Box<Ex>, i16, u8),
    Skip(Box<Ex>, u8), Take(Box<Ex>, u8), Step(Box<Ex>, u8), Filt(Box<Ex>, u8),
}
/// Any iterator, with the methods it may define by itself and not only `next`
trait AnyIt<T: P> {
    fn next_(&mut self) -> Option<TimeInterval<T>>;
    fn nth_(&mut self, n: usize) -> Option<TimeInterval<T>>;
    fn hint_(&self) -> (usize, Option<usize>);
    fn last_(self: Box<Self>) -> Option<TimeInterval<T>>;
    fn count_(self: Box<Self>) -> usize;
    fn fold_(self: Box<Self>, f: &mut dyn FnMut(TimeInterval<T>));
    fn find_(&mut self, f: &mut dyn FnMut(&TimeInterval<T>) -> bool) -> Option<TimeInterval<T>>;
    fn any_(&mut self, f: &mut dyn FnMut(TimeInterval<T>) -> bool) -> bool;
    fn all_(&mut self, f: &mut dyn FnMut(TimeInterval<T>) -> bool) -> bool;
}
impl<T: P, I: Iterator<Item = TimeInterval<T>>> AnyIt<T> for I {
    fn next_(&mut self) -> Option<TimeInterval<T>> { self.next() }
    fn nth_(&mut self, n: usize) -> Option<TimeInterval<T>> { self.nth(n) }
    fn hint_(&self) -> (usize, Option<usize>) { self.size_hint() }
    fn last_(self: Box<Self>) -> Option<TimeInterval<T>> { (*self).last() }
    fn count_(self: Box<Self>) -> usize { (*self).count() }
    fn fold_(self: Box<Self>, f: &mut dyn FnMut(TimeInterval<T>)) { (*self).fold((), |_, x| f(x)) }
    fn find_(&mut self, f: &mut dyn FnMut(&TimeInterval<T>) -> bool) -> Option<TimeInterval<T>> { self.find(|x| f(x)) }
    fn any_(&mut self, f: &mut dyn FnMut(TimeInterval<T>) -> bool) -> bool { self.any(f) }
    fn all_(&mut self, f: &mut dyn FnMut(TimeInterval<T>) -> bool) -> bool { self.all(f) }
}
struct Dyn<'a, T: P>(Box<dyn AnyIt<T> + 'a>);
impl<T: P> Iterator for Dyn<'_, T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next_() }
    fn nth(&mut self, n: usize) -> Option<Self::Item> { self.0.nth_(n) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.hint_() }
    fn last(self) -> Option<Self::Item> { self.0.last_() }
    fn count(self) -> usize { self.0.count_() }
    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.fold_(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
        acc.unwrap()
    }
    fn find<F: FnMut(&Self::Item) -> bool>(&mut self, mut f: F) -> Option<Self::Item> { self.0.find_(&mut f) }
    fn any<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool { self.0.any_(&mut f) }
    fn all<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool { self.0.all_(&mut f) }
}
impl<T: P> TimeConvexIterator for Dyn<'_, T> { type TimePoint = T; }
fn dy<'a, T: P, I: TimeConvexIterator<TimePoint = T> + 'a>(i: I) -> Dyn<'a, T> { Dyn(Box::new(i)) }

/// Starts again after its end, as an iterator is free to do
struct Loose<T: P> { it: Hint<TimeInterval<T>>, v: Vec<TimeInterval<T>>, ended: bool }
impl<T: P> Iterator for Loose<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = self.it.next();
        if r.is_none() { self.it = hint(self.v.clone(), 0); self.ended = true }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.ended { (0, None) } else { self.it.size_hint() } }
}
impl<T: P> TimeConvexIterator for Loose<T> { type TimePoint = T; }

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ExC { s: Scene, dates: bool, e: Ex }
fn exx() -> BoxedStrategy<Ex> {
    let leaf = prop_oneof![8 => setc(5).prop_map(Ex::Leaf), 2 => convexwin().prop_map(Ex::LeafW), 1 => (setc(5), any::<u8>()).prop_map(|(c, h)| Ex::Loose(c, h))];
    leaf.prop_recursive(4, 24, 2, |i| {
        let b = || i.clone().prop_map(Box::new);
        prop_oneof![
            3 => (b(), b()).prop_map(|(x, y)| Ex::Un(x, y)),
            3 => (b(), b()).prop_map(|(x, y)| Ex::In(x, y)),
            3 => b().prop_map(Ex::Co),
            2 => (b(), b()).prop_map(|(x, y)| Ex::Ex(x, y)),
            1 => (b(), win()).prop_map(|(x, w)| Ex::UnW(x, w)),
            1 => (b(), win()).prop_map(|(x, w)| Ex::InW(x, w)),
            1 => (b(), setc(4)).prop_map(|(x, w)| Ex::ExS(x, w)),
            1 => (b(), -20i16..20).prop_map(|(x, t)| Ex::Tr(x, t)),
            1 => (b(), -20i16..20, 0u8..6).prop_map(|(x, t, d)| Ex::TrSpan(x, t, d)),
            1 => (b(), 0u8..4).prop_map(|(x, n)| Ex::Skip(x, n)),
            1 => (b(), 0u8..6).prop_map(|(x, n)| Ex::Take(x, n)),
            1 => (b(), 1u8..4).prop_map(|(x, n)| Ex::Step(x, n)),
            1 => (b(), 0u8..3).prop_map(|(x, n)| Ex::Filt(x, n)),
        ]
    }).boxed()
}
fn ex_strat() -> BoxedStrategy<ExC> {
    (prop_oneof![3 => Just(Scene::UNIT), 1 => small_scene()], any::<bool>(), exx()).prop_map(|(s, dates, e)| ExC { s, dates, e }).boxed()
}
fn keep(k: u8, i: usize) -> bool { match k { 0 => i % 2 == 0, 1 => i > 0, _ => i % 3 != 1 } }
fn ex_model(e: &Ex, s: Scene) -> Option<MSet> {
    let m = |e: &Ex| ex_model(e, s);
    Some(match e {
        Ex::Leaf(c) | Ex::Loose(c, _) => c.model(s),
        Ex::LeafW(w) => w.model(s),
        Ex::Un(a, b) => m(a)?.union(&m(b)?),
        Ex::In(a, b) => m(a)?.inter(&m(b)?),
        Ex::Co(a) => m(a)?.compl(),
        Ex::Ex(a, b) => m(a)?.diff(&m(b)?),
        Ex::UnW(a, w) => m(a)?.union(&w.model(s)),
        Ex::InW(a, w) => m(a)?.inter(&w.model(s)),
        Ex::ExS(a, w) => m(a)?.diff(&w.model(s)),
        Ex::Tr(a, t) => m(a)?.plus(&MSet::pt(*t as i64))?,
        Ex::TrSpan(a, t, d) => m(a)?.plus(&MSet::iv(*t as i64, *t as i64 + *d as i64))?,
        Ex::Skip(a, n) => MSet(m(a)?.0.into_iter().skip(*n as usize).collect()),
        Ex::Take(a, n) => MSet(m(a)?.0.into_iter().take(*n as usize).collect()),
        Ex::Step(a, n) => MSet(m(a)?.0.into_iter().step_by(*n as usize).collect()),
        Ex::Filt(a, k) => MSet(m(a)?.0.into_iter().enumerate().filter(|(i, _)| keep(*k, *i)).map(|x| x.1).collect()),
    })
}
fn ex_iter<T: P>(e: &Ex, s: Scene) -> Dyn<'static, T>
    where std::ops::Range<T>: TimeConvex<TimePoint = T>
{
    let r = |e: &Ex| ex_iter::<T>(e, s);
    match e {
        Ex::Leaf(c) => dy(set::<T>(&c.model(s)).into_iter()),
        Ex::LeafW(w) => dy(as_iv::<T>(w, s).into_iter()),
        Ex::Loose(c, how) => { let v: Vec<TimeInterval<T>> = c.model(s).0.iter().map(|p| TimeInterval::new(T::mk(p.0), T::mk(p.1))).collect(); dy(Loose { it: hint(v.clone(), *how), v, ended: false }) }
        Ex::Un(a, b) => dy(r(a).union(r(b))),
        Ex::In(a, b) => dy(r(a).intersection(r(b))),
        Ex::Co(a) => dy(r(a).complementary()),
        Ex::Ex(a, b) => dy(r(a).exclusion(r(b))),
        Ex::UnW(a, w) => match w {
            Win::Set(c) => { let x = set::<T>(&c.model(s)); if c.start & 1 == 0 { dy(r(a).union(x)) } else { dy(r(a).union(&x)) } }
            Win::R(x, y) => dy(r(a).union(T::mk(s.at(*x))..T::mk(s.at(*y)))),
            Win::RI(x, y) => dy(r(a).union(T::mk(s.at(*x))..=T::mk(s.at(*y)))),
            Win::RF(x) => dy(r(a).union(T::mk(s.at(*x))..)),
            Win::RT(x) => dy(r(a).union(..T::mk(s.at(*x)))),
            Win::RTI(x) => dy(r(a).union(..=T::mk(s.at(*x)))),
            Win::Iv(x, _) if x & 1 == 0 => dy(r(a).union(&as_iv::<T>(w, s))),
            w => dy(r(a).union(as_iv::<T>(w, s))),
        },
        Ex::InW(a, w) => match w {
            Win::Set(c) => { let x = set::<T>(&c.model(s)); if c.start & 1 == 0 { dy(r(a).intersection(x)) } else { dy(r(a).intersection(&x)) } }
            Win::R(x, y) => dy(r(a).intersection(T::mk(s.at(*x))..T::mk(s.at(*y)))),
            Win::RI(x, y) => dy(r(a).intersection(T::mk(s.at(*x))..=T::mk(s.at(*y)))),
            Win::RF(x) => dy(r(a).intersection(T::mk(s.at(*x))..)),
            Win::RT(x) => dy(r(a).intersection(..T::mk(s.at(*x)))),
            Win::RTI(x) => dy(r(a).intersection(..=T::mk(s.at(*x)))),
            Win::Iv(x, _) if x & 1 == 0 => dy(r(a).intersection(&as_iv::<T>(w, s))),
            w => dy(r(a).intersection(as_iv::<T>(w, s))),
        },
        Ex::ExS(a, c) => dy(r(a).exclusion(set::<T>(&c.model(s)).into_iter())),
        Ex::Tr(a, t) => dy(r(a).translation(tv(*t as i64))),
        Ex::TrSpan(a, t, d) => dy(r(a).translation(&TimeSpan::new(tv(*t as i64), tv(*t as i64 + *d as i64)))),
        Ex::Skip(a, n) => dy(r(a).skip(*n as usize)),
        Ex::Take(a, n) => dy(r(a).take(*n as usize)),
        Ex::Step(a, n) => dy(r(a).step_by(*n as usize)),
        Ex::Filt(a, k) => { let (mut i, k) = (0usize, *k); dy(r(a).peekable().inspect(|_| ()).filter(move |_| { i += 1; keep(k, i - 1) })) }
    }
}
fn ex_eager<T: P>(e: &Ex, s: Scene) -> TimeSet<T> where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let r = |e: &Ex| ex_eager::<T>(e, s);
    match e {
        Ex::Leaf(c) | Ex::Loose(c, _) => set(&c.model(s)),
        Ex::LeafW(w) => as_iv::<T>(w, s).into(),
        Ex::Un(a, b) => r(a) | r(b),
        Ex::In(a, b) => r(a) & r(b),
        Ex::Co(a) => !r(a),
        Ex::Ex(a, b) => r(a) & !r(b),
        Ex::UnW(a, w) => r(a) | as_set::<T>(w, s),
        Ex::InW(a, w) => r(a) & as_set::<T>(w, s),
        Ex::ExS(a, c) => r(a) & !set::<T>(&c.model(s)),
        Ex::Tr(a, t) => r(a) + tv(*t as i64),
        Ex::TrSpan(a, t, d) => r(a) + TimeSpan::new(tv(*t as i64), tv(*t as i64 + *d as i64)),
        Ex::Skip(a, n) => r(a).iter().skip(*n as usize).collect(),
        Ex::Take(a, n) => r(a).iter().take(*n as usize).collect(),
        Ex::Step(a, n) => r(a).iter().step_by(*n as usize).collect(),
        Ex::Filt(a, k) => r(a).iter().enumerate().filter(|(i, _)| keep(*k, *i)).map(|x| x.1).collect(),
    }
}
fn ex_size(e: &Ex) -> usize {
    match e {
        Ex::Leaf(_) | Ex::LeafW(_) | Ex::Loose(..) => 0,
        Ex::Un(a, b) | Ex::In(a, b) | Ex::Ex(a, b) => 1 + ex_size(a) + ex_size(b),
        Ex::Co(a) | Ex::UnW(a, _) | Ex::InW(a, _) | Ex::ExS(a, _) | Ex::Tr(a, _) | Ex::TrSpan(a, _, _)
        | Ex::Skip(a, _) | Ex::Take(a, _) | Ex::Step(a, _) | Ex::Filt(a, _) => 1 + ex_size(a),
    }
}
/// Drains an iterator step by step, checking order, emptiness, size hints and fusedness
fn drain<T: P>(it: &mut dyn Iterator<Item = TimeInterval<T>>, m: &MSet, fused: bool, what: &str) -> Result<Vec<(i64, i64)>, String> {
    let (mut got, mut hints) = (vec![], vec![]);
    loop {
        hints.push(it.size_hint());
        match it.next() { Some(i) => got.push(iv_parts(i)), None => break }
        ensure!(got.len() <= m.0.len() + 64, "{what}: does not end: {:?}...", &got[..8.min(got.len())]);
    }
    ensure_eq!(got, m.0, "{what}: intervals");
    for (k, (lo, hi)) in hints.into_iter().enumerate() {
        let left = got.len() - k;
        ensure!(lo <= left, "{what}: size hint lower {lo} before interval {k} but {left} remain");
        ensure!(hi.map_or(true, |h| h >= left), "{what}: size hint upper {hi:?} before interval {k} but {left} remain");
    }
    if fused { for _ in 0..3 {
        ensure!(it.next().is_none(), "{what}: yields again after its end");
        ensure!(it.size_hint().0 == 0, "{what}: size hint after the end");
    }}
    Ok(got)
}
fn c03_tree(c: &ExC, o: &mut Obs) -> Verdict { by_type!(c.dates, c03_tree_t(c, o)) }
fn c03_tree_t<T: P>(c: &ExC, o: &mut Obs) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let Some(m) = ex_model(&c.e, c.s) else { return Ok(()) };
    let fused = matches!(c.e, Ex::Un(..) | Ex::In(..) | Ex::Co(..) | Ex::Ex(..) | Ex::UnW(..) | Ex::InW(..) | Ex::ExS(..) | Ex::Leaf(_));
    drain(&mut ex_iter::<T>(&c.e, c.s), &m, fused, "iterator")?;
    let collected: TimeSet<T> = ex_iter::<T>(&c.e, c.s).collect();
    expect_set(&collected, &m, "collected iterator")?;
    let eager = ex_eager::<T>(&c.e, c.s);
    ensure!(collected == eager, "iterator gives {:?}, operators give {:?}", parts(&collected), parts(&eager));
    // derived methods agree with stepping
    for k in 0usize..3 {
        let mut it = ex_iter::<T>(&c.e, c.s);
        let mut at = 0;
        loop {
            // skips of 0 to 2 intervals, in several rhythms
            let skip = [1, at % 3, (at + 1) % 2][k];
            let r = it.nth(skip).map(iv_parts);
            ensure_eq!(r, m.0.get(at + skip).copied(), "nth({skip}) at {at}");
            if r.is_none() { break }
            at += skip + 1;
            let (left, (lo, hi)) = (m.0.len() - at, it.size_hint());
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size hint ({lo}, {hi:?}) while {left} intervals remain");
        }
        let mut it = ex_iter::<T>(&c.e, c.s);
        for _ in 0..k { it.next(); }
        let rest = m.0.get(k..).unwrap_or(&[]);
        if k <= m.0.len() {
            ensure_eq!(it.fold(vec![], |mut v, i| { v.push(iv_parts(i)); v }), rest, "fold after {k} intervals");
            let mut it = ex_iter::<T>(&c.e, c.s);
            for _ in 0..k { it.next(); }
            ensure_eq!(it.count(), rest.len(), "count after {k} intervals");
            let mut it = ex_iter::<T>(&c.e, c.s);
            for _ in 0..k { it.next(); }
            ensure_eq!(it.last().map(iv_parts), rest.last().copied(), "last after {k} intervals");
            // searches stop at the interval they find, and what follows is still there
            let stop = rest.get(rest.len() / 2).copied();
            for how in 0..3 {
                let mut it = ex_iter::<T>(&c.e, c.s);
                for _ in 0..k { it.next(); }
                match how {
                    0 => ensure_eq!(it.find(|i| Some(iv_parts(*i)) == stop).map(iv_parts), stop, "find after {k} intervals"),
                    1 => ensure_eq!(it.any(|i| Some(iv_parts(i)) == stop), stop.is_some(), "any after {k} intervals"),
                    _ => ensure_eq!(it.all(|i| Some(iv_parts(i)) != stop), stop.is_none(), "all after {k} intervals"),
                }
                if stop.is_some() { ensure_eq!(it.map(iv_parts).collect::<Vec<_>>(), rest[rest.len() / 2 + 1..], "what is left after a search (from {k})") }
            }
        }
    }
    ensure_eq!(ex_iter::<T>(&c.e, c.s).count(), m.0.len(), "count");
    ensure_eq!(ex_iter::<T>(&c.e, c.s).last().map(iv_parts), m.0.last().copied(), "last");
    let set_it = collected.iter();
    ensure_eq!(set_it.count(), m.0.len(), "count of a set iterator");
    ensure_eq!(collected.iter().last().map(iv_parts), m.0.last().copied(), "last of a set iterator");
    for k in 0..=m.0.len() {
        let mut it = (&collected).into_iter();
        ensure_eq!(it.nth(k).map(iv_parts), m.0.get(k).copied(), "nth of a set iterator");
        ensure_eq!(it.next().map(iv_parts), m.0.get(k + 1).copied(), "next after nth of a set iterator");
    }
    let n = ex_size(&c.e);
    o.steps += n as u64;
    o.nontrivial = n >= 2 && !m.is_empty();
    o.label_if(n >= 5, "5 or more combinators");
    o.label_if(m.0.len() >= 3, "3 or more intervals");
    Ok(())
}

// ---------------------------------------------------------------- C25: endless inputs

/// Windows repeated for ever: gap and length of each, in turn
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cycle { start: i16, turn: Vec<(u8, u8)> }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Lz { Cyc(Cycle), Fin(SetC), Un(Box<Lz>, Box<Lz>), In(Box<Lz>, Box<Lz>), Ex(Box<Lz>, Box<Lz>), Co(Box<Lz>), Tr(Box<Lz>, i16) }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LzC { dates: bool, s: Scene, e: Lz, take: u8 }
fn lz() -> BoxedStrategy<Lz> {
    let cyc = || (-6i16..40, prop::collection::vec((prop_oneof![3 => Just(2u8), 2 => 2u8..5, 1 => 2u8..12], prop_oneof![2 => Just(0u8), 2 => 1u8..4, 1 => 0u8..10]), 1..4)).prop_map(|(start, turn)| Lz::Cyc(Cycle { start, turn }));
    let leaf = prop_oneof![3 => cyc(), 2 => setc(5).prop_map(Lz::Fin)];
    leaf.prop_recursive(3, 10, 2, |i| {
        let b = || i.clone().prop_map(Box::new);
        prop_oneof![3 => (b(), b()).prop_map(|(x, y)| Lz::Un(x, y)), 4 => (b(), b()).prop_map(|(x, y)| Lz::In(x, y)), 2 => (b(), b()).prop_map(|(x, y)| Lz::Ex(x, y)),
            2 => b().prop_map(Lz::Co), 1 => (b(), -20i16..20).prop_map(|(x, t)| Lz::Tr(x, t))]
    }).boxed()
}
fn lz_strat() -> BoxedStrategy<LzC> {
    (any::<bool>(), prop_oneof![3 => Just(Scene::UNIT), 1 => Just(Scene { base: -30, unit: 3 })], lz(), 1u8..12).prop_map(|(dates, s, e, take)| LzC { dates, s, e, take }).boxed()
}
const FAR: usize = 200;
impl Cycle {
    fn at(&self, s: Scene, n: usize) -> (i64, i64) {
        let (turns, k) = (n / self.turn.len(), n % self.turn.len());
        let len = |v: &[(u8, u8)]| v.iter().map(|x| x.0 as i64 + x.1 as i64).sum::<i64>();
        let a = self.start as i64 + turns as i64 * len(&self.turn) + len(&self.turn[..k]) + self.turn[k].0 as i64;
        (s.base + s.unit * a, s.base + s.unit * (a + self.turn[k].1 as i64))
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind { Cyc, Fin, Un, In, Co, Tr(i64) }
/// An expression with its windows up to the horizon (an exclusion is an intersection with a complementary)
struct Node<'a> { e: &'a Lz, kind: Kind, m: MSet, endless: bool, kids: Vec<Node<'a>>, leaf: usize }
fn lz_node<'a>(e: &'a Lz, s: Scene, leaves: &mut Vec<&'a Lz>) -> Option<Node<'a>> {
    let co = |e: &'a Lz, x: Node<'a>| Node { e, kind: Kind::Co, m: x.m.compl(), endless: x.endless, kids: vec![x], leaf: 0 };
    let leaf = leaves.len();
    Some(match e {
        Lz::Cyc(c) => { leaves.push(e); Node { e, kind: Kind::Cyc, m: MSet::norm((0..FAR).map(|n| c.at(s, n)).collect()), endless: true, kids: vec![], leaf } }
        Lz::Fin(c) => { leaves.push(e); Node { e, kind: Kind::Fin, m: c.model(s), endless: false, kids: vec![], leaf } }
        Lz::Co(a) => co(e, lz_node(a, s, leaves)?),
        Lz::Tr(a, t) => { let x = lz_node(a, s, leaves)?; Node { e, kind: Kind::Tr(*t as i64), m: x.m.plus(&MSet::pt(*t as i64))?, endless: x.endless, kids: vec![x], leaf } }
        Lz::Un(a, b) | Lz::In(a, b) | Lz::Ex(a, b) => {
            let (x, y) = (lz_node(a, s, leaves)?, lz_node(b, s, leaves)?);
            let y = if let Lz::Ex(..) = e { co(b, y) } else { y };
            let (kind, m) = match e { Lz::Un(..) => (Kind::Un, x.m.union(&y.m)), _ => (Kind::In, x.m.inter(&y.m)) };
            Node { e, kind, m, endless: x.endless || y.endless, kids: vec![x, y], leaf }
        }
    })
}
const END: i64 = i64::MAX;
impl Node<'_> {
    /// A bound on its points when it has an end, `INF` if its last window is unbounded, None when it is endless
    fn top(&self) -> Option<i64> {
        let k: Vec<_> = self.kids.iter().map(|k| k.top()).collect();
        match self.kind {
            Kind::Cyc => None,
            Kind::Fin => Some(self.m.upper()),
            Kind::Co => k[0].map(|_| self.m.upper()),
            Kind::Tr(t) => k[0].map(|u| if u.abs() == INF { u } else { u + t }),
            Kind::Un => match (k[0], k[1]) { (Some(INF), _) | (_, Some(INF)) => Some(INF), (a, b) => Some(a?.max(b?)) },
            Kind::In => match (k[0], k[1]) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b).filter(|&u| u != INF) },
        }
    }
    /// How far the leaves may be read to give all the windows that start up to a point (and to look at the one
    /// after): None when it is beyond the horizon
    fn need(&self, p: i64, far: i64, lim: &mut [usize]) -> Option<()> {
        if !self.endless { return Some(()) }
        if p >= far && p != END { return None }
        let n = self.m.0.iter().take_while(|i| i.0 <= p).count();
        if self.kind == Kind::Cyc {
            if p == END { return None }
            lim[self.leaf] = lim[self.leaf].max(n + 3);
            return Some(());
        }
        // nothing comes after an unbounded window
        let past = self.m.0.last().filter(|i| i.1 == INF && i.0 < far && (p == END || i.0 <= p));
        let (l, q) = match past.or(if p == END { None } else { self.m.0.get(n) }) {
            Some(i) if i.1 == INF && i.0 >= far => return None,
            Some(i) if i.1 != INF && i.1 >= far => return None,
            Some(&(l, INF)) => (l, None),
            Some(i) => (i.0, Some(i.1)),
            None => (END, None),
        };
        let kid = |k: usize, to: i64, lim: &mut [usize]| self.kids[k].need(to, far, lim);
        match (self.kind, q) {
            (Kind::Tr(t), Some(q)) => kid(0, q - t, lim),
            (Kind::Tr(t), None) => kid(0, if l == END || l == -INF { l } else { l - t }, lim),
            (Kind::Co, Some(q)) => kid(0, q + 1, lim),
            (Kind::Co, None) => kid(0, END, lim),
            (_, Some(q)) => { kid(0, q, lim)?; kid(1, q, lim) }
            // as soon as one of the inputs has got to its unbounded window
            (Kind::Un, None) if l != END => {
                let from = self.kids.iter().filter_map(|k| k.m.0.last().filter(|i| i.1 == INF && i.0 < far)).map(|i| i.0).min()?;
                kid(0, from, lim)?; kid(1, from, lim)
            }
            (Kind::Un, None) => { kid(0, END, lim)?; kid(1, END, lim) }
            (_, None) if l != END => { kid(0, l, lim)?; kid(1, l, lim) }
            // it ends when one of the inputs does
            (_, None) => {
                let (a, b) = (self.kids[0].top(), self.kids[1].top());
                for (k, (mine, other)) in [(a, b), (b, a)].into_iter().enumerate() {
                    let to = match (mine, other) { (Some(_), _) => END, (None, Some(u)) if u != INF => (u + 1).max(-INF), _ => return None };
                    kid(k, to, lim)?;
                }
                Some(())
            }
        }
    }
}
struct Endless<'a, T: P> { c: &'a Cycle, s: Scene, n: usize, read: &'a std::cell::Cell<usize>, ghost: std::marker::PhantomData<T> }
impl<T: P> Iterator for Endless<'_, T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> {
        self.read.set(self.read.get() + 1);
        if self.read.get() > 20 * FAR { panic!("an endless input is read without end") }
        let (l, u) = self.c.at(self.s, self.n);
        self.n += 1;
        Some(TimeInterval::new(T::mk(l), T::mk(u)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, None) }
}
impl<T: P> TimeConvexIterator for Endless<'_, T> { type TimePoint = T; }
fn lz_iter<'a, T: P>(n: &Node<'a>, s: Scene, read: &'a [std::cell::Cell<usize>]) -> Dyn<'a, T> {
    let r = |k: usize| lz_iter::<T>(&n.kids[k], s, read);
    match n.e {
        Lz::Cyc(c) => dy(Endless { c, s, n: 0, read: &read[n.leaf], ghost: std::marker::PhantomData }),
        Lz::Fin(_) => dy(set::<T>(&n.m).into_iter()),
        Lz::Un(..) => dy(r(0).union(r(1))),
        Lz::In(..) => dy(r(0).intersection(r(1))),
        Lz::Ex(..) => dy(r(0).exclusion(lz_iter::<T>(&n.kids[1].kids[0], s, read))),
        Lz::Co(_) => dy(r(0).complementary()),
        Lz::Tr(_, t) => dy(r(0).translation(tv(*t as i64))),
    }
}
fn c25(c: &LzC, o: &mut Obs) -> Verdict { by_type!(c.dates, c25_t(c, o)) }
fn c25_t<T: P>(c: &LzC, o: &mut Obs) -> Verdict {
    let mut leaves = vec![];
    let Some(root) = lz_node(&c.e, c.s, &mut leaves) else { return Ok(()) };
    if !root.endless { return Ok(()) }
    // everything is exact well before the first leaf stops being modelled
    let far = leaves.iter().filter_map(|l| match l { Lz::Cyc(x) => Some(x.at(c.s, FAR - 1).1), _ => None }).min().unwrap_or(INF) - 120;
    let read: Vec<_> = leaves.iter().map(|_| std::cell::Cell::new(0)).collect();
    let mut lim = vec![3; leaves.len()];
    let mut it = panics(|| lz_iter::<T>(&root, c.s, &read))?;
    let within = |lim: &[usize], what: &str| -> Verdict {
        for (k, r) in read.iter().enumerate() { ensure!(r.get() <= lim[k], "{what}: {} windows are read from an endless input, {} would do", r.get(), lim[k]) }
        Ok(())
    };
    within(&lim, "building the iterator")?;
    let mut given = 0;
    for k in 0..c.take as usize {
        let next = root.m.0.get(k);
        // where it can be told how much has to be read
        let ok = match next { Some(i) if i.1 < far || i.1 == INF => root.need(if i.1 == INF { i.0 } else { i.1 }, far, &mut lim), Some(_) => None, None => root.need(END, far, &mut lim) };
        if ok.is_none() { break }
        let (lo, hi) = panics(|| it.size_hint())?;
        let end = root.top().is_some_and(|t| t < far || root.m.0.last().is_some_and(|i| i.1 == INF && i.0 < far));
        if end { let left = root.m.0.len() - k; ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size hint ({lo}, {hi:?}) while {left} remain") }
        else { let known = root.m.0.iter().skip(k).take_while(|i| i.1 < far).count(); ensure!(hi.map_or(true, |h| h >= known), "size hint ({lo}, {hi:?}) while {known} or more remain") }
        let got = panics(|| it.next())?.map(iv_parts);
        ensure_eq!(got, next.copied(), "window {k}");
        within(&lim, &format!("window {k}"))?;
        o.step();
        if next.is_none() { o.label("ends though an input does not"); break }
        o.label_if(got.is_some_and(|i| i.1 == INF), "an unbounded window out of an endless input");
        given += 1;
    }
    o.nontrivial = given >= 2 && leaves.len() >= 2;
    o.label_if(leaves.iter().filter(|l| matches!(l, Lz::Cyc(_))).count() >= 2, "2 or more endless inputs");
    Ok(())
}

fn c03_masks(c: &(u16, u16, u8), o: &mut Obs) -> Verdict {
    let (ma, mb, n) = (c.0 as u32, c.1 as u32, c.2 as u32);
    let full = (1u32 << (n + 2)) - 1;
    let a: TimeSpans = set(&mask_model(ma, n));
    let b: TimeSpans = set(&mask_model(mb, n));
    drain(&mut (&a).into_iter().union((&b).into_iter()), &mask_model(ma | mb, n), true, "union")?;
    drain(&mut (&a).into_iter().intersection((&b).into_iter()), &mask_model(ma & mb, n), true, "intersection")?;
    drain(&mut (&a).into_iter().exclusion((&b).into_iter()), &mask_model(ma & !mb & full, n), true, "exclusion")?;
    if mb == 0 {
        drain(&mut (&a).into_iter().complementary(), &mask_model(!ma & full, n), true, "complementary")?;
        drain(&mut (&a).into_iter().complementary().complementary(), &mask_model(ma, n), true, "complementary twice")?;
    }
    let k = (ma ^ mb) as usize % 3;
    derived(|| (&a).into_iter().union((&b).into_iter()), k, &mask_model(ma | mb, n), "union")?;
    derived(|| (&a).into_iter().intersection((&b).into_iter()), k, &mask_model(ma & mb, n), "intersection")?;
    derived(|| (&a).into_iter().exclusion((&b).into_iter()), k, &mask_model(ma & !mb & full, n), "exclusion")?;
    if mb == 0 { derived(|| (&a).into_iter().complementary(), k, &mask_model(!ma & full, n), "complementary")? }
    o.nontrivial = ma != 0 && mb != 0;
    Ok(())
}
/// last, count, nth and fold after some intervals
fn derived<T: P, I: Iterator<Item = TimeInterval<T>>>(mk: impl Fn() -> I, k: usize, m: &MSet, what: &str) -> Verdict {
    let at = |k: usize| { let mut it = mk(); for _ in 0..k { it.next(); } it };
    let rest = m.0.get(k..).unwrap_or(&[]);
    if k > m.0.len() { return Ok(()) }
    ensure_eq!(at(k).last().map(iv_parts), rest.last().copied(), "{what}: last after {k} intervals");
    ensure_eq!(at(k).count(), rest.len(), "{what}: count after {k} intervals");
    ensure_eq!(at(k).fold(vec![], |mut v, i| { v.push(iv_parts(i)); v }), rest, "{what}: fold after {k} intervals");
    for n in 0..3 {
        let mut it = at(k);
        ensure_eq!(it.nth(n).map(iv_parts), rest.get(n).copied(), "{what}: nth({n}) after {k} intervals");
        ensure_eq!(it.next().map(iv_parts), rest.get(n + 1).copied(), "{what}: next after nth({n}) after {k} intervals");
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ScalC { s: Scene, x: SetC, k: i8, f: i8, span: (i64, u8) }
fn scal_strat() -> BoxedStrategy<ScalC> {
    (prop_oneof![2 => Just(Scene::UNIT), 1 => Just(Scene { base: -30, unit: 3 }), 1 => Just(Scene { base: -100, unit: 7 })], setc(5), -4i8..5, -3i8..4, (small(), 0u8..6))
        .prop_map(|(s, x, k, f, span)| ScalC { s, x, k, f, span }).boxed()
}
fn c03_scal(c: &ScalC, o: &mut Obs) -> Verdict {
    let m = c.x.model(c.s);
    let x: TimeSpans = set(&m);
    let mi = TimeValue::scaled(&m, c.k as i64, 1).unwrap();
    drain(&mut x.iter().scaling(c.k), &mi, false, "integer scaling")?;
    drain(&mut x.iter().scaling(c.k as i128), &mi, false, "i128 scaling")?;
    if c.k >= 0 { drain(&mut x.iter().scaling(c.k as u64), &mi, false, "u64 scaling")?; }
    let mf = TimeValue::floated(&m, c.f, false).unwrap();
    drain(&mut x.iter().scaling(pow2(c.f)), &mf, false, "float scaling")?;
    drain(&mut x.iter().scaling(pow2(c.f) as f32), &mf, false, "f32 scaling")?;
    if let Some(mu) = mi.union(&m).plus(&MSet::iv(c.span.0, c.span.0 + c.span.1 as i64)) {
        let sp = TimeSpan::new(tv(c.span.0), tv(c.span.0 + c.span.1 as i64));
        drain(&mut x.iter().scaling(c.k).union(x.iter()).translation(&sp), &mu, true, "scaling, union, translation")?;
    }
    let md = mf.compl();
    drain(&mut x.iter().scaling(pow2(c.f)).complementary(), &md, true, "scaling, complementary")?;
    o.nontrivial = m.0.len() >= 2;
    o.label_if(c.k < 0 || pow2(c.f) < 0., "negative factor");
    o.label_if(mf.0.len() < m.0.len(), "parts merged");
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CollC { s: Scene, dates: bool, items: Vec<Win>, sets: Vec<SetC>, rot: u8 }
fn coll_strat() -> BoxedStrategy<CollC> {
    let few = (scene(), any::<bool>(), prop::collection::vec(convexwin(), 0..16), prop::collection::vec(setc(4), 0..5), any::<u8>())
        .prop_map(|(s, dates, items, sets, rot)| CollC { s, dates, items, sets, rot });
    // now and then many items, most of them apart, shuffled or almost in order
    let many = (few.clone(), walk(-300..8, 17, 150), prop::collection::vec((any::<u16>(), any::<u16>()), 0..6), prop::bool::weighted(0.4), any::<u16>()).prop_map(|(mut c, w, swaps, shuffle, mut seed)| {
        let mut at = w.start;
        let mut v: Vec<Win> = w.steps.iter().map(|&(gap, len)| { at += gap.max(1) as i16; let a = at; at += len as i16; Win::Iv(a, at) }).collect();
        v.append(&mut c.items);
        let n = v.len();
        for (i, j) in swaps { v.swap(i as usize % n, j as usize % n) }
        if shuffle { for i in 1..n { seed = seed.wrapping_mul(25173).wrapping_add(13849); v.swap(i, (seed >> 3) as usize % (i + 1)) } }
        c.items = v;
        c
    });
    prop_oneof![60 => few, 1 => many].boxed()
}
fn c04_collect(c: &CollC, o: &mut Obs) -> Verdict { by_type!(c.dates, c04_t(c, o)) }
fn c04_t<T: P>(c: &CollC, o: &mut Obs) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let m = MSet::norm(c.items.iter().flat_map(|w| w.model(c.s).0).collect());
    let v: Vec<TimeInterval<T>> = c.items.iter().map(|w| as_iv(w, c.s)).collect();
    let x: TimeSet<T> = v.iter().copied().collect();
    expect_set(&x, &m, "collect")?;
    let mut w = v.clone(); w.reverse();
    let y: TimeSet<T> = hint(w, c.rot).collect();
    expect_set(&y, &m, "collect reversed")?;
    let mut w = v.clone(); if !w.is_empty() { let k = c.rot as usize % w.len(); w.rotate_left(k) }
    let z: TimeSet<T> = hint(w, c.rot / 10).collect();
    expect_set(&z, &m, "collect rotated")?;
    let mut w = v.clone(); w.sort_by_key(|i| iv_parts(*i)); w.extend(v.iter().copied());
    let d: TimeSet<T> = w.into_iter().collect();
    expect_set(&d, &m, "collect sorted then repeated")?;
    ensure!(x == y && y == z && z == d && hash_of(&x) == hash_of(&d) && hash_of(&x) == hash_of(&y), "the order of collection shows");
    let ms = c.sets.iter().fold(MSet::empty(), |m, s| m.union(&s.model(c.s)));
    let sx: TimeSet<T> = c.sets.iter().map(|s| set::<T>(&s.model(c.s))).collect();
    expect_set(&sx, &ms, "collect sets")?;
    let sy: TimeSet<T> = hint(c.sets.iter().rev().map(|s| set::<T>(&s.model(c.s))).collect(), c.rot).collect();
    expect_set(&sy, &ms, "collect sets reversed")?;
    // flattening the sets into one sequence of intervals
    let sz: TimeSet<T> = c.sets.iter().flat_map(|s| set::<T>(&s.model(c.s)).into_iter()).collect();
    expect_set(&sz, &ms, "collect flattened sets")?;
    let n: usize = c.items.iter().map(|w| w.model(c.s).0.len()).sum();
    o.nontrivial = c.items.len() >= 3 && m.0.len() < n;
    o.label_if(c.items.iter().any(|w| w.model(c.s).is_empty()), "an empty interval in the sequence");
    o.label_if(v.windows(2).any(|p| p[0].lower_bound() > p[1].lower_bound()), "unsorted");
    Ok(())
}

// ---------------------------------------------------------------- C05

fn rel_convex_rhs<T: P, W: TimeConvex<TimePoint = T>>(a: &Win, s: Scene, ma: &MSet, b: &W, mb: &MSet, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let (cont, over) = (mb.subset_of(ma), ma.overlaps(mb));
    on_convex!(a, s, T, |x| {
        ensure_eq!(TimeContaining::contains(&x, b), cont, "convex contains convex");
        ensure_eq!(x.overlaps(b), over, "convex overlaps convex");
        ensure_eq!(b.overlaps(&x), over, "convex overlaps convex, swapped");
    }, {
        let x: TimeSet<T> = set(ma);
        ensure_eq!(x.contains(b), cont, "set contains convex");
        ensure_eq!(TimeOverlapping::overlaps(&x, b), over, "set overlaps convex");
        ensure_eq!(b.overlaps(&x), over, "convex overlaps set");
        ensure_eq!(b.contains(&x), ma.subset_of(mb), "convex contains set");
    });
    o.steps += 3;
    Ok(())
}
fn c05_pair(c: &PairC, o: &mut Obs) -> Verdict { by_type!(c.dates, c05_pair_t(c, o)) }
fn c05_pair_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let (ma, mb) = (c.a.model(c.s), c.b.model(c.s));
    on_convex!(&c.b, c.s, T, |b| rel_convex_rhs::<T, _>(&c.a, c.s, &ma, &b, &mb, o)?, {
        let (x, y): (TimeSet<T>, TimeSet<T>) = (as_set(&c.a, c.s), set(&mb));
        ensure_eq!(x.contains(&y), mb.subset_of(&ma), "set contains set");
        ensure_eq!(TimeOverlapping::overlaps(&x, &y), ma.overlaps(&mb), "set overlaps set");
        ensure_eq!(TimeOverlapping::overlaps(&y, &x), ma.overlaps(&mb), "set overlaps set, swapped");
        ensure_eq!((&x & &y).is_empty(), !ma.overlaps(&mb), "set & set is empty");
        on_convex!(&c.a, c.s, T, |p| {
            ensure_eq!(TimeContaining::contains(&p, &y), mb.subset_of(&ma), "convex contains set");
            ensure_eq!(p.overlaps(&y), ma.overlaps(&mb), "convex overlaps set");
        }, ());
        o.steps += 4;
    });
    // every point of a small sample: membership of a point is containment of that point
    let x: TimeSet<T> = as_set(&c.a, c.s);
    for &(l, u) in mb.0.iter().take(3) { for p in [l, u] { if p.abs() != INF {
        ensure_eq!(x.contains(&T::mk(p)), ma.has(p), "membership of {p}");
    }}}
    o.nontrivial = !ma.is_empty() && !mb.is_empty() && ma.lower() <= mb.upper() && mb.lower() <= ma.upper();
    o.label_if(ma.is_empty() || mb.is_empty(), "an empty operand");
    o.label_if(!mb.is_empty() && mb.subset_of(&ma), "contained");
    o.label_if(o.nontrivial && !ma.overlaps(&mb), "interleaved but disjoint");
    Ok(())
}

// ---------------------------------------------------------------- C06

fn cmp_strat() -> BoxedStrategy<PairC> {
    prop_oneof![
        3 => pair_strat(),
        1 => (scene(), any::<bool>(), win()).prop_map(|(s, dates, a)| PairC { s, dates, b: a.clone(), a }),
        2 => (scene(), any::<bool>(), 0i16..8, 0i16..6, 0i16..4, 0i16..6).prop_map(|(s, dates, a, l, g, k)|
            PairC { s, dates, a: Win::Iv(a, a + l), b: Win::Iv(a + l + g - 1, a + l + g - 1 + k) }),
        1 => (scene(), any::<bool>(), pair16()).prop_map(|(s, dates, (a, b))| PairC { s, dates, a: Win::Iv(a, b), b: Win::RI(a, b) }),
        1 => (scene(), any::<bool>(), pair16()).prop_map(|(s, dates, (a, b))| PairC { s, dates, a: Win::Set(SetC { start: a - 2, steps: vec![(2, (b - a).max(0) as u8)], lo: false, hi: false }), b: Win::Iv(a, b) }),
    ].boxed()
}
fn pair16() -> BoxedStrategy<(i16, i16)> { (0i16..16, 0i16..8).prop_map(|(a, l)| (a, a + l)).boxed() }

fn cmp_all<T: P, A, B>(a: &A, b: &B, ma: &MSet, mb: &MSet, what: &str) -> Verdict
    where A: TimeWindow<TimePoint = T> + PartialEq<B> + PartialOrd<B>, B: TimeWindow<TimePoint = T>
{
    let eq = ma == mb;
    ensure_eq!(*a == *b, eq, "{what}: ==");
    ensure_eq!(*a != *b, !eq, "{what}: !=");
    let (lt, gt, le, ge, pc) = (a < b, a > b, a <= b, a >= b, a.partial_cmp(b));
    if !ma.is_empty() && !mb.is_empty() {
        ensure_eq!(lt, ma.upper() < mb.lower(), "{what}: <");
        ensure_eq!(gt, ma.lower() > mb.upper(), "{what}: >");
    }
    ensure_eq!(le, lt || eq, "{what}: <=");
    ensure_eq!(ge, gt || eq, "{what}: >=");
    ensure!(!(lt && gt) && !(eq && (lt || gt)), "{what}: < is {lt}, == is {eq}, > is {gt}");
    let want = if eq { Some(Ordering::Equal) } else if lt { Some(Ordering::Less) } else if gt { Some(Ordering::Greater) } else { None };
    ensure_eq!(pc, want, "{what}: partial_cmp");
    Ok(())
}
fn c06_pair(c: &PairC, o: &mut Obs) -> Verdict { by_type!(c.dates, c06_pair_t(c, o)) }
fn c06_pair_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let (ma, mb) = (c.a.model(c.s), c.b.model(c.s));
    let xs: TimeSet<T> = as_set(&c.a, c.s);
    let ys: TimeSet<T> = as_set(&c.b, c.s);
    cmp_all(&xs, &ys, &ma, &mb, "set, set")?;
    on_convex!(&c.b, c.s, T, |b| cmp_all(&xs, &b, &ma, &mb, "set, convex")?, ());
    if !c.a.is_set() {
        let x: TimeInterval<T> = as_iv(&c.a, c.s);
        cmp_all(&x, &ys, &ma, &mb, "interval, set")?;
        on_convex!(&c.b, c.s, T, |b| cmp_all(&x, &b, &ma, &mb, "interval, convex")?, ());
        if !c.b.is_set() {
            let y: TimeInterval<T> = as_iv(&c.b, c.s);
            if ma == mb { ensure_eq!(hash_of(&x), hash_of(&y), "hash of equal intervals"); }
            // the same points obtained by an operation
            let z = x & y;
            let mz = ma.inter(&mb);
            if !mz.is_empty() || true { let w: TimeInterval<T> = mz.0.first().map_or(TimeInterval::empty(), |p| iv(p.0, p.1));
                ensure!(z == w && hash_of(&z) == hash_of(&w), "intersection is not equal or does not hash like the same interval built afresh"); }
        }
    }
    let z = &xs | &ys;
    let w: TimeSet<T> = set(&ma.union(&mb));
    ensure!(z == w && hash_of(&z) == hash_of(&w), "union is not equal or does not hash like the same set built afresh");
    if ma == mb { ensure_eq!(hash_of(&xs), hash_of(&ys), "hash of equal sets"); }
    let both = !ma.is_empty() && !mb.is_empty();
    o.nontrivial = both && (ma == mb || ma.upper() < mb.lower() || ma.lower() > mb.upper() || ma.upper() == mb.lower() || ma.lower() == mb.upper());
    o.label_if(ma == mb, "equal");
    o.label_if(both && ma.upper() == mb.lower(), "sharing one bound");
    o.label_if(!both, "an empty operand");
    o.label_if(both && ma.upper() < mb.lower(), "before");
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CutC { s: Scene, dates: bool, w: Win, cut: i16, d: i8, inf: i8 }
fn cut_strat() -> BoxedStrategy<CutC> {
    let few = (scene(), any::<bool>(), prop_oneof![1 => ivwin(), 2 => setc(6).prop_map(Win::Set)], prop_oneof![4 => 0i16..40, 1 => 0i16..CMAX], -1i8..2, prop_oneof![8 => Just(0i8), 1 => Just(1i8), 1 => Just(-1i8)])
        .prop_map(|(s, dates, w, cut, d, inf)| CutC { s, dates, w, cut, d, inf });
    let at_bound = (scene(), any::<bool>(), near(walk(-120..8, 1, 70)), -1i8..2).prop_map(|(s, dates, (w, near), d)| {
        let cut = match near { Win::Pt(c) | Win::Iv(c, _) | Win::R(c, _) | Win::RI(c, _) | Win::RF(c) | Win::RT(c) | Win::RTI(c) | Win::After(c) | Win::Before(c) => c, Win::Set(x) => x.start, _ => 0 };
        CutC { s, dates, w, cut, d, inf: 0 }
    });
    prop_oneof![20 => few, 1 => at_bound].boxed()
}
fn c07_cut(c: &CutC, o: &mut Obs) -> Verdict { by_type!(c.dates, c07_t(c, o)) }
fn c07_t<T: P>(c: &CutC, o: &mut Obs) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let m = c.w.model(c.s);
    let cut = match c.inf { 0 => c.s.at(c.cut) + c.d as i64, 1 => INF, _ => -INF };
    let (b, a) = (m.trunc_before(cut), m.trunc_after(cut));
    let mut x: TimeSet<T> = as_set(&c.w, c.s);
    let f = x.truncate_before(T::mk(cut));
    expect_set(&x, &b, "set.truncate_before")?;
    ensure_eq!(f, b != m, "set.truncate_before flag");
    let f = x.truncate_before(T::mk(cut));
    ensure_eq!(f, false, "set.truncate_before again: flag");
    let mut x: TimeSet<T> = as_set(&c.w, c.s);
    let f = x.truncate_after(T::mk(cut));
    expect_set(&x, &a, "set.truncate_after")?;
    ensure_eq!(f, a != m, "set.truncate_after flag");
    let f = x.truncate_after(T::mk(cut));
    ensure_eq!(f, false, "set.truncate_after again: flag");
    let _ = x.truncate_before(T::mk(cut));
    expect_set(&x, &a.trunc_before(cut), "set truncated on both sides")?;
    if !c.w.is_set() {
        let mut x: TimeInterval<T> = as_iv(&c.w, c.s);
        let f = x.truncate_before(T::mk(cut));
        expect_iv(&x, &b, "interval.truncate_before")?;
        ensure_eq!(f, b != m, "interval.truncate_before flag");
        let mut x: TimeInterval<T> = as_iv(&c.w, c.s);
        let f = x.truncate_after(T::mk(cut));
        expect_iv(&x, &a, "interval.truncate_after")?;
        ensure_eq!(f, a != m, "interval.truncate_after flag");
    }
    o.nontrivial = (b != m && !b.is_empty()) || (a != m && !a.is_empty());
    o.label_if(c.inf != 0, "infinite cut");
    o.label_if(m.0.iter().any(|p| p.0 == cut || p.1 == cut), "cut on a bound");
    o.label_if(!m.is_empty() && !m.has(cut) && cut > m.lower() && cut < m.upper(), "cut in a hole");
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ConsC { dates: bool, a: i64, b: i64, d: i64 }
fn bound() -> BoxedStrategy<i64> {
    prop_oneof![4 => -6i64..7, 2 => -1000i64..1000, 1 => Just(INF), 1 => Just(-INF), 1 => -(1i64 << 60)..(1 << 60),
        1 => (0i64..4).prop_map(|k| INF - 1 - k), 1 => (0i64..4).prop_map(|k| -INF + 1 + k)].boxed()
}
fn cons_strat() -> BoxedStrategy<ConsC> {
    (any::<bool>(), bound(), bound(), bound()).prop_map(|(dates, a, b, d)| ConsC { dates, a, b, d }).boxed()
}
fn c08_cons(c: &ConsC, o: &mut Obs) -> Verdict { by_type!(c.dates, c08_cons_t(c, o)) }
fn c08_cons_t<T: P>(c: &ConsC, o: &mut Obs) -> Verdict {
    let (a, b) = (c.a, c.b);
    let (pa, pb) = (T::mk(a), T::mk(b));
    let m = MSet::norm(vec![(a, b)]);
    let q = |i: &TimeInterval<T>, m: &MSet, what: &str| -> Verdict { expect_iv(i, m, what)?; queries(i, m, what) };
    q(&TimeInterval::new(pa, pb), &m, "TimeInterval::new")?;
    // SAFETY: the bounds are those of a window that is not empty
    if !m.is_empty() && m.lower() == pa.ticks() && m.upper() == pb.ticks() { q(&unsafe { TimeInterval::new_unchecked(pa, pb) }, &m, "TimeInterval::new_unchecked")?; }
    q(&TimeInterval::from((pa, pb)), &m, "TimeInterval::from pair")?;
    let pt = if a.abs() == INF { MSet::empty() } else { MSet::pt(a) };
    q(&TimeInterval::singleton(pa), &pt, "TimeInterval::singleton")?;
    q(&TimeInterval::from(pa), &pt, "TimeInterval::from point")?;
    q(&TimeInterval::after(pa), &MSet::norm(vec![(a, INF)]), "TimeInterval::after")?;
    q(&TimeInterval::before(pa), &MSet::norm(vec![(-INF, a)]), "TimeInterval::before")?;
    q(&TimeInterval::all(), &MSet::all(), "TimeInterval::all")?;
    q(&TimeInterval::from(..), &MSet::all(), "TimeInterval::from(..)")?;
    q(&TimeInterval::empty(), &MSet::empty(), "TimeInterval::empty")?;
    q(&TimeInterval::default(), &MSet::empty(), "TimeInterval::default")?;
    let s = |x: &TimeSet<T>, m: &MSet, what: &str| -> Verdict { expect_set(x, m, what)?; queries(x, m, what) };
    s(&TimeSet::convex(pa, pb), &m, "TimeSet::convex")?;
    s(&TimeSet::singleton(pa), &pt, "TimeSet::singleton")?;
    s(&TimeSet::all(), &MSet::all(), "TimeSet::all")?;
    s(&TimeSet::empty(), &MSet::empty(), "TimeSet::empty")?;
    s(&TimeSet::from(TimeInterval::new(pa, pb)), &m, "TimeSet::from interval")?;
    // negation
    q(&-TimeInterval::new(pa, pb), &m.neg(), "-interval")?;
    s(&-TimeSet::convex(pa, pb), &m.neg(), "-set")?;
    // ranges, with finite or infinite ends
    let dec = |t: i64| if t.abs() == INF { t } else { t - 1 };
    let (rng, from) = (MSet::norm(vec![(a, dec(b))]), MSet::norm(vec![(a, INF)]));
    let (to, upto) = (MSet::norm(vec![(-INF, a)]), MSet::norm(vec![(-INF, dec(a))]));
    s(&TimeSet::from(pa), &pt, "TimeSet::from point")?;
    s(&TimeSet::from(pa..pb), &rng, "TimeSet::from range")?;
    s(&TimeSet::from(pa..=pb), &m, "TimeSet::from inclusive range")?;
    s(&TimeSet::from(pa..), &from, "TimeSet::from (a..)")?;
    s(&TimeSet::from(..=pa), &to, "TimeSet::from (..=a)")?;
    s(&TimeSet::from(..pa), &upto, "TimeSet::from (..a)")?;
    q(&TimeInterval::from(pa..pb), &rng, "TimeInterval::from range")?;
    q(&TimeInterval::from(pa..=pb), &m, "TimeInterval::from inclusive range")?;
    q(&TimeInterval::from(pa..), &from, "TimeInterval::from (a..)")?;
    q(&TimeInterval::from(..=pa), &to, "TimeInterval::from (..=a)")?;
    q(&TimeInterval::from(..pa), &upto, "TimeInterval::from (..a)")?;
    // centered, enlarge
    let dv = tv(c.d);
    if a.abs() != INF && c.d != -INF {
        let got = TimeInterval::centered(pa, dv);
        if c.d < 0 { ensure!(got.is_none(), "centered with a negative radius gives {got:?}"); }
        else {
            let want = if c.d == INF { MSet::all() } else { MSet(vec![(sat(a as i128 - c.d as i128), sat(a as i128 + c.d as i128))]) };
            match got { Some(i) => q(&i, &want, "centered")?, None => return Err(format!("centered({a},{}) is None", c.d)) }
        }
    }
    // an infinite centre: like the infinite point, no date at all
    if a.abs() == INF && c.d.abs() != INF && c.d >= 0 {
        match TimeInterval::centered(pa, dv) { Some(i) => q(&i, &MSet::empty(), "centered on an infinite point")?, None => () }
    }
    if !m.is_empty() && (c.d != -INF || m.lower() != -INF && m.upper() != INF) {
        let lo = if a == -INF { -INF } else if c.d.abs() == INF { -c.d } else { sat(a as i128 - c.d as i128) };
        let hi = if b == INF { INF } else if c.d.abs() == INF { c.d } else { sat(b as i128 + c.d as i128) };
        let got = TimeInterval::new(pa, pb).enlarge(dv);
        if lo > hi || lo == INF || hi == -INF { ensure!(got.is_none_or(|i| i.is_empty()), "enlarge to nothing gives {got:?}"); if let Some(i) = got { q(&i, &MSet::empty(), "enlarge to nothing")? } }
        else { match got { Some(i) => q(&i, &MSet(vec![(lo, hi)]), "enlarge")?, None => return Err("enlarge is None".into()) } }
    }
    // duration of a slot
    let slot = TimeSlot::new(ts(a), ts(b));
    let dur = if m.is_empty() { 0 } else if a == -INF || b == INF { INF } else { sat(b as i128 - a as i128) };
    ensure_eq!(slot.duration().as_ticks(), dur, "duration of a slot");
    o.nontrivial = !m.is_empty();
    o.label_if(a.abs() == INF || b.abs() == INF, "an infinite bound");
    o.label_if(a == b, "equal bounds");
    o.label_if(a > b, "inverted bounds");
    Ok(())
}
fn queries<T: P, W: TimeWindow<TimePoint = T>>(w: &W, m: &MSet, what: &str) -> Verdict {
    ensure_eq!(w.is_empty(), m.is_empty(), "{what}: is_empty");
    ensure_eq!(w.is_singleton(), m.0.len() == 1 && m.0[0].0 == m.0[0].1, "{what}: is_singleton");
    let (lb, ub) = (!m.is_empty() && m.lower() != -INF, !m.is_empty() && m.upper() != INF);
    ensure_eq!(w.is_low_bounded(), lb, "{what}: is_low_bounded");
    ensure_eq!(w.is_up_bounded(), ub, "{what}: is_up_bounded");
    ensure_eq!(w.is_bounded(), lb && ub, "{what}: is_bounded");
    ensure_eq!(w.is_convex(), m.0.len() <= 1, "{what}: is_convex");
    ensure_eq!(w.convex_count(), m.0.len(), "{what}: convex_count");
    ensure_eq!(w.is_all(), *m == MSet::all(), "{what}: is_all");
    if !m.is_empty() {
        ensure_eq!(w.lower_bound().ticks(), m.lower(), "{what}: lower_bound");
        ensure_eq!(w.upper_bound().ticks(), m.upper(), "{what}: upper_bound");
        expect_iv(&w.convex_envelope(), &MSet(vec![(m.lower(), m.upper())]), &format!("{what}: convex_envelope"))?;
    }
    ensure_eq!(parts(w), m.0, "{what}: iter");
    Ok(())
}
fn query_strat() -> BoxedStrategy<PairC> {
    (scene(), any::<bool>(), win(), Just(Win::Empty)).prop_map(|(s, dates, a, b)| PairC { s, dates, a, b }).boxed()
}
fn c08_query(c: &PairC, o: &mut Obs) -> Verdict {
    by_type!(c.dates, c08_query_t(c, o))?;
    // a constraint is a window too
    let m = c.a.model(c.s);
    on_convex!(&c.a, c.s, TimeValue, |x| {
        let k = ((3u32, 5u32), x);
        queries(&k, &m, "constraint")?;
        let span: TimeSpan = chronologic::graph::TimeConstraint::from(&k).eq(&3).then(|| k.into()).ok_or("constraint from")?;
        expect_iv(&span, &m, "constraint as a span")?;
    }, ());
    Ok(())
}
fn c08_query_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict
    where std::ops::Range<T>: TimeConvex<TimePoint = T>, std::ops::RangeFrom<T>: TimeConvex<TimePoint = T>,
          std::ops::RangeInclusive<T>: TimeConvex<TimePoint = T>, std::ops::RangeTo<T>: TimeConvex<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeConvex<TimePoint = T>
{
    let m = c.a.model(c.s);
    on_convex!(&c.a, c.s, T, |x| {
        queries(&x, &m, "convex")?;
        expect_set(&TimeSet::from(x.clone()), &m, "TimeSet::from convex")?;
        expect_iv(&x.into(), &m, "convex into interval")?;
    }, ());
    let x: TimeSet<T> = as_set(&c.a, c.s);
    queries(&x, &m, "set")?;
    expect_set(&-x.clone(), &m.neg(), "-set")?;
    queries(&-x.clone(), &m.neg(), "-set")?;
    if !c.a.is_set() {
        let i: TimeInterval<T> = as_iv(&c.a, c.s);
        queries(&i, &m, "interval")?;
        expect_iv(&-i, &m.neg(), "-interval")?;
    }
    // windows that are the outcome of an operation answer the same way
    let mc = m.compl();
    queries(&!x.clone(), &mc, "!set")?;
    queries(&(x.clone() & !x), &MSet::empty(), "set & !set")?;
    o.nontrivial = !m.is_empty();
    o.label_if(m.0.len() > 1, "several parts");
    Ok(())
}

// ---------------------------------------------------------------- C24

// every way back: JSON text (compact, indented, bytes, reader, tree), inside containers, and a binary format
fn rt<V: Serialize + serde::de::DeserializeOwned + Clone>(v: &V) -> Result<Vec<(&'static str, V)>, String> {
    let say = |e: &dyn Display| format!("cannot serialise: {e}");
    let s = serde_json::to_string(v).map_err(|e| say(&e))?;
    let back = |e: &dyn Display| format!("cannot read {s} back: {e}");
    let tree = serde_json::to_value(v).map_err(|e| say(&e))?;
    let pretty = serde_json::to_vec_pretty(v).map_err(|e| say(&e))?;
    let holder = (7u8, vec![Some(v.clone()), None, Some(v.clone())], v.clone());
    let text = serde_json::to_string(&holder).map_err(|e| say(&e))?;
    let bytes = bin::to_bytes(v).map_err(|e| say(&e))?;
    let held = bin::to_bytes(&holder).map_err(|e| say(&e))?;
    type H<V> = (u8, Vec<Option<V>>, V);
    let unpack = |h: H<V>| -> Result<[V; 3], String> {
        let (7, mut l, z) = h else { return Err(format!("{s}: the container is altered")) };
        if l.len() != 3 || l[1].is_some() { return Err(format!("{s}: the list around it is altered")) }
        match (l.pop().flatten(), l.pop(), l.pop().flatten()) { (Some(b), Some(None), Some(a)) => Ok([a, b, z]), _ => Err(format!("{s}: the list around it is altered")) }
    };
    let [j1, j2, j3] = unpack(serde_json::from_str::<H<V>>(&text).map_err(|e| back(&e))?)?;
    let [b1, b2, b3] = unpack(bin::from_bytes::<H<V>>(&held).map_err(|e| back(&e))?)?;
    Ok(vec![
        ("text", serde_json::from_str(&s).map_err(|e| back(&e))?),
        ("tree", serde_json::from_value(tree).map_err(|e| back(&e))?),
        ("text of a tree", serde_json::from_value(serde_json::from_str(&s).map_err(|e| back(&e))?).map_err(|e| back(&e))?),
        ("indented", serde_json::from_slice(&pretty).map_err(|e| back(&e))?),
        ("reader", serde_json::from_reader(s.as_bytes()).map_err(|e| back(&e))?),
        ("list", j1), ("end of list", j2), ("tuple", j3),
        ("binary", bin::from_bytes(&bytes).map_err(|e| back(&e))?),
        ("binary list", b1), ("end of binary list", b2), ("binary tuple", b3),
    ])
}
fn c24_json(c: &PairC, o: &mut Obs) -> Verdict { by_type!(c.dates, c24_t(c, o)) }
fn c24_t<T: P>(c: &PairC, o: &mut Obs) -> Verdict where std::ops::Range<T>: TimeConvex<TimePoint = T> {
    let m = c.a.model(c.s);
    let x: TimeSet<T> = as_set(&c.a, c.s);
    for (how, y) in rt(&x)? {
        expect_set(&y, &m, how)?;
        ensure!(x == y && hash_of(&x) == hash_of(&y), "{how}: the set read back differs");
    }
    for (how, y) in rt(&!x.clone())? { expect_set(&y, &m.compl(), how)? }
    for i in x.iter().take(4) {
        for (how, j) in rt(&i)? { ensure!(iv_parts(i) == iv_parts(j) && i == j && hash_of(&i) == hash_of(&j), "{how}: the interval {i:?} is read back as {j:?}") }
        for p in [i.lower_bound(), i.upper_bound()] {
            for (how, q) in rt(&p)? { ensure!(p == q && p.ticks() == q.ticks() && p.is_finite() == q.is_finite() && hash_of(&p) == hash_of(&q), "{how}: the point {p:?} is read back as {q:?}") }
        }
    }
    for (how, e) in rt(&TimeInterval::<T>::empty())? { ensure!(e.is_empty() && e == TimeInterval::empty() && hash_of(&e) == hash_of(&TimeInterval::<T>::empty()), "{how}: the empty interval is read back as {e:?}") }
    if !c.a.is_set() {
        let i: TimeInterval<T> = as_iv(&c.a, c.s);
        for (how, j) in rt(&i)? { expect_iv(&j, &m, how)? }
    }
    o.nontrivial = m.0.len() >= 2 || m.0.iter().any(|p| p.0 == -INF || p.1 == INF);
    Ok(())
}
