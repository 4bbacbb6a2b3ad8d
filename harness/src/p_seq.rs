//! C23: periodic date sequences.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_time::fintick;
use crate::{ensure, ensure_eq, Prop};
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", legs: vec![
        Box::new(Leg { name: "histories", rule: "forward, backward, plain and aligned sequences driven by up to 20 next/nth/count/last/size_hint/skip/step_by/take operations; non-trivial: 3 or more operations and at least one jump", quick: 1_600_000, thorough: 20_000_000, strat: seq_strat, check: c23 }) as Box<dyn AnyLeg>,
        Box::new(Leg { name: "range-end", rule: "sequences whose remaining length is at most 40, walked to their end and beyond; non-trivial: at least 2 items remain", quick: 600_000, thorough: 8_000_000, strat: end_strat, check: c23 }),
        Box::new(Leg { name: "refused", rule: "periods that are not strictly positive, infinite periods and infinite start dates must be rejected; non-trivial: a finite start date", quick: 100_000, thorough: 1_000_000, strat: bad_strat, check: c23_bad }),
    ]}]
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum SOp { Next, Nth(u64), NthNearEnd(i8), Hint, Count, Last, Take(u8), Skip(u8), StepBy(u8), Stamp }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct SeqC { back: bool, aligned: bool, t: i64, p: i64, ops: Vec<SOp> }

fn ops(n: usize) -> BoxedStrategy<Vec<SOp>> {
    prop::collection::vec(prop_oneof![
        4 => Just(SOp::Next), 3 => (0u64..5).prop_map(SOp::Nth), 1 => (0u32..64, any::<u64>()).prop_map(|(s, x)| SOp::Nth(x >> s)), 2 => (-4i8..4).prop_map(SOp::NthNearEnd),
        2 => Just(SOp::Hint), 1 => Just(SOp::Count), 1 => Just(SOp::Last), 1 => (0u8..6).prop_map(SOp::Take), 1 => (0u8..6).prop_map(SOp::Skip), 1 => (1u8..6).prop_map(SOp::StepBy), 1 => Just(SOp::Stamp),
    ], 0..n).boxed()
}
fn period() -> BoxedStrategy<i64> {
    prop_oneof![3 => 1i64..50, 1 => Just(1i64), 2 => (1i64..100_000).prop_map(|k| k << 30), 2 => (0u32..62, any::<i64>()).prop_map(|(s, x)| (x >> s).saturating_abs().clamp(1, INF - 1)), 1 => (INF - 5..INF).boxed()].boxed()
}
fn seq_strat() -> BoxedStrategy<SeqC> {
    (any::<bool>(), any::<bool>(), prop_oneof![3 => fintick(), 1 => (period(), -40i64..40, -1i64..2).prop_map(|(p, k, d)| (p as i128 * k as i128 + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64)], period(), ops(20))
        .prop_map(|(back, aligned, t, p, ops)| SeqC { back, aligned, t, p, ops }).boxed()
}
fn end_strat() -> BoxedStrategy<SeqC> {
    (any::<bool>(), any::<bool>(), period(), 0i64..40, -3i64..4, ops(12)).prop_map(|(back, aligned, p, k, d, mut ops)| {
        let x = (INF as i128 - k as i128 * p as i128 + d as i128).clamp(-(INF as i128) + 1, INF as i128 - 1) as i64;
        for _ in 0..(k + 3).min(40) { ops.push(SOp::Next) }
        ops.push(SOp::Count);
        SeqC { back, aligned, t: if back { -x } else { x }, p, ops }
    }).boxed()
}
fn bad_strat() -> BoxedStrategy<SeqC> {
    let inf = || prop::sample::select(vec![INF, -INF]);
    prop_oneof![
        3 => (fintick(), prop_oneof![1 => Just(0i64), 2 => period().prop_map(|p| -p), 1 => inf()]),
        1 => (inf(), period()),
    ].prop_flat_map(|(t, p)| (any::<bool>(), any::<bool>()).prop_map(move |(back, aligned)| SeqC { back, aligned, t, p, ops: vec![] })).boxed()
}
fn c23_bad(c: &SeqC, o: &mut Obs) -> Verdict {
    let (d, p) = (ts(c.t), tv(c.p));
    let r = match (c.back, c.aligned) {
        (false, false) => panics(|| { d.forward_sequence(p); }),
        (false, true) => panics(|| { d.forward_periods(p); }),
        (true, false) => panics(|| { d.backward_sequence(p); }),
        (true, true) => panics(|| { d.backward_periods(p); }),
    };
    ensure!(r.is_err(), "a sequence from {} by {} is accepted", c.t, c.p);
    o.nontrivial = c.t.abs() != INF;
    Ok(())
}
fn c23(c: &SeqC, o: &mut Obs) -> Verdict {
    let (t, p) = (c.t as i128, c.p as i128);
    let lim = INF as i128;
    let floor = t - t.rem_euclid(p);
    let ceil = if floor == t { t } else { floor + p };
    // the state before the first item is one period away and must be representable
    let ok = |s: i128| s.abs() < lim && (if c.back { s + p } else { s - p }).abs() < lim;
    let start = if c.aligned { ceil } else { t };
    if !ok(start) || (c.aligned && !ok(floor)) { return Ok(()) }
    let d = ts(c.t);
    let per = tv(c.p);
    o.nontrivial = c.ops.len() >= 3 && c.ops.iter().any(|x| matches!(x, SOp::Nth(_) | SOp::NthNearEnd(_) | SOp::StepBy(_) | SOp::Skip(_)));
    o.label_if(c.back, "backward");
    o.label_if(c.aligned, "aligned");
    match (c.back, c.aligned) {
        (false, false) => drive(d.forward_sequence(per), start, p, &c.ops, o),
        (false, true) => drive(d.forward_periods(per), start, p, &c.ops, o),
        (true, false) => drive(d.backward_sequence(per), start, -p, &c.ops, o),
        (true, true) => {
            // which of the two neighbouring multiples comes first is not promised
            let s = d.backward_periods(per);
            let first = s.clone().next().ok_or("no first item")?.ticks() as i128;
            ensure!(first == floor || first == ceil, "first aligned date {first} of {t} by {p}");
            drive(s, first, -p, &c.ops, o)
        }
    }
}
fn drive<S: Iterator<Item = Timestamp> + Clone + Timestamped>(mut s: S, start: i128, step: i128, ops: &[SOp], o: &mut Obs) -> Verdict {
    let lim = INF as i128;
    let mut cur = start; // next item to come, or out of the range
    let mut walked: Option<i128> = None; // last item given
    let left = |cur: i128| -> u128 { if cur.abs() >= lim { 0 } else if step > 0 { ((lim - 1 - cur) / step) as u128 + 1 } else { ((cur + lim - 1) / -step) as u128 + 1 } };
    let item = |cur: i128, n: u128| -> Option<i64> { if n < left(cur) { Some((cur + n as i128 * step) as i64) } else { None } };
    for (k, op) in ops.iter().enumerate() {
        o.step();
        match op {
            SOp::Next => {
                let want = item(cur, 0);
                ensure_eq!(s.next().map(|x| x.ticks()), want, "op {k}: next");
                if let Some(w) = want { cur += step; walked = Some(w as i128) } else { cur = lim; walked = None; o.label("end reached") }
            }
            SOp::Nth(_) | SOp::NthNearEnd(_) => {
                let n = match op { SOp::Nth(n) => *n as u128, SOp::NthNearEnd(d) => (left(cur) as i128 + *d as i128).max(0) as u128, _ => 0 };
                if n > usize::MAX as u128 { continue }
                let want = item(cur, n);
                ensure_eq!(s.nth(n as usize).map(|x| x.ticks()), want, "op {k}: nth({n})");
                if let Some(w) = want { cur += (n as i128 + 1) * step; walked = Some(w as i128) } else { cur = lim; walked = None; o.label("jump beyond the end") }
            }
            SOp::Hint => {
                let (lo, hi) = s.size_hint();
                let n = left(cur);
                let n = usize::try_from(n).map_err(|e| e.to_string())?;
                ensure_eq!((lo, hi), (n, Some(n)), "op {k}: size hint");
            }
            SOp::Count => ensure_eq!(s.clone().count() as u128, left(cur), "op {k}: count"),
            SOp::Last => ensure_eq!(s.clone().last().map(|x| x.ticks()), left(cur).checked_sub(1).and_then(|n| item(cur, n)), "op {k}: last"),
            SOp::Take(n) => {
                let got: Vec<i64> = s.clone().take(*n as usize).map(|x| x.ticks()).collect();
                let want: Vec<i64> = (0..*n as u128).map_while(|i| item(cur, i)).collect();
                ensure_eq!(got, want, "op {k}: take({n})");
            }
            SOp::Skip(n) => ensure_eq!(s.clone().skip(*n as usize).next().map(|x| x.ticks()), item(cur, *n as u128), "op {k}: skip({n})"),
            SOp::StepBy(n) => {
                let got: Vec<i64> = s.clone().step_by(*n as usize).take(4).map(|x| x.ticks()).collect();
                let want: Vec<i64> = (0..4u128).map_while(|i| item(cur, i * *n as u128)).collect();
                ensure_eq!(got, want, "op {k}: step_by({n})");
            }
            SOp::Stamp => if let Some(w) = walked { ensure_eq!(s.timestamp().ticks() as i128, w, "op {k}: timestamp is the last date given") },
        }
    }
    Ok(())
}
