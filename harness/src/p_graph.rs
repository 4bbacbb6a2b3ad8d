//! C16–C20: time graphs against a simple temporal network closed from scratch.
//!
//! Every leg drives the real graph with operation histories and compares the whole observable
//! state (size and every time span) with the model after each step. The legs differ by what the
//! generator favours and by what is judged on the way.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq, Prop};
use chronologic::graph::*;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }
fn exbox<C: CaseT>(l: ExLeg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", legs: vec![
            boxed(Leg { name: "histories", rule: "histories of up to 24 single, batch, merged and collected additions of mostly consistent constraints over up to 9 instants, every time span compared after each step; non-trivial: 3 or more additions changed the network and an implied bound differs from the given ones", quick: 200_000, thorough: 6_000_000, strat: || hist(HistP { n: 9, len: 24, bad: 0, shape: 1, batch: 3 }), check: c16 }),
            boxed(Leg { name: "large", rule: "batches and single additions over up to 40 instants; non-trivial: as above", quick: 1_500, thorough: 60_000, strat: || hist(HistP { n: 40, len: 30, bad: 0, shape: 0, batch: 30 }), check: c16 }),
            boxed(Leg { name: "range-end", rule: "huge constraints, consistent with some dates or arbitrary, whose implied durations may leave the range: no crash, no refusal of a consistent set, no bound tighter than implied, and the exact closure whenever all of it is in the range; non-trivial: an implied duration leaves the range", quick: 100_000, thorough: 3_000_000, strat: fars, check: c16_far }),
            exbox(ExLeg { name: "small-scope", rule: "every sequence of 3 constraints out of a fixed family over 3 instants, on an empty graph and on a sized one; non-trivial: all accepted", cases: small_seqs, check: c16_small }),
            boxed(Leg { name: "spread", rule: "few constrained instants among hundreds, with indexes up to 700 (rarely 3000), where all the other pairs remain unconstrained; non-trivial: 3 or more additions changed the network", quick: 1000, thorough: 90000, strat: || big(0, 1), check: |c, o| c_big(c, o, Judge::Spans) }),
        ]},
        Prop { id: "C17", legs: vec![
            boxed(Leg { name: "histories", rule: "histories mixing consistent, redundant, contradictory, empty and self constraints, alone or in batches, with reuse after each failure; non-trivial: a failure followed by another operation", quick: 250_000, thorough: 8_000_000, strat: || hist(HistP { n: 7, len: 18, bad: 3, shape: 4, batch: 4 }), check: c17 }),
            exbox(ExLeg { name: "small-scope", rule: "every sequence of 3 constraints out of a fixed family over 3 instants; non-trivial: at least one refused", cases: small_seqs, check: c17_small }),
            boxed(Leg { name: "spread", rule: "few constrained instants among hundreds, with indexes up to 700 (rarely 3000), where all the other pairs remain unconstrained; non-trivial: a refusal followed by another operation", quick: 1000, thorough: 90000, strat: || big(3, 2), check: |c, o| c_big(c, o, Judge::Kinds) }),
            boxed(Leg { name: "large", rule: "the same over up to 28 instants; non-trivial: as for the first leg", quick: 2500, thorough: 90000, strat: || hist(HistP { n: 28, len: 24, bad: 3, shape: 3, batch: 20 }), check: c17 }),
        ]},
        Prop { id: "C18", legs: vec![
            boxed(Leg { name: "deliveries", rule: "one set of up to 16 constraints delivered in two different ways (order, batches, merges of a partition, collection, reversed directions, other window types); non-trivial: 3 or more constraints over 3 or more instants", quick: 600_000, thorough: 8_000_000, strat: deliveries, check: c18 }),
            boxed(Leg { name: "large", rule: "the same with up to 70 constraints over up to 32 instants; non-trivial: as above", quick: 2_000, thorough: 80_000, strat: many_deliveries, check: c18 }),
            boxed(Leg { name: "spread", rule: "the same on 7 instants anywhere in a graph of up to 270; non-trivial: as above", quick: 1_200, thorough: 60_000, strat: spread_deliveries, check: c18 }),
        ]},
        Prop { id: "C19", legs: vec![
            boxed(Leg { name: "lookups", rule: "graphs from random histories, every iterator drained with its size hint checked at each step, every lookup for indexes inside and outside the graph; non-trivial: 3 or more instants with both constrained and unconstrained pairs", quick: 300_000, thorough: 6_000_000, strat: || hist(HistP { n: 8, len: 10, bad: 1, shape: 3, batch: 4 }), check: c19 }),
            boxed(Leg { name: "equivalence", rule: "pairs of constraints of every window type compared by equiv; non-trivial: both bounded", quick: 200_000, thorough: 5_000_000, strat: equivs, check: c19_equiv }),
            boxed(Leg { name: "spread", rule: "few constrained instants among hundreds, with indexes up to 700 (rarely 3000), where all the other pairs remain unconstrained; non-trivial: an unconstrained pair of constrained instants", quick: 600, thorough: 40000, strat: || big(0, 2), check: |c, o| c_big(c, o, Judge::Lookups) }),
            boxed(Leg { name: "large", rule: "the same over up to 28 instants; non-trivial: as for the first leg", quick: 800, thorough: 30000, strat: || hist(HistP { n: 28, len: 24, bad: 1, shape: 3, batch: 20 }), check: c19 }),
        ]},
        Prop { id: "C20", legs: vec![
            boxed(Leg { name: "histories", rule: "histories favouring resize, shrink_to_fit, shrink_to, reset and clone among additions and merges; non-trivial: 2 or more structural operations on a constrained graph followed by an addition", quick: 250_000, thorough: 8_000_000, strat: || hist(HistP { n: 8, len: 22, bad: 1, shape: 8, batch: 3 }), check: c20 }),
            boxed(Leg { name: "spread", rule: "few constrained instants among hundreds, with indexes up to 700 (rarely 3000), where all the other pairs remain unconstrained; non-trivial: 2 or more structural operations on a constrained graph", quick: 1000, thorough: 90000, strat: || big(0, 10), check: |c, o| c_big(c, o, Judge::Shape) }),
            boxed(Leg { name: "large", rule: "the same over up to 28 instants; non-trivial: as for the first leg", quick: 2500, thorough: 90000, strat: || hist(HistP { n: 28, len: 24, bad: 1, shape: 8, batch: 20 }), check: c20 }),
        ]},
    ]
}

// ---------------------------------------------------------------- cases

/// A bound pair of a constraint, in coordinates relative to the hidden assignment
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub enum KSpan { Both(i16, i16), Low(i16), Up(i16), All, Pt(i16), Excl(i16, i16), ExclUp(i16), Incl(i16, i16), From(i16), To(i16), Empty,
    /// infinite durations: `+oo` or `-oo` as a point, `+oo..`, `..=-oo`, `+oo..=+oo`, `-oo..=-oo`, `..-oo`
    Inf(u8) }
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub struct K { pub i: u8, pub j: u8, pub w: KSpan }
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub enum GOp {
    One(K), Many(Vec<K>), Trait(Vec<K>), Merge(Vec<K>, u8, bool), Collect(Vec<K>), Lazy(Vec<K>),
    Resize(u8), Fit, ShrinkTo(u8), Reset, CloneSwap, Rebuild, MergeSelf,
    /// shrink_to a size far beyond the graph
    ShrinkBig(u8),
    /// an instant index (or a size) beyond the limit of 65 535 instants
    Beyond(u8, u8),
}
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub struct Hist { pub unit: i64, pub start: u8, pub hidden: Vec<i16>, pub ops: Vec<GOp>,
    /// look at the graph only after the last step, so that looking cannot mend it
    #[serde(default)] pub blind: bool }

#[derive(Clone, Copy)]
pub struct HistP { pub n: u8, pub len: usize, pub bad: u32, pub shape: u32, pub batch: usize }

fn unit() -> BoxedStrategy<i64> {
    prop_oneof![4 => Just(1i64), 1 => Just(1 << 30), 1 => Just(3600 << 30), 1 => 1i64..1_000_000, 1 => Just(1i64 << 46)].boxed()
}
pub fn kspan() -> BoxedStrategy<KSpan> {
    // slack on both sides of the hidden value: zero slack makes equalities
    let s = || prop_oneof![3 => Just(0i16), 4 => 0i16..6, 1 => 0i16..60];
    prop_oneof![
        8 => (s(), s()).prop_map(|(a, b)| KSpan::Both(-a, b)),
        3 => s().prop_map(|a| KSpan::Low(-a)), 3 => s().prop_map(KSpan::Up),
        1 => Just(KSpan::All), 2 => Just(KSpan::Pt(0)),
        1 => (s(), s()).prop_map(|(a, b)| KSpan::Excl(-a, b + 1)), 1 => s().prop_map(|b| KSpan::ExclUp(b + 1)),
        1 => (s(), s()).prop_map(|(a, b)| KSpan::Incl(-a, b)), 1 => s().prop_map(|a| KSpan::From(-a)), 1 => s().prop_map(KSpan::To),
    ].boxed()
}
fn bad_kspan() -> BoxedStrategy<KSpan> {
    let s = || -30i16..30;
    prop_oneof![
        4 => (s(), 0i16..5).prop_map(|(a, l)| KSpan::Both(a, a + l)), 2 => s().prop_map(KSpan::Low), 2 => s().prop_map(KSpan::Up),
        1 => s().prop_map(KSpan::Pt), 2 => Just(KSpan::Empty), 1 => (s(), s()).prop_map(|(a, b)| KSpan::Incl(a, b)), 1 => (s(), s()).prop_map(|(a, b)| KSpan::Excl(a, b)),
        1 => (0u8..7).prop_map(KSpan::Inf),
    ].boxed()
}
pub fn constraint(n: u8, bad: u32) -> BoxedStrategy<K> {
    let w = if bad == 0 { kspan() } else { prop_oneof![12 => kspan(), bad => bad_kspan()].boxed() };
    (0..n, 0..n, w).prop_map(move |(i, j, w)| K { i, j, w }).boxed()
}
fn distinct(n: u8, bad: u32) -> BoxedStrategy<K> {
    // mostly distinct instants
    (constraint(n, bad), prop::bool::weighted(0.9)).prop_map(move |(mut k, fix)| { if fix && k.i == k.j { k.j = (k.j + 1) % n } k }).boxed()
}
fn hist(p: HistP) -> BoxedStrategy<Hist> {
    let ks = move |lo: usize| prop::collection::vec(distinct(p.n, p.bad), lo..=p.batch);
    let op = prop_oneof![
        16 => distinct(p.n, p.bad).prop_map(GOp::One),
        2 => ks(0).prop_map(GOp::Many), 1 => ks(0).prop_map(GOp::Lazy), 1 => ks(0).prop_map(GOp::Trait),
        2 => (ks(0), 0..p.n + 3, prop::bool::weighted(0.3)).prop_map(|(k, n, f)| GOp::Merge(k, n, f)), 1 => ks(0).prop_map(GOp::Collect),
        p.shape => prop_oneof![4 => (0..p.n + 3).prop_map(GOp::Resize), 3 => Just(GOp::Fit), 1 => (0..p.n + 3).prop_map(GOp::ShrinkTo), 2 => Just(GOp::Reset), 1 => Just(GOp::CloneSwap), 1 => Just(GOp::Rebuild), 1 => Just(GOp::MergeSelf), 1 => (0u8..5).prop_map(GOp::ShrinkBig), 1 => (0u8..5, 0u8..7).prop_map(|(a, b)| GOp::Beyond(a, b))],
    ];
    (unit(), prop_oneof![2 => Just(0u8), 1 => 0..p.n + 1], prop::collection::vec(-40i16..40, p.n as usize), prop::collection::vec(op, 1..=p.len), prop::bool::weighted(0.15))
        .prop_map(|(unit, start, hidden, ops, blind)| Hist { unit, start, hidden, ops, blind }).boxed()
}

// ---------------------------------------------------------------- real and model constraints

pub struct Cx<'a> { pub unit: i64, pub hidden: &'a [i16] }
impl Cx<'_> {
    fn at(&self, k: &K, c: i16) -> i64 {
        let h = |i: u8| self.hidden.get(i as usize).copied().unwrap_or(0) as i64;
        let base = if k.i == k.j { 0 } else { h(k.j) - h(k.i) };
        (base + c as i64) * self.unit
    }
    /// bounds of the constraint; None if it is empty
    pub fn bounds(&self, k: &K) -> Option<(i64, i64)> {
        let at = |c: i16| self.at(k, c);
        let (l, u) = match k.w {
            KSpan::Both(a, b) | KSpan::Incl(a, b) => (at(a), at(b)),
            KSpan::Low(a) | KSpan::From(a) => (at(a), INF),
            KSpan::Up(b) | KSpan::To(b) => (-INF, at(b)),
            KSpan::All => (-INF, INF),
            KSpan::Pt(a) => (at(a), at(a)),
            KSpan::Excl(a, b) => (at(a), at(b) - 1),
            KSpan::ExclUp(b) => (-INF, at(b) - 1),
            KSpan::Empty | KSpan::Inf(_) => (0, -1),
        };
        if l <= u { Some((l, u)) } else { None }
    }
    pub fn span(&self, k: &K) -> TimeSpan { match self.bounds(k) { Some((l, u)) => iv(l, u), None => TimeSpan::empty() } }
    fn ids(&self, k: &K) -> (Instant, Instant) { (k.i as Instant, k.j as Instant) }
    /// the constraint with the window type the case asks for
    pub fn propagate(&self, g: &mut TimeGraph, k: &K) -> Out {
        let ij = self.ids(k);
        let at = |c: i16| tv(self.at(k, c));
        out(match k.w {
            KSpan::Pt(a) => g.propagate((ij, at(a))),
            KSpan::Excl(a, b) => g.propagate((ij, at(a)..at(b))),
            KSpan::ExclUp(b) => g.propagate((ij, ..at(b))),
            KSpan::Incl(a, b) => g.propagate((ij, at(a)..=at(b))),
            KSpan::From(a) => g.propagate((ij, at(a)..)),
            KSpan::To(b) => g.propagate((ij, ..=at(b))),
            // no finite duration satisfies these
            KSpan::Inf(0) => g.propagate((ij, tv(INF))),
            KSpan::Inf(1) => g.propagate((ij, tv(-INF))),
            KSpan::Inf(2) => g.propagate((ij, tv(INF)..)),
            KSpan::Inf(3) => g.propagate((ij, ..=tv(-INF))),
            KSpan::Inf(4) => g.propagate((ij, tv(INF)..=tv(INF))),
            KSpan::Inf(5) => g.propagate((ij, tv(-INF)..=tv(-INF))),
            KSpan::Inf(_) => g.propagate((ij, ..tv(-INF))),
            _ => g.propagate((ij, self.span(k))),
        })
    }
    pub fn list(&self, ks: &[K]) -> Vec<((Instant, Instant), TimeSpan)> { ks.iter().map(|k| (self.ids(k), self.span(k))).collect() }
}

/// Result of an addition, read from its Debug form (its type is not nameable outside the crate)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out { Unchanged, Propagated, Recovered, Fatal }
pub fn out<A: std::fmt::Debug, B: std::fmt::Debug>(r: Result<A, B>) -> Out {
    match format!("{r:?}").as_str() {
        "Ok(Unchanged)" => Out::Unchanged, "Ok(Propagated)" => Out::Propagated,
        "Err(Recovered)" => Out::Recovered, "Err(Fatal)" => Out::Fatal,
        s => panic!("unknown result {s}"),
    }
}
impl Out { pub fn ok(self) -> bool { matches!(self, Out::Unchanged | Out::Propagated) } }

/// Model of adding a batch: None when inconsistent or when a constraint is empty
pub fn madd(m: &Stn, cx: &Cx, ks: &[K]) -> Option<Stn> {
    let mut r = m.clone();
    for k in ks {
        let (l, u) = cx.bounds(k)?;
        r.grow(k.i.max(k.j) as usize + 1);
        r.add(k.i as usize, k.j as usize, l, u);
    }
    if r.close() { Some(r) } else { None }
}
pub fn same_graph(g: &TimeGraph, m: &Stn, what: &str) -> Verdict {
    ensure_eq!(g.size() as usize, m.n, "{what}: size");
    for i in 0..m.n { for j in 0..m.n {
        let s = g.timespan(i as u32, j as u32);
        ensure_eq!((s.lower_bound().as_ticks(), s.upper_bound().as_ticks()), m.span(i, j), "{what}: time span from {i} to {j}");
    }}
    Ok(())
}

// ---------------------------------------------------------------- the driver

#[derive(Default)]
struct Tally { blind: bool, accepted: u32, changed: u32, refused: u32, after_refusal: u32, structural: u32, add_after_struct: u32 }

struct Sink<'a> { check_kind: bool, step: &'a mut dyn FnMut(&TimeGraph, &Stn, usize) -> Verdict }

/// What an addition may answer, given the state before and the model of the state after
fn judge(g: &mut TimeGraph, m: &mut Stn, o: Out, want: Option<Stn>, kind: bool, t: &mut Tally, what: &str) -> Verdict {
    match want {
        Some(r) => {
            ensure!(o.ok(), "{what}: refused ({o:?}) though it is consistent");
            if !t.blind { same_graph(g, &r, what)?; }
            if kind { ensure_eq!(o, if r == *m { Out::Unchanged } else { Out::Propagated }, "{what}: result"); }
            t.accepted += 1;
            if r != *m { t.changed += 1 }
            if t.structural > 0 { t.add_after_struct += 1 }
            *m = r;
        }
        None => {
            ensure!(!o.ok(), "{what}: accepted ({o:?}) though it is inconsistent");
            if o == Out::Fatal { *m = Stn::new(0) }
            if !t.blind { same_graph(g, m, &format!("{what}: after {o:?}"))?; }
            t.refused += 1;
        }
    }
    Ok(())
}
fn drive(c: &Hist, s: &mut Sink, t: &mut Tally, o: &mut Obs) -> Verdict {
    let cx = Cx { unit: c.unit, hidden: &c.hidden };
    let mut g = TimeGraph::with_size(c.start as u32);
    let mut m = Stn::new(c.start as usize);
    if !c.blind { same_graph(&g, &m, "with_size")?; }
    for (n, op) in c.ops.iter().enumerate() {
        o.step();
        t.blind = c.blind && n + 1 < c.ops.len();
        if t.refused > 0 { t.after_refusal += 1 }
        let what = &format!("step {n}");
        match op {
            GOp::One(k) => {
                let want = madd(&m, &cx, std::slice::from_ref(k));
                let r = cx.propagate(&mut g, k);
                judge(&mut g, &mut m, r, want, s.check_kind, t, what)?;
            }
            GOp::Many(ks) => {
                let want = madd(&m, &cx, ks);
                let r = out(TimeGraph::extend(&mut g, cx.list(ks)));
                judge(&mut g, &mut m, r, want, s.check_kind, t, what)?;
            }
            GOp::Lazy(ks) => {
                // an iterator that does not know its length
                let want = madd(&m, &cx, ks);
                let list = cx.list(ks);
                let junk = ((0, 200), TimeSpan::empty());
                let r = match list.first().map_or(n % 2, |k| (k.0.0 + k.0.1) as usize + list.len()) % 6 {
                    3 | 4 | 5 => { let how = (n + list.len()) as u8 + (list.first().map_or(0, |k| k.0.1) as u8) * 3; out(TimeGraph::extend(&mut g, hint(list, how))) }
                    0 => out(TimeGraph::extend(&mut g, list.into_iter().filter(|_| true))),
                    // (0, None)
                    1 => { let mut it = list.into_iter(); out(TimeGraph::extend(&mut g, std::iter::from_fn(move || it.next()))) }
                    // an upper bound that is not reached
                    _ => out(TimeGraph::extend(&mut g, std::iter::once(junk).chain(list).filter(|k| k.0.1 != 200))),
                };
                judge(&mut g, &mut m, r, want, s.check_kind, t, what)?;
            }
            GOp::Trait(ks) => {
                let want = madd(&m, &cx, ks);
                let mut copy = g.clone();
                let r = panics(|| Extend::extend(&mut copy, hint(cx.list(ks), (n + ks.len()) as u8)));
                match want {
                    Some(w) => { if let Err(e) = r { return Err(format!("{what}: Extend: {e}")) } g = copy; if !t.blind { same_graph(&g, &w, what)?; } t.accepted += 1; m = w }
                    None => { ensure!(r.is_err(), "{what}: Extend accepts inconsistent constraints"); if !t.blind { same_graph(&g, &m, "clone source")?; } t.refused += 1 }
                }
            }
            GOp::Merge(ks, size, fit) => {
                let mut base = Stn::new(*size as usize);
                let mut other = TimeGraph::with_size(*size as u32);
                // the other graph gets what it can
                for k in ks { if let Some(b) = madd(&base, &cx, std::slice::from_ref(k)) { base = b; let r = cx.propagate(&mut other, k); ensure!(r.ok(), "{what}: other graph refuses ({r:?})"); } }
                if *fit { base.shrink(base.used()); other.shrink_to_fit(); if !t.blind { same_graph(&other, &base, &format!("{what}: other graph shrunk"))?; } }
                let mut w = m.clone();
                w.grow(base.n);
                for i in 0..base.n { for j in 0..base.n { let (l, u) = base.span(i, j); w.add(i, j, l, u) } }
                let want = if w.close() { Some(w) } else { None };
                let r = out(g.merge(other));
                judge(&mut g, &mut m, r, want, s.check_kind, t, what)?;
            }
            GOp::MergeSelf => {
                let r = out(g.merge(g.clone()));
                let w = m.clone();
                judge(&mut g, &mut m, r, Some(w), s.check_kind, t, what)?;
            }
            GOp::Collect(ks) => {
                let want = madd(&Stn::new(0), &cx, ks);
                let r = panics(|| hint(cx.list(ks), (n + ks.len()) as u8).collect::<TimeGraph>());
                match (want, r) {
                    (Some(w), Ok(x)) => { if !t.blind { same_graph(&x, &w, &format!("{what}: collect"))?; } g = x; m = w; t.accepted += 1 }
                    (None, Err(_)) => t.refused += 1,
                    (Some(_), Err(e)) => return Err(format!("{what}: collect: {e}")),
                    (None, Ok(_)) => return Err(format!("{what}: collects inconsistent constraints")),
                }
            }
            GOp::Resize(k) => { if *k as usize <= m.n { m.shrink(*k as usize) } else { m.grow(*k as usize) } g.resize(*k as u32); t.structural += u32::from(t.accepted > 0) }
            GOp::Fit => {
                m.shrink(m.used());
                g.shrink_to_fit();
                t.structural += u32::from(t.accepted > 0)
            }
            GOp::ShrinkTo(k) => { g.shrink_to(*k as u32); t.structural += u32::from(t.accepted > 0) }
            GOp::Reset => { m.reset(); g.reset(); t.structural += u32::from(t.accepted > 0) }
            GOp::CloneSwap => {
                // the clone lives on; the original is changed then dropped
                let x = g.clone();
                let size = g.size();
                g.reset();
                let _ = g.propagate(((0, size + 1), tv(5)..=tv(6)));
                let _ = TimeGraph::extend(&mut g, [((0, 1), tv(1)..=tv(2)), ((1, 0), tv(1)..=tv(2))]);
                // over a graph of another size, constrained otherwise
                let k = n + c.hidden.first().map_or(0, |h| h.unsigned_abs() as usize);
                if k % 2 == 0 {
                    let mut y = TimeGraph::with_size(size.saturating_sub(k as u32 % 3));
                    if k % 3 > 0 { let _ = y.propagate(((0, size + k as u32 % 5), tv(5)..=tv(6))); }
                    y.clone_from(&x);
                    g = y;
                } else { g = x; }
            }
            GOp::ShrinkBig(k) => g.shrink_to([u32::MAX, 65_536, 92_682, 65_535, 1 << 31][*k as usize % 5]),
            GOp::Beyond(k, how) => {
                let x = [65_536u32, u32::MAX, u32::MAX - 1, 70_000, 1 << 20][*k as usize % 5];
                let k5 = tv(5)..=tv(5);
                let r = match how {
                    0 => panics(|| { let _ = g.propagate(((0, x), k5)); }),
                    1 => panics(|| { let _ = g.propagate(((x, 1), k5)); }),
                    2 => panics(|| g.resize(x)),
                    3 => panics(|| { let _ = TimeGraph::with_size(x); }),
                    4 => { let mut h = g.clone(); panics(|| { let _ = TimeGraph::extend(&mut h, [((1, x), tv(0)..), ((0, 1), tv(0)..)]); }) }
                    5 => { let mut h = g.clone(); panics(|| { let _ = TimeGraph::extend(&mut h, [((x, x), tv(0)..)]); }) }
                    _ => panics(|| { let _ = [((x, 0), k5)].into_iter().collect::<TimeGraph>(); }),
                };
                ensure!(r.is_err(), "{what}: instant {x} is accepted");
            }
            GOp::Rebuild => {
                let mut x = TimeGraph::with_size(g.size());
                let r = out(TimeGraph::extend(&mut x, g.iter()));
                ensure!(r.ok(), "{what}: the graph's own constraints are refused ({r:?})");
                if !t.blind { same_graph(&x, &m, &format!("{what}: rebuilt from its constraints"))?; }
                g = x;
            }
        }
        if t.blind { continue }
        same_graph(&g, &m, what)?;
        (s.step)(&g, &m, n)?;
    }
    Ok(())
}
fn implied(c: &Hist, m: &Stn) -> bool {
    // some constrained pair was never mentioned by a constraint
    let mut named = std::collections::HashSet::new();
    for op in &c.ops { match op { GOp::One(k) => { named.insert((k.i, k.j)); named.insert((k.j, k.i)); } GOp::Many(v) | GOp::Trait(v) | GOp::Merge(v, ..) | GOp::Collect(v) | GOp::Lazy(v) => for k in v { named.insert((k.i, k.j)); named.insert((k.j, k.i)); }, _ => () } }
    (0..m.n).any(|i| (0..i).any(|j| m.constrained(i, j) && !named.contains(&(i as u8, j as u8))))
}
fn labels(c: &Hist, t: &Tally, o: &mut Obs) {
    o.label_if(t.refused > 0, "refusal");
    o.label_if(c.ops.iter().any(|x| matches!(x, GOp::Merge(..))), "merge");
    o.label_if(c.ops.iter().any(|x| matches!(x, GOp::Many(v) | GOp::Lazy(v) | GOp::Trait(v) | GOp::Collect(v) if v.len() > 1)), "batch");
    o.label_if(t.structural > 0, "structural");
    o.label_if(c.blind && c.ops.len() > 1, "looked at only at the end");
}
fn c16(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let mut imp = false;
    let r = drive(c, &mut Sink { check_kind: false, step: &mut |_, m, _| { imp |= implied(c, m); Ok(()) } }, &mut t, o);
    o.nontrivial = t.changed >= 3 && imp;
    labels(c, &t, o);
    r
}
fn c17(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut Sink { check_kind: true, step: &mut |_, _, _| Ok(()) }, &mut t, o);
    o.nontrivial = t.after_refusal > 0;
    labels(c, &t, o);
    r
}
fn c20(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut Sink { check_kind: false, step: &mut |_, _, _| Ok(()) }, &mut t, o);
    o.nontrivial = t.structural >= 2 && t.add_after_struct > 0;
    labels(c, &t, o);
    r
}

// ---------------------------------------------------------------- few instants of a big graph

/// `pal` are the instants that constraints mention; `K` gives positions in it
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct BigC { unit: i64, start: u32, pal: Vec<u32>, hidden: Vec<i16>, ops: Vec<BOp> }
#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum BOp { One(K), Many(Vec<K>), Merge(Vec<K>, u32), Collect(Vec<K>), Resize(u32), Fit, ShrinkTo(u32), Reset, CloneSwap }
#[derive(Clone, Copy, PartialEq)]
enum Judge { Spans, Kinds, Lookups, Shape }

fn big(bad: u32, shape: u32) -> BoxedStrategy<BigC> {
    // the propagation of a batch is cubic: batches on the smaller graphs mostly
    prop_oneof![90 => Just((110u32, true)), 4 => Just((290, true)), 60 => Just((700, false)), 3 => Just((3000, false))].prop_flat_map(move |(max, batch)| {
        let idx = prop_oneof![3 => 0..max, 1 => 0u32..12, 1 => prop::sample::select(vec![15u32, 16, 63, 64, 100, 255, 256, 257, 511, 512]).prop_map(move |x| x.min(max - 1))];
        let size = move || prop_oneof![1 => 0..max, 1 => Just(0u32), 1 => Just(max / 2)];
        let p = 6u8;
        let ks = move |lo: usize| prop::collection::vec(distinct(p, bad), lo..=5);
        let b = u32::from(batch);
        let op = prop_oneof![
            12 => distinct(p, bad).prop_map(BOp::One),
            (if max > 2000 { 0 } else { 1 + 2 * b }) => ks(if batch { 0 } else { 1 }).prop_map(move |mut v| { if !batch { v.truncate(1) } BOp::Many(v) }),
            2 * b => (ks(0), size()).prop_map(|(k, n)| BOp::Merge(k, n)), b => ks(0).prop_map(BOp::Collect),
            shape => prop_oneof![4 => (0u32..12, size()).prop_map(|(k, n)| BOp::Resize(if k < 6 { k + 1_000_000 } else { n })), 4 => Just(BOp::Fit), 1 => size().prop_map(BOp::ShrinkTo), 1 => Just(BOp::Reset), 2 => Just(BOp::CloneSwap)],
        ];
        (unit(), size(), prop::collection::btree_set(idx, p as usize), prop::collection::vec(-40i16..40, p as usize), prop::collection::vec(op, 1..=(if max > 2000 { 5 } else if max == 290 { 8 } else { 14 })))
            .prop_map(|(unit, start, pal, hidden, ops)| BigC { unit, start, pal: pal.into_iter().collect(), hidden, ops })
    }).prop_shuffle_pal().boxed()
}
trait ShufflePal: Strategy<Value = BigC> + Sized + 'static {
    /// the greatest index is not always that of the last position
    fn prop_shuffle_pal(self) -> BoxedStrategy<BigC> {
        (self, any::<u8>()).prop_map(|(mut c, k)| { let n = c.pal.len(); c.pal.rotate_left(k as usize % n); if k % 2 == 0 { c.pal.swap(0, n / 2) } c }).boxed()
    }
}
impl<S: Strategy<Value = BigC> + 'static> ShufflePal for S {}

/// Model of the big graph: the network of the palette, and the size
#[derive(Clone, PartialEq)]
struct Big<'a> { pal: &'a [u32], m: Stn, n: u32 }
impl Big<'_> {
    fn span(&self, a: usize, b: usize) -> (i64, i64) { if self.pal[a] < self.n && self.pal[b] < self.n { self.m.span(a, b) } else { (-INF, INF) } }
    /// forgets the constraints of the instants beyond the size
    fn resize(&mut self, n: u32) {
        self.n = n;
        let k = self.pal.len();
        for a in 0..k { for b in 0..k { if a != b && (self.pal[a] >= n || self.pal[b] >= n) { self.m.d[a][b] = None } } }
    }
    fn used(&self) -> u32 {
        let k = self.pal.len();
        (0..k).filter(|&a| (0..k).any(|b| a != b && self.m.constrained(a, b))).map(|a| self.pal[a] + 1).max().unwrap_or(0)
    }
    fn same(&self, g: &TimeGraph, what: &str) -> Verdict {
        ensure_eq!(g.size(), self.n, "{what}: size");
        let k = self.pal.len();
        let mut want = vec![];
        for a in 0..k { for b in 0..k {
            let (i, j) = (self.pal[a], self.pal[b]);
            let s = g.timespan(i, j);
            ensure_eq!((s.lower_bound().as_ticks(), s.upper_bound().as_ticks()), self.span(a, b), "{what}: time span from {i} to {j}");
            if i < j && j < self.n && self.m.constrained(a, b) { let (l, u) = self.m.span(a, b); want.push((i, j, l, u)) }
        }}
        want.sort();
        let mut got: Vec<_> = g.iter().map(|c| as_tuple(&c)).map(|(i, j, l, u)| if i <= j { (i, j, l, u) } else { (j, i, -u, -l) }).collect();
        got.sort();
        ensure_eq!(got, want, "{what}: constraints");
        for i in [0, self.n / 2, self.n.saturating_sub(1)] { if i < self.n {
            let s = g.timespan(i, i);
            ensure_eq!((s.lower_bound().as_ticks(), s.upper_bound().as_ticks()), (0, 0), "{what}: time span from {i} to itself");
        }}
        Ok(())
    }
    fn add(&self, cx: &Cx, ks: &[K]) -> Option<Self> {
        let mut r = self.clone();
        for k in ks {
            let (l, u) = cx.bounds(k)?;
            r.n = r.n.max(self.pal[k.i as usize].max(self.pal[k.j as usize]) + 1);
            r.m.add(k.i as usize, k.j as usize, l, u);
        }
        if r.m.close() { Some(r) } else { None }
    }
    fn lookups(&self, g: &TimeGraph, what: &str) -> Verdict {
        let k = self.pal.len();
        let pos = |i: u32| self.pal.iter().position(|&x| x == i);
        for a in 0..k { for i in [self.pal[a], self.pal[a] + 1, self.pal[a].saturating_sub(1)] {
            let mut want: Vec<_> = pos(i).filter(|_| i < self.n).map_or(vec![], |a| (0..k).filter(|&b| b != a && self.span(a, b) != (-INF, INF)).map(|b| { let (l, u) = self.span(a, b); (i, self.pal[b], l, u) }).collect());
            want.sort();
            let mut from: Vec<_> = hinted(|| g.constraints_from(i), "constraints_from")?.iter().map(as_tuple).collect();
            from.sort();
            ensure_eq!(from, want, "{what}: constraints_from({i})");
            let mut to: Vec<_> = hinted(|| g.constraints_to(i), "constraints_to")?.iter().map(as_tuple).map(|(j, i, l, u)| (i, j, -u, -l)).collect();
            to.sort();
            ensure_eq!(to, want, "{what}: constraints_to({i}), reversed");
            for b in 0..k { for j in [self.pal[b], self.pal[b] + 1] {
                let (l, u) = if i == j && i < self.n { (0, 0) } else { match (pos(i), pos(j)) { (Some(a), Some(b)) => self.span(a, b), _ => (-INF, INF) } };
                let inside = i < self.n && j < self.n;
                ensure_eq!(g.constraint(i, j).map(|c| as_tuple(&c)), if inside && (l, u) != (-INF, INF) { Some((i, j, l, u)) } else { None }, "{what}: constraint({i},{j})");
                let cmp = if !inside { None } else if l > 0 { Some(Ordering::Less) } else if u < 0 { Some(Ordering::Greater) } else if (l, u) == (0, 0) { Some(Ordering::Equal) } else { None };
                ensure_eq!(g.instant_cmp(i, j), cmp, "{what}: instant_cmp({i},{j})");
                ensure_eq!(g.are_distinct_instants(i, j), inside && (l > 0 || u < 0), "{what}: are_distinct_instants({i},{j})");
            }}
        }}
        let n = hinted(|| g.iter(), "iter")?.len();
        ensure!(n <= k * k, "{what}: too many constraints");
        Ok(())
    }
}
fn c_big(c: &BigC, o: &mut Obs, judge: Judge) -> Verdict {
    let cx = Cx { unit: c.unit, hidden: &c.hidden };
    let real = |k: &K| ((c.pal[k.i as usize], c.pal[k.j as usize]), cx.span(k));
    let list = |ks: &[K]| ks.iter().map(real).collect::<Vec<_>>();
    let mut g = TimeGraph::with_size(c.start);
    let mut m = Big { pal: &c.pal, m: Stn::new(c.pal.len()), n: c.start };
    m.same(&g, "with_size")?;
    let (mut changed, mut refused, mut after, mut structural, mut mixed) = (0, 0, false, 0, false);
    for (n, op) in c.ops.iter().enumerate() {
        o.step();
        after |= refused > 0;
        let what = &format!("step {n}");
        let (r, want) = match op {
            BOp::One(k) => (out(g.propagate(real(k))), m.add(&cx, std::slice::from_ref(k))),
            BOp::Many(ks) => {
                let want = m.add(&cx, ks);
                if (n + ks.len()) % 3 == 0 && m.n.max(want.as_ref().map_or(0, |w| w.n)) <= 300 && c.pal.iter().all(|&x| x < 300) {
                    // the standard trait panics instead of refusing
                    let mut copy = g.clone();
                    let r = panics(|| Extend::extend(&mut copy, hint(list(ks), n as u8)));
                    ensure_eq!(r.is_ok(), want.is_some(), "{what}: Extend::extend succeeds");
                    if let Some(w) = &want { w.same(&copy, &format!("{what}: Extend::extend"))? }
                }
                (out(TimeGraph::extend(&mut g, list(ks))), want)
            }
            BOp::Merge(ks, size) => {
                let mut base = Big { pal: &c.pal, m: Stn::new(c.pal.len()), n: *size };
                let mut other = TimeGraph::with_size(*size);
                for k in ks { if let Some(b) = base.add(&cx, std::slice::from_ref(k)) { base = b; let r = out(other.propagate(real(k))); ensure!(r.ok(), "{what}: other graph refuses ({r:?})") } }
                base.same(&other, &format!("{what}: other graph"))?;
                let mut w = m.clone();
                w.n = w.n.max(base.n);
                for a in 0..c.pal.len() { for b in 0..c.pal.len() { let (l, u) = base.m.span(a, b); w.m.add(a, b, l, u) } }
                let want = if w.m.close() { Some(w) } else { None };
                (out(g.merge(other)), want)
            }
            BOp::Collect(ks) => {
                let want = Big { pal: &c.pal, m: Stn::new(c.pal.len()), n: 0 }.add(&cx, ks);
                match (want, panics(|| hint(list(ks), ks.len() as u8).collect::<TimeGraph>())) {
                    (Some(w), Ok(x)) => { g = x; m = w; }
                    (None, Err(_)) => (),
                    (Some(_), Err(e)) => return Err(format!("{what}: collect: {e}")),
                    (None, Ok(_)) => return Err(format!("{what}: collects inconsistent constraints")),
                }
                m.same(&g, what)?;
                continue
            }
            _ => {
                structural += u32::from(changed > 0);
                match op {
                    BOp::Resize(k) => {
                        // next to an instant of the palette, or any size
                        let k = match k.checked_sub(1_000_000) { Some(a) => c.pal[a as usize % c.pal.len()] + a % 2, None => *k };
                        m.resize(k);
                        g.resize(k)
                    }
                    BOp::Fit => { let k = m.used(); m.resize(k); g.shrink_to_fit() }
                    BOp::ShrinkTo(k) => g.shrink_to(*k),
                    BOp::Reset => { m.m.reset(); g.reset() }
                    _ => { let x = g.clone(); g.reset(); g = x }
                }
                m.same(&g, what)?;
                continue
            }
        };
        match want {
            Some(w) => {
                ensure!(r.ok(), "{what}: refused ({r:?}) though it is consistent");
                w.same(&g, what)?;
                if judge == Judge::Kinds { ensure_eq!(r, if w == m { Out::Unchanged } else { Out::Propagated }, "{what}: result") }
                changed += u32::from(w != m);
                m = w;
            }
            None => {
                ensure!(!r.ok(), "{what}: accepted ({r:?}) though it is inconsistent");
                if r == Out::Fatal { m.resize(0) }
                m.same(&g, &format!("{what}: after {r:?}"))?;
                refused += 1;
            }
        }
        if judge == Judge::Lookups { m.lookups(&g, what)?; }
        let k = c.pal.len();
        let used: Vec<usize> = (0..k).filter(|&a| (0..k).any(|b| b != a && m.m.constrained(a, b))).collect();
        mixed |= used.iter().any(|&a| used.iter().any(|&b| a != b && !m.m.constrained(a, b)));
    }
    o.nontrivial = match judge { Judge::Spans => changed >= 3, Judge::Kinds => after, Judge::Lookups => mixed, Judge::Shape => structural >= 2 };
    o.label_if(c.pal.iter().any(|&x| x >= 256), "index of 256 or more");
    o.label_if(refused > 0, "refusal");
    Ok(())
}

// ---------------------------------------------------------------- C16: out of the range

/// constraints (from, to, lower, upper) delivered by batches of the given sizes (1 = alone)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct FarC { ks: Vec<(u8, u8, i64, i64)>, batches: Vec<u8> }
fn fars() -> BoxedStrategy<FarC> {
    let pos = || prop_oneof![3 => any::<i64>().prop_map(|x| x / 2), 2 => any::<i64>(), 1 => -100i64..100, 1 => prop::sample::select(vec![INF - 2, 2 - INF, INF / 2, -INF / 2, INF / 2 + 1])];
    let slack = || prop_oneof![3 => Just(0i128), 2 => 0i128..5, 1 => (0i64..INF).prop_map(|x| x as i128), 2 => Just(1i128 << 66)];
    (prop::collection::vec(pos(), 6), prop::collection::vec((0u8..6, 1u8..6, slack(), slack(), prop::bool::weighted(0.03), any::<i64>()), 1..12), prop::collection::vec(1u8..5, 12))
        .prop_map(|(h, ks, batches)| {
            let fin = |x: i128| x.clamp(1 - INF as i128, INF as i128 - 1) as i64;
            let ks = ks.into_iter().map(|(i, d, a, b, wild, w)| {
                let j = (i + d) % 6;
                let x = if wild { w as i128 } else { h[j as usize] as i128 - h[i as usize] as i128 };
                // consistent with the dates h, as far as the range allows
                let lo = if a >> 66 == 1 || x - a < -(INF as i128) { -INF } else { fin(x - a) };
                let hi = if b >> 66 == 1 || x + b >= INF as i128 { INF } else { fin(x + b) };
                (i, j, lo, hi)
            }).collect();
            FarC { ks, batches }
        }).boxed()
}
fn c16_far(c: &FarC, o: &mut Obs) -> Verdict {
    let mut g = TimeGraph::default();
    let mut m = Stn::new(0);
    let mut rest = &c.ks[..];
    for (n, b) in c.batches.iter().enumerate() {
        let (ks, tail) = rest.split_at((*b as usize).min(rest.len()));
        rest = tail;
        if ks.is_empty() { break }
        o.step();
        let r = if ks.len() == 1 {
            let (i, j, l, u) = ks[0];
            out(g.propagate(((i as u32, j as u32), iv(l, u))))
        } else {
            out(TimeGraph::extend(&mut g, ks.iter().map(|&(i, j, l, u)| ((i as u32, j as u32), iv::<TimeValue>(l, u))).collect::<Vec<_>>()))
        };
        for &(i, j, l, u) in ks { m.grow(i.max(j) as usize + 1); m.add(i as usize, j as usize, l, u) }
        let ok = m.close();
        let lim = INF as i128 - 1;
        if !ok {
            // beyond the range the contradiction may be missed, within it may not: other legs
            o.label("contradiction");
            return Ok(())
        }
        ensure!(r.ok(), "batch {n}: refused ({r:?}) though it is consistent");
        ensure_eq!(g.size() as usize, m.n, "batch {n}: size");
        let exact = m.within(lim);
        if !exact { o.nontrivial = true }
        o.label_if(exact, "in range");
        for i in 0..m.n { for j in 0..m.n {
            let s = g.timespan(i as u32, j as u32);
            let (l, u) = (s.lower_bound().as_ticks(), s.upper_bound().as_ticks());
            if exact { ensure_eq!((l, u), m.span(i, j), "batch {n}: time span from {i} to {j}") }
            ensure!(l == -INF || m.d[i][j].map_or(false, |x| x >= l as i128), "batch {n}: lower bound {l} from {i} to {j} is not implied");
            ensure!(u == INF || m.d[j][i].map_or(false, |x| -x <= u as i128), "batch {n}: upper bound {u} from {i} to {j} is not implied");
        }}
        for &(i, j, l, u) in ks {
            let s = g.timespan(i as u32, j as u32);
            ensure!(s.lower_bound().as_ticks() >= l && s.upper_bound().as_ticks() <= u, "batch {n}: the constraint from {i} to {j} does not hold");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- small scope

fn family() -> Vec<K> {
    let mut v = vec![];
    let spans = [KSpan::Both(0, 0), KSpan::Both(1, 2), KSpan::Both(-2, 1), KSpan::Low(1), KSpan::Up(-1), KSpan::Both(3, 3)];
    for (i, j) in [(0, 1), (1, 0), (1, 2), (0, 2), (2, 0), (1, 1)] { for w in &spans { v.push(K { i, j, w: w.clone() }) } }
    v.push(K { i: 2, j: 1, w: KSpan::Empty });
    v
}
fn small_seqs(_: bool, shard: usize, n: usize, sink: &mut dyn FnMut(Hist) -> bool) {
    let f = family();
    for (a, ka) in f.iter().enumerate() { if a % n == shard {
        for kb in &f { for kc in &f { for start in [0, 3] {
            let ops = vec![GOp::One(ka.clone()), GOp::One(kb.clone()), GOp::One(kc.clone())];
            if !sink(Hist { unit: 1, start, hidden: vec![], ops, blind: false }) { return }
            let ops = vec![GOp::One(ka.clone()), GOp::Many(vec![kb.clone(), kc.clone()])];
            if !sink(Hist { unit: 1, start, hidden: vec![], ops, blind: false }) { return }
        }}}
    }}
}
fn c16_small(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut Sink { check_kind: false, step: &mut |_, _, _| Ok(()) }, &mut t, o);
    o.nontrivial = t.refused == 0;
    r
}
fn c17_small(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let r = drive(c, &mut Sink { check_kind: true, step: &mut |_, _, _| Ok(()) }, &mut t, o);
    o.nontrivial = t.refused > 0;
    r
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DelC { unit: i64, hidden: Vec<i16>, ks: Vec<K>, a: Deliv, b: Deliv,
    /// the instants stand there in a greater graph (none: the first ones)
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pal: Vec<u32> }
/// a permutation seed, directions to reverse, and how the pieces are handed over
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Deliv { perm: Vec<u8>, flip: u32, how: u8, cut: u8, presize: bool }
fn deliveries() -> BoxedStrategy<DelC> {
    let d = || (prop::collection::vec(any::<u8>(), 16), any::<u32>(), 0u8..9, 0u8..17, any::<bool>()).prop_map(|(perm, flip, how, cut, presize)| Deliv { perm, flip, how, cut, presize });
    (unit(), prop::collection::vec(-40i16..40, 7), prop_oneof![4 => prop::collection::vec(distinct(7, 0), 0..=16), 1 => prop::collection::vec(distinct(5, 3), 0..=10)], d(), d())
        .prop_map(|(unit, hidden, ks, a, b)| DelC { unit, hidden, ks, a, b, pal: vec![] }).boxed()
}
fn many_deliveries() -> BoxedStrategy<DelC> {
    let d = || (prop::collection::vec(any::<u8>(), 70), any::<u32>(), 0u8..9, 0u8..71, any::<bool>()).prop_map(|(perm, flip, how, cut, presize)| Deliv { perm, flip, how, cut, presize });
    (12u8..33).prop_flat_map(move |n| (unit(), prop::collection::vec(-40i16..40, n as usize), prop_oneof![9 => prop::collection::vec(distinct(n, 0), 10..=70), 1 => prop::collection::vec(distinct(n, 1), 5..=40)], d(), d()))
        .prop_map(|(unit, hidden, ks, a, b)| DelC { unit, hidden, ks, a, b, pal: vec![] }).boxed()
}
fn spread_deliveries() -> BoxedStrategy<DelC> {
    (deliveries(), prop_oneof![20 => Just(70u32), 4 => Just(140), 1 => Just(270)].prop_flat_map(|max| prop::collection::btree_set(prop_oneof![3 => 0..max, 1 => prop::sample::select(vec![0u32, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]).prop_map(move |x| x.min(max - 1))], 7)), any::<u8>())
        .prop_map(|(mut c, p, k)| {
            c.pal = p.into_iter().collect();
            c.pal.rotate_left(k as usize % 7);
            if k % 2 == 0 { c.pal.swap(0, 3) }
            c
        }).boxed()
}
fn deliver(cx: &Cx, ks: &[K], d: &Deliv, n: u32, pal: &[u32]) -> Option<TimeGraph> {
    let mut idx: Vec<usize> = (0..ks.len()).collect();
    idx.sort_by_key(|&i| d.perm.get(i).copied().unwrap_or(0));
    // reversed direction: same constraint seen from the other end
    let list: Vec<((Instant, Instant), TimeSpan)> = idx.iter().map(|&i| {
        let ((a, b), s) = cx.list(&ks[i..=i])[0];
        let at = |i: u32| pal.get(i as usize).copied().unwrap_or(i);
        let (a, b) = (at(a), at(b));
        if d.flip >> (i % 32) & 1 == 1 { ((b, a), if s.is_empty() { s } else { -s }) } else { ((a, b), s) }
    }).collect();
    let cut = (d.cut as usize).min(list.len());
    let mut g = if d.presize { TimeGraph::with_size(n) } else { TimeGraph::default() };
    let ok = match d.how {
        0 | 1 => list.iter().all(|k| g.propagate(*k).is_ok()),
        2 => TimeGraph::extend(&mut g, list).is_ok(),
        3 => TimeGraph::extend(&mut g, hint(list, d.cut)).is_ok(),
        4 => match panics(|| hint(list, d.cut).collect::<TimeGraph>()) { Ok(x) => { g = x; true } Err(_) => false },
        5 => {
            let (p, q) = list.split_at(cut);
            let mut h = TimeGraph::default();
            p.iter().all(|k| g.propagate(*k).is_ok()) && TimeGraph::extend(&mut h, hint(q.to_vec(), (d.flip >> 7) as u8)).is_ok() && g.merge(h).is_ok()
        }
        6 => {
            let (p, q) = list.split_at(cut);
            TimeGraph::extend(&mut g, p.iter().copied()).is_ok() && q.iter().all(|k| g.propagate(*k).is_ok())
        }
        7 => {
            // one graph per constraint, merged
            list.iter().all(|k| { let mut h = TimeGraph::default(); h.propagate(*k).is_ok() && g.merge(h).is_ok() })
        }
        _ => {
            // through the constraints of another graph
            let mut h = TimeGraph::default();
            let ok = TimeGraph::extend(&mut h, list).is_ok();
            if ok && h.size() > 0 { g.resize(g.size().max(h.size())) }
            ok && TimeGraph::extend(&mut g, h.iter()).is_ok()
        }
    };
    ok.then_some(g)
}
fn c18(c: &DelC, o: &mut Obs) -> Verdict {
    let cx = Cx { unit: c.unit, hidden: &c.hidden };
    let n = c.ks.iter().map(|k| k.i.max(k.j) as u32 + 1).max().unwrap_or(0);
    let (a, b) = (deliver(&cx, &c.ks, &c.a, c.size(n), &c.pal), deliver(&cx, &c.ks, &c.b, c.size(n), &c.pal));
    o.nontrivial = c.ks.len() >= 3 && n >= 3;
    if !c.pal.is_empty() {
        let mut model = Big { pal: &c.pal, m: Stn::new(c.pal.len()), n: 0 }.add(&cx, &c.ks);
        o.label_if(model.is_none(), "inconsistent");
        ensure_eq!(a.is_some(), model.is_some(), "first delivery succeeds");
        ensure_eq!(b.is_some(), model.is_some(), "second delivery succeeds");
        if let (Some(a), Some(b), Some(m)) = (a, b, &mut model) {
            m.n = c.size(n);
            m.same(&a, "first delivery")?;
            m.same(&b, "second delivery")?;
        }
        return Ok(())
    }
    let model = madd(&Stn::new(0), &cx, &c.ks);
    o.label_if(model.is_none(), "inconsistent");
    ensure_eq!(a.is_some(), model.is_some(), "first delivery succeeds");
    ensure_eq!(b.is_some(), model.is_some(), "second delivery succeeds");
    if let (Some(a), Some(b), Some(m)) = (a, b, model) {
        ensure_eq!(a.size(), b.size(), "sizes");
        for i in 0..n { for j in 0..n { ensure_eq!(a.timespan(i, j), b.timespan(i, j), "time spans ({i},{j}) of the two deliveries") } }
        same_graph(&a, &m, "first delivery")?;
        same_graph(&b, &m, "second delivery")?;
    }
    Ok(())
}
impl DelC {
    fn size(&self, n: u32) -> u32 { if self.pal.is_empty() { n } else { self.ks.iter().map(|k| self.pal[k.i as usize].max(self.pal[k.j as usize]) + 1).max().unwrap_or(0) } }
}

// ---------------------------------------------------------------- C19

fn hinted<C: TimeConstraint, I: Iterator<Item = C>>(mk: impl Fn() -> I, what: &str) -> Result<Vec<C>, String> {
    let mut it = mk();
    let mut v = vec![];
    let mut hints = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        hints.push((lo, hi));
        match it.next() { Some(x) => v.push(x), None => break }
        if v.len() > 10_000 { return Err(format!("{what}: does not end")) }
    }
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = v.len() - k.min(v.len());
        ensure!(*lo <= left && hi.map_or(true, |h| h >= left), "{what}: size hint {lo}..{hi:?} with {left} to come");
    }
    ensure!(it.next().is_none() && it.next().is_none(), "{what}: not fused");
    let (lo, _) = it.size_hint();
    ensure_eq!(lo, 0, "{what}: lower size hint at the end");
    // the other ways to read it agree
    let all: Vec<_> = v.iter().map(as_tuple).collect();
    for k in [0, 1, all.len() / 2] {
        let at = || { let mut it = mk(); for _ in 0..k { it.next(); } it };
        let rest = all.get(k..).unwrap_or(&[]);
        ensure_eq!(at().count(), rest.len(), "{what}: count after {k}");
        ensure_eq!(at().last().as_ref().map(as_tuple), rest.last().copied(), "{what}: last after {k}");
        ensure_eq!(at().fold(vec![], |mut v, x| { v.push(as_tuple(&x)); v }), rest, "{what}: fold after {k}");
        for n in [0, 1, 3] {
            let mut it = at();
            ensure_eq!(it.nth(n).as_ref().map(as_tuple), rest.get(n).copied(), "{what}: nth({n}) after {k}");
            let (left, (lo, hi)) = (rest.len().saturating_sub(n + 1), it.size_hint());
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{what}: size hint {lo}..{hi:?} after nth({n}) with {left} to come");
            ensure_eq!(it.next().as_ref().map(as_tuple), rest.get(n + 1).copied(), "{what}: next after nth({n}) after {k}");
        }
    }
    Ok(v)
}
fn as_tuple<C: TimeConstraint>(k: &C) -> (u32, u32, i64, i64) { (TimeConstraint::from(k), k.to(), k.lower_bound().as_ticks(), k.upper_bound().as_ticks()) }
fn lookups(g: &TimeGraph, m: &Stn) -> Verdict {
    let n = m.n;
    let all = |i: usize, j: usize| { let (l, u) = m.span(i, j); (i as u32, j as u32, l, u) };
    let mut want: Vec<_> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|&(i, j)| m.constrained(i, j)).map(|(i, j)| all(i, j)).collect();
    want.sort();
    // each pair once, in one of its two directions
    let got = hinted(|| g.iter(), "iter")?;
    let mut norm: Vec<_> = got.iter().map(as_tuple).map(|(i, j, l, u)| if i <= j { (i, j, l, u) } else { (j, i, -u, -l) }).collect();
    norm.sort();
    ensure_eq!(norm, want, "iter");
    for k in &got {
        let span: TimeSpan = { let (_, _, l, u) = as_tuple(k); iv(l, u) };
        ensure_eq!(k.is_low_bounded(), span.is_low_bounded(), "constraint is_low_bounded");
        ensure_eq!(k.is_up_bounded(), span.is_up_bounded(), "constraint is_up_bounded");
        ensure_eq!(k.is_empty(), false, "constraint is_empty");
        ensure_eq!(k.is_singleton(), span.is_singleton(), "constraint is_singleton");
    }
    for k in got {
        let t = as_tuple(&k);
        let pair: ((Instant, Instant), TimeSpan) = k.into();
        ensure_eq!((pair.0.0, pair.0.1, pair.1.lower_bound().as_ticks(), pair.1.upper_bound().as_ticks()), t, "constraint as a pair");
    }
    for i in 0..n + 2 {
        let mut from: Vec<_> = hinted(|| g.constraints_from(i as u32), "constraints_from")?.iter().map(as_tuple).collect();
        from.sort();
        let want: Vec<_> = if i < n { (0..n).filter(|&j| j != i && m.constrained(i, j)).map(|j| all(i, j)).collect() } else { vec![] };
        ensure_eq!(from, want, "constraints_from({i})");
        let mut to: Vec<_> = hinted(|| g.constraints_to(i as u32), "constraints_to")?.iter().map(as_tuple).collect();
        to.sort();
        let want: Vec<_> = if i < n { (0..n).filter(|&j| j != i && m.constrained(j, i)).map(|j| all(j, i)).collect() } else { vec![] };
        ensure_eq!(to, want, "constraints_to({i})");
        for j in 0..n + 2 { pair_lookup(g, m, i as u32, j as u32)?; }
    }
    for i in [u32::MAX, 65_535, 65_536, 1 << 20] { for j in [0, 1, n as u32, u32::MAX] {
        pair_lookup(g, m, i, j)?;
        pair_lookup(g, m, j, i)?;
    }
        ensure_eq!(g.constraints_from(i).count(), 0, "constraints_from({i})");
        ensure_eq!(g.constraints_to(i).count(), 0, "constraints_to({i})");
    }
    Ok(())
}
fn pair_lookup(g: &TimeGraph, m: &Stn, i: u32, j: u32) -> Verdict {
    let inside = (i as usize) < m.n && (j as usize) < m.n;
    let (l, u) = m.span(i as usize, j as usize);
    let s = g.timespan(i, j);
    ensure_eq!((s.lower_bound().as_ticks(), s.upper_bound().as_ticks()), (l, u), "timespan({i},{j})");
    match g.constraint(i, j) {
        Some(k) => { ensure!(inside && (l, u) != (-INF, INF), "constraint({i},{j}) exists"); ensure_eq!(as_tuple(&k), (i, j, l, u), "constraint({i},{j})") }
        None => ensure!(!inside || (l, u) == (-INF, INF), "constraint({i},{j}) is missing"),
    }
    let cmp = if !inside { None } else if l > 0 { Some(Ordering::Less) } else if u < 0 { Some(Ordering::Greater) } else if (l, u) == (0, 0) { Some(Ordering::Equal) } else { None };
    ensure_eq!(g.instant_cmp(i, j), cmp, "instant_cmp({i},{j})");
    ensure_eq!(g.are_distinct_instants(i, j), inside && (l > 0 || u < 0), "are_distinct_instants({i},{j})");
    Ok(())
}
fn c19(c: &Hist, o: &mut Obs) -> Verdict {
    let mut t = Tally::default();
    let mut nt = false;
    let last = c.ops.len() - 1;
    let r = drive(c, &mut Sink { check_kind: false, step: &mut |g, m, n| {
        if n == last || n % 4 == 0 { lookups(g, m)?; }
        let k = (0..m.n).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|&(i, j)| m.constrained(i, j)).count();
        nt |= m.n >= 3 && k > 0 && k < m.n * (m.n - 1) / 2;
        Ok(())
    } }, &mut t, o);
    o.nontrivial = nt;
    labels(c, &t, o);
    r
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct EqC { a: K, b: K }
fn equivs() -> BoxedStrategy<EqC> {
    let c = || prop_oneof![3 => -2i16..3, 1 => -2000i16..2000];
    let w = move || prop_oneof![2 => (c(), 0i16..3).prop_map(|(a, l)| KSpan::Both(a, a + l)), 1 => (c(), 0i16..900).prop_map(|(a, l)| KSpan::Both(a, a + l)), 1 => c().prop_map(KSpan::Low), 1 => c().prop_map(KSpan::Up), 1 => Just(KSpan::All), 1 => c().prop_map(KSpan::Pt)];
    let id = || prop_oneof![4 => 0u8..3, 1 => any::<u8>()];
    (id(), id(), w(), id(), id(), w(), 0u8..7, -1i16..2, -1i16..2).prop_map(|(i, j, x, k, l, y, same, p, q)| {
        let rev = |x: KSpan| match x { KSpan::Both(p, q) => KSpan::Both(-q, -p), KSpan::Low(p) => KSpan::Up(-p), KSpan::Up(p) => KSpan::Low(-p), KSpan::Pt(p) => KSpan::Pt(-p), z => z };
        // one bound or both off by one, or missing
        let near = |x: KSpan| match x {
            KSpan::Both(a, b) if p + q == 2 => if a % 2 == 0 { KSpan::Low(a) } else { KSpan::Up(b) },
            KSpan::Both(a, b) if a + p <= b + q => KSpan::Both(a + p, b + q),
            KSpan::Low(a) => KSpan::Low(a + p), KSpan::Up(b) => KSpan::Up(b + q), KSpan::Pt(a) => KSpan::Both(a, a + q.abs()), z => z };
        let a = K { i, j, w: x.clone() };
        let b = match same {
            0 => K { i: k, j: l, w: y },
            1 => K { i, j, w: x },
            2 => K { i: j, j: i, w: rev(x) },
            3 => K { i, j, w: near(x) },
            4 => K { i: j, j: i, w: rev(near(x)) },
            5 => K { i: j, j: i, w: near(x) },
            _ => if p == 0 { K { i: k, j, w: x } } else { K { i: j, j: k, w: rev(x) } },
        };
        EqC { a, b }
    }).boxed()
}
fn c19_equiv(c: &EqC, o: &mut Obs) -> Verdict {
    let cx = Cx { unit: 1, hidden: &[] };
    let (a, b) = (cx.list(std::slice::from_ref(&c.a))[0], cx.list(std::slice::from_ref(&c.b))[0]);
    let t = |k: &((Instant, Instant), TimeSpan)| as_tuple(k);
    // the same constraint: same pair and bounds, or the pair reversed with negated bounds
    let ((i, j, l, u), y) = (t(&a), t(&b));
    if i == j && y.0 == y.1 { return Ok(()) } // constraints of an instant with itself: both readings coexist
    let want = y == (i, j, l, u) || y == (j, i, -u, -l);
    ensure_eq!(a.equiv(&b), want, "equiv of {a:?} and {b:?}");
    ensure_eq!(b.equiv(&a), want, "equiv is symmetric");
    o.nontrivial = matches!(c.a.w, KSpan::Both(..) | KSpan::Pt(_)) && matches!(c.b.w, KSpan::Both(..) | KSpan::Pt(_));
    o.label_if(want, "equivalent");
    Ok(())
}
