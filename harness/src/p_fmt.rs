//! C15: printed forms are read back, token by token, by parsers written from the documentation.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_graph::{constraint, madd, Cx, K};
use crate::p_time::fintick;
use crate::{ensure, ensure_eq, on_convex, Prop};
use chrono::{DateTime, NaiveDateTime, Utc};
use chronologic::graph::*;
use chronologic::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

fn boxed<C: CaseT>(l: Leg<C>) -> Box<dyn AnyLeg> { Box::new(l) }

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C15", legs: vec![
        boxed(Leg { name: "durations", rule: "durations of every scale and sign, biased to sums of a few units and their neighbours, printed and read back unit by unit; non-trivial: 2 or more units printed", quick: 1_500_000, thorough: 30_000_000, strat: || dur().prop_map(|t| TickC { t, f: 0 }).boxed(), check: durations }),
        boxed(Leg { name: "dates", rule: "dates on both sides of the origin, default and custom formats, read back or compared with chrono's own formatting of that nanosecond; non-trivial: a fractional part or a date before the origin", quick: 400_000, thorough: 10_000_000, strat: || (dur(), 0u8..FMTS.len() as u8).prop_map(|(t, f)| TickC { t, f }).boxed(), check: dates }),
        boxed(Leg { name: "windows", rule: "points, intervals, ranges and sets of dates or durations in Display, Debug and custom formats, read back part by part; non-trivial: 2 or more parts, or an open, singleton or empty part", quick: 400_000, thorough: 10_000_000, strat: || (scene(), win(), any::<bool>(), 0u8..FMTS.len() as u8).prop_map(|(scene, w, date, f)| WinC { scene, w, date, f }).boxed(), check: windows }),
        boxed(Leg { name: "graphs", rule: "random graphs and schedulers on them, every printed line compared with the constraints and slots; non-trivial: a constraint printed and some instant restricted", quick: 60_000, thorough: 2_000_000, strat: graphs, check: graphs_check }),
    ]}]
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct TickC { t: i64, f: u8 }
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct WinC { scene: Scene, w: Win, date: bool, f: u8 }

const SEC: i64 = 1 << 30;
const FMTS: [&str; 12] = ["%Y-%m-%d", "%H:%M:%S", "%M:%S", "%F %T%.9f", "%j/%a %b %e", "%s", "%Y-%m-%dT%H:%M:%S%.3fZ", "no field", "%I %p %y %%", "%T%.f", "%C %G-W%V-%u", "%D %R %6f"];

fn dur() -> BoxedStrategy<i64> {
    let unit = || prop_oneof![Just(31_556_952i64), Just(2_629_746), Just(86_400), Just(3_600), Just(60), Just(1)];
    prop_oneof![
        2 => fintick(),
        // a few units, a number of milliseconds, microseconds, nanoseconds and ticks
        4 => (prop::collection::vec((unit(), 0i64..60), 0..4), prop_oneof![2 => Just(0i64), 1 => 0i64..1000], prop_oneof![2 => Just(0i64), 1 => 0i64..1000], prop_oneof![2 => Just(0i64), 1 => 0i64..1000], -2i64..3, any::<bool>())
            .prop_map(|(v, ms, us, ns, d, neg)| {
                let secs: i64 = v.iter().map(|(u, k)| u * k).sum::<i64>().min(8_000_000_000);
                let frac = ((ms * 1_000_000 + us * 1_000 + ns) as i128 * SEC as i128 / 1_000_000_000) as i64;
                let t = secs * SEC + frac + d;
                if neg { -t } else { t }
            }),
        1 => (prop_oneof![Just(SEC / 1000), Just(SEC / 1_000_000), Just(2i64), Just(1), Just(SEC), Just(60 * SEC), Just(86_400 * SEC)], 0i64..1100, -2i64..3, any::<bool>()).prop_map(|(u, k, d, n)| { let t = u * k + d; if n { -t } else { t } }),
    ].boxed()
}

// ---------------------------------------------------------------- readers

/// (text, nanoseconds, exclusive limit of the count)
const UNITS: [(&str, i128, i128); 9] = [
    ("y", 31_556_952_000_000_000, i128::MAX), ("mo", 2_629_746_000_000_000, 12), ("d", 86_400_000_000_000, 31), ("h", 3_600_000_000_000, 24), ("min", 60_000_000_000, 60),
    // one thousand of a sub-second unit may stay in that unit
    ("s", 1_000_000_000, 60), ("ms", 1_000_000, 1_000), ("us", 1_000, 1_001), ("ns", 1, 1_001),
];
/// Reads a printed finite duration: nanoseconds and number of units
fn read_duration(s: &str) -> Result<(i128, usize), String> {
    let (neg, body) = match s.strip_prefix("- ") { Some(b) => (true, b), None => (false, s) };
    if body == "0" { return Ok((0, 0)) }
    let (mut last, mut ns, mut n) = (None, 0i128, 0);
    for tok in body.split(' ') {
        let digits = tok.bytes().take_while(|b| b.is_ascii_digit()).count();
        let (num, unit) = tok.split_at(digits);
        let Some(k) = UNITS.iter().position(|u| u.0 == unit) else { return Err(format!("unknown unit in {s:?}")) };
        let Ok(x) = num.parse::<i128>() else { return Err(format!("no count in {s:?}")) };
        ensure!(last.map_or(true, |l| k > l), "units out of order in {s:?}");
        ensure!(x > 0 && x < UNITS[k].2 && !num.starts_with('0'), "count {x} of {unit} in {s:?}");
        last = Some(k);
        ns += x * UNITS[k].1;
        n += 1;
    }
    Ok((if neg { -ns } else { ns }, n))
}
/// |ns - ticks| within the given number of nanoseconds
/// (and not a single one when the ticks are a whole number of nanoseconds)
fn within(ns: i128, ticks: i64, tol: i128) -> bool { (ns * SEC as i128 - ticks as i128 * 1_000_000_000).abs() <= if ticks % (1 << 21) == 0 { 0 } else { tol * SEC as i128 } }

fn durations(c: &TickC, o: &mut Obs) -> Verdict {
    let t = tv(c.t);
    for (what, s) in [("Display", t.to_string()), ("format_timepoint", t.format_timepoint("%s"))] {
        let (ns, n) = read_duration(&s)?;
        ensure!(within(ns, c.t, 1), "{what}: {} ticks printed {s:?}, which is {ns} ns", c.t);
        ensure!(c.t >= 0 || s.starts_with("- "), "{what}: sign of {} ticks in {s:?}", c.t);
        ensure!(c.t < 0 || !s.starts_with('-'), "{what}: sign of {} ticks in {s:?}", c.t);
        o.nontrivial |= n >= 2;
        o.label_if(n == 0, "prints 0");
        o.label_if(n >= 5, "five units or more");
    }
    ensure_eq!(format!("{t:?}"), c.t.to_string(), "Debug");
    ensure_eq!(TimeValue::INFINITE.to_string(), "+oo", "Display of the infinity");
    ensure_eq!((-TimeValue::INFINITE).to_string(), "-oo", "Display of minus infinity");
    ensure_eq!(format!("{:?}/{:?}", TimeValue::INFINITE, -TimeValue::INFINITE), "+oo/-oo", "Debug of the infinities");
    ensure_eq!(TimeValue::INFINITE.format_timepoint("%s") + &(-TimeValue::INFINITE).format_timepoint("%s"), "+oo-oo", "format_timepoint of the infinities");
    o.label_if(c.t < 0, "negative");
    Ok(())
}

fn utc(ns: i128) -> DateTime<Utc> { DateTime::<Utc>::from_timestamp(ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as u32).expect("chrono covers the range") }
/// what chrono prints for the instants within a nanosecond (for that very instant when it is a whole number of them)
fn chrono_says(ticks: i64, f: &str) -> Vec<String> {
    let ns = (ticks as i128 * 1_000_000_000).div_euclid(SEC as i128);
    let d = if ticks % (1 << 21) == 0 { 0 } else { 1 };
    (-d..=d).map(|d| utc(ns + d).format(f).to_string()).collect()
}
fn dates(c: &TickC, o: &mut Obs) -> Verdict {
    let t = ts(c.t);
    let s = t.to_string();
    if c.t >= 0 {
        let d = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M:%S%.f UTC").map_err(|e| format!("Display: {s:?} is not a date: {e}"))?.and_utc();
        let ns = d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128;
        ensure!(within(ns, c.t, 1), "Display: {} ticks after the origin printed {s:?}", c.t);
    } else {
        let Some(b) = s.strip_suffix(" before 1970-01-01 00:00:00 UTC") else { return Err(format!("Display: date before the origin printed {s:?}")) };
        ensure!(!b.starts_with('-'), "Display: negative lag in {s:?}");
        let (ns, _) = read_duration(b)?;
        ensure!(within(-ns, c.t, 1), "Display: {} ticks printed {s:?}", c.t);
    }
    let f = FMTS[c.f as usize];
    let s = t.format_timepoint(f);
    ensure!(chrono_says(c.t, f).contains(&s), "format {f:?}: {} ticks printed {s:?}, chrono prints {:?}", c.t, chrono_says(c.t, f));
    ensure_eq!(format!("{t:?}"), format!("t={}", c.t), "Debug");
    ensure_eq!(format!("{}/{}", Timestamp::INFINITE, -Timestamp::INFINITE), "+oo/-oo", "Display of the infinities");
    ensure_eq!(Timestamp::INFINITE.format_timepoint(f) + &(-Timestamp::INFINITE).format_timepoint(f), "+oo-oo", "format_timepoint of the infinities");
    ensure_eq!(format!("{:?}/{:?}", Timestamp::INFINITE, -Timestamp::INFINITE), "t=+oo/t=-oo", "Debug of the infinities");
    o.nontrivial = c.t % SEC != 0 || c.t < 0;
    o.label_if(c.t < 0, "before the origin");
    Ok(())
}

// ---------------------------------------------------------------- windows

/// The documented form of a window, given the form of its points
fn window_text(m: &MSet, pt: &dyn Fn(i64) -> String) -> String {
    if m.is_empty() { return "{}".into() }
    m.0.iter().map(|&(l, u)| match (l == -INF, u == INF) {
        (true, true) => "]-oo,+oo[".to_string(),
        (true, false) => format!("]-oo,{}]", pt(u)),
        (false, true) => format!("[{},+oo[", pt(l)),
        _ if l == u => format!("{{{}}}", pt(l)),
        _ => format!("[{},{}]", pt(l), pt(u)),
    }).collect::<Vec<_>>().join("U")
}
fn set_format<W: TimeSetFormat>(w: &W, f: &str) -> String { w.format_timeset(f) }
fn windows_t<T: P + Debug>(c: &WinC) -> Verdict {
    let f = FMTS[c.f as usize];
    let s = c.scene;
    let m = c.w.model(s);
    let custom = window_text(&m, &|x| T::mk(x).format_timepoint(f));
    let display = window_text(&m, &|x| T::mk(x).to_string());
    let debug = window_text(&m, &|x| format!("{:?}", T::mk(x)));
    // every operand kind, through its own type
    let got = on_convex!(&c.w, s, T, |x| set_format(&x, f), set_format(&set::<T>(&m), f));
    ensure_eq!(got, custom, "format_timeset");
    let as_set = set::<T>(&m);
    ensure_eq!(set_format(&as_set, f), custom, "format_timeset of the set");
    ensure_eq!(as_set.to_string(), display, "Display of the set");
    ensure_eq!(format!("{as_set:?}"), debug, "Debug of the set");
    if m.0.len() <= 1 {
        let i: TimeInterval<T> = match m.0.first() { Some(&(l, u)) => iv(l, u), None => TimeInterval::empty() };
        ensure_eq!(set_format(&i, f), custom, "format_timeset of the interval");
        ensure_eq!(i.to_string(), display, "Display of the interval");
        ensure_eq!(format!("{i:?}"), debug, "Debug of the interval");
    }
    Ok(())
}
fn windows(c: &WinC, o: &mut Obs) -> Verdict {
    let m = c.w.model(c.scene);
    o.nontrivial = m.0.len() != 1 || m.0[0].0 == -INF || m.0[0].1 == INF || m.0[0].0 == m.0[0].1;
    o.label_if(m.is_empty(), "empty");
    o.label_if(m.0.len() > 1, "several parts");
    if c.date { windows_t::<Timestamp>(c) } else { windows_t::<TimeValue>(c) }
}

// ---------------------------------------------------------------- graphs and schedules

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct GraphC { unit: i64, n: u8, hidden: Vec<i16>, ks: Vec<K>, slots: Vec<(u8, SetC)>, f: u8 }
fn graphs() -> BoxedStrategy<GraphC> {
    (prop_oneof![2 => Just(1i64), 2 => Just(SEC), 1 => Just(3600 * SEC), 1 => 1i64..1_000_000_000], 0u8..7, prop::collection::vec(-40i16..40, 7),
     prop::collection::vec(constraint(7, 0), 0..9), prop::collection::vec((0u8..7, setc(4)), 0..5), 0u8..FMTS.len() as u8)
        .prop_map(|(unit, n, hidden, ks, slots, f)| GraphC { unit, n, hidden, ks, slots, f }).boxed()
}
fn graphs_check(c: &GraphC, o: &mut Obs) -> Verdict {
    let cx = Cx { unit: c.unit, hidden: &c.hidden };
    let n = c.n as usize;
    let mut g = TimeGraph::with_size(c.n as u32);
    let mut m = Stn::new(n);
    for k in &c.ks {
        if k.i as usize >= n || k.j as usize >= n { continue }
        if let Some(r) = madd(&m, &cx, std::slice::from_ref(k)) { m = r; ensure!(cx.propagate(&mut g, k).ok(), "a consistent constraint is refused"); }
    }
    let span = |i: usize, j: usize| { let (l, u) = m.span(i, j); MSet::iv(l, u) };
    let disp = |x: i64| tv(x).to_string();
    let dbg = |x: i64| format!("{:?}", tv(x));
    // graph: each constrained pair once, in one direction or the other
    let text = g.to_string();
    let lines: Vec<&str> = text.lines().collect();
    ensure!(!lines.is_empty(), "graph: nothing printed");
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|&(i, j)| m.constrained(i, j)).collect();
    ensure_eq!(lines[0], format!("[graph with {n} instants]"), "graph: first line");
    ensure_eq!(lines[lines.len() - 1], format!("[with {} constraints]", pairs.len()), "graph: last line");
    ensure_eq!(lines.len(), pairs.len() + 2, "graph: number of lines in {text:?}");
    for &(i, j) in &pairs {
        let a = format!("t{j} - t{i} in {}", window_text(&span(i, j), &disp));
        let b = format!("t{i} - t{j} in {}", window_text(&span(j, i), &disp));
        ensure_eq!(lines.iter().filter(|l| l.trim() == a || l.trim() == b).count(), 1, "graph: line {a:?} in {text:?}");
    }
    // graph matrix: one row per instant, cell (i,j) is the lower bound from i to j
    let rows: Vec<Vec<String>> = format!("{g:?}").lines().filter(|l| !l.trim().is_empty()).map(|l| l.split_whitespace().map(String::from).collect()).collect();
    ensure_eq!(rows.len(), n, "matrix: rows");
    for (i, row) in rows.iter().enumerate() {
        let want: Vec<String> = std::iter::once("[".to_string()).chain((0..n).map(|j| dbg(m.span(i, j).0))).chain(std::iter::once("]".to_string())).collect();
        ensure_eq!(*row, want, "matrix: row {i}");
    }
    for i in 0..n { for j in 0..n { if i != j { if let Some(k) = g.constraint(i as u32, j as u32) {
        ensure_eq!(k.to_string(), format!("t{j} - t{i} in {}", window_text(&span(i, j), &disp)), "constraint Display");
        ensure_eq!(format!("{k:?}"), format!("({i}->{j})={}", window_text(&span(i, j), &dbg)), "constraint Debug");
        ensure_eq!(set_format(&k, "%s"), window_text(&span(i, j), &|x| tv(x).format_timepoint("%s")), "constraint format_timeset");
    }}}}
    // schedules: the slots are read through the API, their text is compared with them
    let mut s = TimeScheduler::new(&g);
    let mut restricted = false;
    for (i, w) in &c.slots { if (*i as usize) < n {
        let x = w.model(Scene { base: 0, unit: 3 * c.unit.max(3) });
        restricted |= s.retain(*i as u32, set::<Timestamp>(&x)).is_ok() && x != MSet::all();
    }}
    let slots: Vec<MSet> = s.schedule().iter().map(|x| MSet(parts(x))).collect();
    let f = FMTS[c.f as usize];
    let lines_of = |pt: &dyn Fn(i64) -> String| -> String { slots.iter().enumerate().map(|(i, x)| format!("t{i} in {}\n", window_text(x, pt))).collect() };
    ensure_eq!(s.to_string(), lines_of(&|x| ts(x).to_string()), "schedule Display");
    ensure_eq!(format!("{s:?}"), lines_of(&|x| format!("{:?}", ts(x))), "schedule Debug");
    let want = if n == 0 { "empty time scheduler (no instant)".to_string() } else { lines_of(&|x| ts(x).format_timepoint(f)) };
    ensure_eq!(s.format_timeset(f), want, "schedule format_timeset");
    o.nontrivial = !pairs.is_empty() && restricted;
    o.label_if(n == 0, "no instant");
    Ok(())
}
