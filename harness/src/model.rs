//! Reference models, written from the documentation: sets of ticks as sorted lists of closed
//! intervals, where the two extreme values stand for the infinities.
use serde::{Deserialize, Serialize};

pub const INF: i64 = i64::MAX;

/// A set of ticks; parts are sorted, non-empty, and separated by at least one missing tick.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct MSet(pub Vec<(i64, i64)>);

fn valid((l, u): (i64, i64)) -> bool { l <= u && l != INF && u != -INF }

impl MSet {
    pub fn norm(mut v: Vec<(i64, i64)>) -> MSet {
        v.retain(|&p| valid(p));
        v.sort();
        let mut out: Vec<(i64, i64)> = Vec::new();
        for (l, u) in v {
            match out.last_mut() {
                Some(last) if last.1 == INF || l <= last.1 + 1 => last.1 = last.1.max(u),
                _ => out.push((l, u)),
            }
        }
        MSet(out)
    }
    pub fn empty() -> Self { MSet(vec![]) }
    pub fn all() -> Self { MSet(vec![(-INF, INF)]) }
    pub fn iv(l: i64, u: i64) -> Self { MSet::norm(vec![(l, u)]) }
    pub fn pt(x: i64) -> Self { MSet::iv(x, x) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn lower(&self) -> i64 { self.0.first().map_or(INF, |p| p.0) }
    pub fn upper(&self) -> i64 { self.0.last().map_or(-INF, |p| p.1) }
    pub fn union(&self, o: &MSet) -> MSet { MSet::norm(self.0.iter().chain(&o.0).copied().collect()) }
    pub fn inter(&self, o: &MSet) -> MSet {
        let mut v = vec![];
        for a in &self.0 { for b in &o.0 { v.push((a.0.max(b.0), a.1.min(b.1))) } }
        MSet::norm(v)
    }
    pub fn compl(&self) -> MSet {
        let mut v = vec![];
        let mut cur = -INF; // first tick not yet covered
        let mut open = true;
        for &(l, u) in &self.0 {
            if l != -INF { v.push((cur, l - 1)) }
            if u == INF { open = false } else { cur = u + 1 }
        }
        if open { v.push((cur, INF)) }
        MSet::norm(v)
    }
    pub fn diff(&self, o: &MSet) -> MSet { self.inter(&o.compl()) }
    pub fn has(&self, x: i64) -> bool { self.0.iter().any(|p| p.0 <= x && x <= p.1) }
    pub fn subset_of(&self, o: &MSet) -> bool { self.diff(o).is_empty() }
    pub fn overlaps(&self, o: &MSet) -> bool { !self.inter(o).is_empty() }
    pub fn neg(&self) -> MSet { MSet(self.0.iter().rev().map(|p| (-p.1, -p.0)).collect()) }
    pub fn trunc_before(&self, x: i64) -> MSet { // removes the ticks strictly before x
        self.inter(&if x == -INF { MSet::all() } else { MSet::iv(x, INF) })
    }
    pub fn trunc_after(&self, x: i64) -> MSet {
        self.inter(&if x == INF { MSet::all() } else { MSet::iv(-INF, x) })
    }
    /// All the pairwise sums; None if a finite bound leaves the finite range
    pub fn plus(&self, o: &MSet) -> Option<MSet> {
        let mut v = vec![];
        for a in &self.0 { for b in &o.0 {
            v.push((badd(a.0, b.0)?, badd(a.1, b.1)?));
        }}
        Some(MSet::norm(v))
    }
    /// All the pairwise sums, where a finite bound out of the range becomes the infinity of its sign;
    /// tells whether some pair of parts is entirely out of the range (it is left out)
    pub fn plus_sat(&self, o: &MSet) -> (MSet, bool) {
        let s = |a: i64, b: i64| if a.abs() == INF { a } else if b.abs() == INF { b } else { sat(a as i128 + b as i128) };
        let mut v = vec![];
        let mut full = false;
        for a in &self.0 { for b in &o.0 {
            let p = (s(a.0, b.0), s(a.1, b.1));
            if valid(p) { v.push(p) } else { full = true }
        }}
        (MSet::norm(v), full)
    }
    pub fn minus(&self, o: &MSet) -> Option<MSet> { self.plus(&o.neg()) }
    /// Maps both bounds with a monotone (swap = false) or antitone function
    pub fn map(&self, swap: bool, f: impl Fn(i64) -> i64) -> MSet {
        MSet::norm(self.0.iter().map(|p| if swap { (f(p.1), f(p.0)) } else { (f(p.0), f(p.1)) }).collect())
    }
    pub fn in_range(&self, lim: i64) -> bool {
        self.0.iter().all(|p| [p.0, p.1].iter().all(|&x| x.abs() == INF || x.abs() <= lim))
    }
}

/// Sum of two bounds of the same side; an infinite one absorbs, an overflow is None
pub fn badd(a: i64, b: i64) -> Option<i64> {
    if a.abs() == INF { Some(a) } else if b.abs() == INF { Some(b) } else {
        a.checked_add(b).filter(|s| *s > -INF && *s < INF)
    }
}

/// Exact integer to tick value: beyond the range is the infinity of its sign
pub fn sat(x: i128) -> i64 { x.clamp(-(INF as i128), INF as i128) as i64 }

// ------------------------------------------------------------------------------------------

/// Simple temporal network: d[i][j] is the greatest implied lower bound of t_j - t_i.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stn { pub n: usize, pub d: Vec<Vec<Option<i128>>> }

impl Stn {
    pub fn new(n: usize) -> Self {
        let mut d = vec![vec![None; n]; n];
        for (i, r) in d.iter_mut().enumerate() { r[i] = Some(0) }
        Stn { n, d }
    }
    pub fn grow(&mut self, n: usize) {
        for r in self.d.iter_mut() { r.resize(n.max(self.n), None) }
        for i in self.n..n { let mut r = vec![None; n]; r[i] = Some(0); self.d.push(r) }
        self.n = self.n.max(n);
    }
    pub fn shrink(&mut self, n: usize) {
        self.d.truncate(n);
        for r in self.d.iter_mut() { r.truncate(n) }
        self.n = self.n.min(n);
    }
    fn tighten(&mut self, i: usize, j: usize, lo: i64) {
        if lo != -INF { let c = &mut self.d[i][j]; if c.map_or(true, |x| x < lo as i128) { *c = Some(lo as i128) } }
    }
    /// adds t_j - t_i in [lo,hi] without propagating
    pub fn add(&mut self, i: usize, j: usize, lo: i64, hi: i64) {
        self.tighten(i, j, lo);
        self.tighten(j, i, -hi);
    }
    /// Floyd–Warshall longest paths; false if there is no assignment
    pub fn close(&mut self) -> bool {
        for k in 0..self.n { for i in 0..self.n { for j in 0..self.n {
            if let (Some(a), Some(b)) = (self.d[i][k], self.d[k][j]) {
                if self.d[i][j].map_or(true, |x| x < a + b) { self.d[i][j] = Some(a + b) }
            }
        }}
            for i in 0..self.n { if self.d[i][i].unwrap() > 0 { return false } }
        }
        true
    }
    pub fn span(&self, i: usize, j: usize) -> (i64, i64) {
        if i >= self.n || j >= self.n { return (-INF, INF) }
        (self.d[i][j].map_or(-INF, |x| x as i64), self.d[j][i].map_or(INF, |x| -x as i64))
    }
    pub fn constrained(&self, i: usize, j: usize) -> bool { self.span(i, j) != (-INF, INF) }
    /// the size without the trailing instants that no constraint mentions
    pub fn used(&self) -> usize { (0..self.n).rev().find(|&i| (0..i).any(|j| self.constrained(i, j))).map_or(0, |i| i + 1) }
    pub fn reset(&mut self) { *self = Stn::new(self.n) }
    /// all finite bounds within the given magnitude
    pub fn within(&self, lim: i128) -> bool { self.d.iter().flatten().flatten().all(|x| x.abs() <= lim) }
}
